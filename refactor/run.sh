#!/bin/bash
# run.sh [NAME...]: applies behaviour-preserving rewrites of fastac in a scratch copy and runs all checks; prints every check that is not quiet
D=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$D")
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
"$V/build.sh" || exit 2
IDS=${IDS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")}
[ $# = 0 ] && set -- $(cd "$D" && ls *.diff | sed 's/.diff$//')
rc=0
for n; do
	S=$(mktemp -d /tmp/fcheck-ref.XXXXXX)
	cp -a /repo "$S/repo"
	mkdir -p "$S/v"; cp "$V/known-findings.txt" "$S/v/"
	if (cd "$S/repo" && git apply "$D/$n.diff" && go build ./...); then
		printf '%s\n' $IDS | xargs -P 8 -I{} sh -c "FCHECK_REPO=$S/repo FCHECK_VERIF=$S/v timeout 900 $V/bin/fcheck {} > $S/v/{}.log 2>&1 || { echo '$n {}: not quiet'; head -2 $S/v/{}.log | cut -c1-300; }" | tee "$S/out"
		[ -s "$S/out" ] && rc=1
	else
		echo "$n: does not apply or build"; rc=1
	fi
	echo "$n done"
	rm -rf "$S"
done
exit $rc
