#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 gen/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LEVEL = ("Every feasible path of the analysed entry sequences is explored over uninterpreted inputs (all strings, all predicate results at once); "
         "exhaustive within the stated shape bounds (number and width of rules, length of the history, listed matcher shapes), nothing beyond them. "
         "Trusts go/types, go/ssa and the library models in fcheck/models*.go and fcheck/gv.go. ")

PROPS = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, thorough=True, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note, thorough=thorough, state=state or []))

def na(id, title, statement, over, text, why, files, mech, observe, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, reason=reason, state=[]))

exec(open(os.path.join(HERE, "gen", "list.py")).read())

def line(p):
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
    if p["state"]:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
    return dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS + NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(line(p)) + "\n")

checks = []
for p in sorted(PROPS, key=lambda p: p["id"]):
    c = dict(property=p["id"], quick_cmd="./run.sh " + p["id"], technique=p["technique"], level="other", level_note=LEVEL + p["note"])
    if p["thorough"]:
        c["thorough_cmd"] = "./run.sh " + p["id"] + " thorough"
    checks.append(c)
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in sorted(NA, key=lambda p: p["id"])])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")
