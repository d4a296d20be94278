package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	id        string
	technique string
	rules     map[string]string // rule -> what it requires
	run       func(c *C)
	shared    map[string]bool // rules of other properties met on the way, not judged here
}

var checks []*Check

func register(ch *Check) { checks = append(checks, ch) }

type obl struct {
	rule, construct string
	paths           int
	undecided       int
	failed          bool
}

type violation struct {
	rule, construct, pos, msg string
	path                      []string
}

// C is the context of one check run.
type C struct {
	*World
	x                   *X
	ch                  *Check
	thorough            bool
	obls                map[string]*obl
	viols               []*violation
	notes               []string
	scen                string
	scens               []string
	nPaths              int
	muted               bool // set-up steps are not judged
	nCut                int
	callBudget, maxCall int
	known               []knownFinding
	sites               map[string]bool
	extra               map[string]interface{}
}

type knownFinding struct {
	property, key, what string
	hit                 bool
}

// scenario names the entry sequence under exploration; used in reports.
func (c *C) scenario(format string, a ...interface{}) {
	c.scen = fmt.Sprintf(format, a...)
	c.scens = append(c.scens, c.scen)
}

func (c *C) m(rel, typ, name string) *ssa.Function { return c.meth(c.ptr(rel, typ), name) }

// run explores a call, paths that hit an exploration bound are dropped (and counted).
func (c *C) call(st *State, fn *ssa.Function, args ...Val) []Outcome {
	return c.top(st, &Func{fn: fn}, args)
}

func (c *C) callv(st *State, fv Val, args ...Val) []Outcome {
	return c.top(st, fv, args)
}

// top runs a call of the entry sequence within a budget of steps, it shrinks when it is exceeded often.
func (c *C) top(st *State, fv Val, args []Val) []Outcome {
	x := c.x
	if c.callBudget == 0 {
		c.callBudget = 5_000_000
	}
	outer, from, exc := x.maxSteps, x.steps, x.exceeded
	x.maxSteps = from + c.callBudget
	os := x.call(st.clone(), fv, args, nil)
	x.maxSteps = outer
	if n := x.steps - from; n > c.maxCall {
		c.maxCall = n
	}
	if x.exceeded > exc && c.callBudget > 50_000 {
		c.callBudget /= 2
	}
	return c.live(os)
}

func (c *C) live(outs []Outcome) []Outcome {
	var r []Outcome
	for _, o := range outs {
		if o.kind == oBlocked {
			continue
		}
		if o.kind == oCut {
			c.nCut++
			if os.Getenv("FCHECK_DEBUG") == "cut" {
				fmt.Fprintln(os.Stderr, "cut in:", c.scen)
			}
			continue
		}
		c.nPaths++
		r = append(r, o)
	}
	return r
}

// invoke calls a method of a value whose dynamic type is known (*Iface) or given.
func (c *C) icall(st *State, recv Val, name string, args ...Val) []Outcome {
	recv = st.norm(recv)
	i, ok := recv.(*Iface)
	if !ok {
		panic(abort{"icall on " + K(recv)})
	}
	fn := c.meth(i.typ, name)
	return c.call(st, fn, append([]Val{i.val}, args...)...)
}

func (c *C) iface(t types.Type, v Val) *Iface { return &Iface{t, v} }

// in makes an input symbol: an arbitrary string.
func in(name string) *Term { return sym("in:"+name, tString) }

func (c *C) strs(st *State, vs ...Val) *Slice {
	return st.newSlice(types.NewSlice(tString), vs)
}

func (c *C) strss(st *State, vs ...Val) *Slice {
	return st.newSlice(types.NewSlice(types.NewSlice(tString)), vs)
}

func (c *C) anys(st *State, vs ...Val) *Slice {
	es := make([]Val, len(vs))
	for i, v := range vs {
		if _, ok := v.(*Iface); ok || isNilConst(v) {
			es[i] = v
		} else {
			es[i] = &Iface{typeOf(v), v}
		}
	}
	return st.newSlice(types.NewSlice(anyT), es)
}

func (c *C) nilStrs() *Slice { return &Slice{typ: types.NewSlice(tString), obj: -1, isNil: true} }

// inRule is an arbitrary rule of n values.
func inVals(name string, n int) []Val {
	var vs []Val
	for i := 0; i < n; i++ {
		vs = append(vs, in(fmt.Sprintf("%s%d", name, i)))
	}
	return vs
}

// base returns a fresh state after package initialisation.
func (c *C) start() *State {
	st := c.x.base.clone()
	st.trace = nil
	return st
}

// pure input terms consist of input symbols and constants only.
func inputOnly(v Val) bool {
	switch v := v.(type) {
	case *Term:
		if len(v.args) == 0 {
			return strings.HasPrefix(v.op, "$in:")
		}
		for _, a := range v.args {
			if !inputOnly(a) {
				return false
			}
		}
		return true
	case *Const:
		return true
	case *Iface:
		return inputOnly(v.val)
	case *Struct:
		for _, f := range v.fields {
			if !inputOnly(f) {
				return false
			}
		}
		return true
	}
	return false
}

type tri int

const (
	tNo tri = iota
	tYes
	tMaybe // depends on inputs: both values are possible
	tUnknown
)

// truth of a boolean value on a path.
func (c *C) truth(st *State, v Val) (r tri) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				r = tUnknown
				return
			}
			panic(e)
		}
	}()
	v = st.norm(v)
	if _, ok := v.(*Iface); ok {
		v = v.(*Iface).val
	}
	if k, b := st.decide(v); k {
		if b {
			return tYes
		}
		return tNo
	}
	if inputOnly(v) {
		return tMaybe
	}
	return tUnknown
}

// same decides the equality of two values (slices are compared by content).
func (c *C) same(st *State, a, b Val) (r tri) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				r = tUnknown
				return
			}
			panic(e)
		}
	}()
	a, b = st.snap(a), st.snap(b)
	cj := st.eq(a, b)
	switch cj.tri {
	case yes:
		return tYes
	case no:
		return tNo
	}
	for _, n := range st.neq {
		if subset(n, cj.atoms) {
			return tNo
		}
	}
	if inputOnly(a) && inputOnly(b) {
		return tMaybe
	}
	return tUnknown
}

// isErr: is the error value non-nil?
func (c *C) isErr(st *State, v Val) tri {
	v = st.norm(v)
	switch e := v.(type) {
	case *Const:
		if e.c == nil {
			return tNo
		}
	case *Iface, *Ptr:
		return tYes
	case *Term:
		if nonNil(e) {
			return tYes
		}
		if k, b := st.decide(T("eq", tBool, e, nilOf(tError))); k {
			if b {
				return tNo
			}
			return tYes
		}
	}
	return tUnknown
}

// ob records an obligation: the condition must be yes. tMaybe is a violation (a concrete input exists).
func (c *C) ob(rule, construct string, r tri, st *State, pos token.Pos, format string, a ...interface{}) bool {
	if c.ch.shared[rule] || c.muted {
		return r == tYes
	}
	k := rule + " @ " + construct
	o := c.obls[k]
	if o == nil {
		o = &obl{rule: rule, construct: construct}
		c.obls[k] = o
	}
	if _, ok := c.ch.rules[rule]; !ok {
		panic("undeclared rule " + rule)
	}
	switch r {
	case tYes:
		o.paths++
		return true
	case tUnknown:
		o.undecided++
		return true
	}
	o.paths++
	if o.failed {
		return false
	}
	o.failed = true
	v := &violation{rule: rule, construct: construct, msg: short(fmt.Sprintf(format, a...), 600)}
	if c.scen != "" {
		v.path = append(v.path, "entry sequence: "+c.scen)
	}
	if st != nil {
		if pos == token.NoPos {
			for e := st.trace; e != nil; e = e.prev {
				if e.pos != token.NoPos && strings.HasPrefix(e.fn, "(*"+modPath) {
					pos = e.pos
					break
				}
			}
		}
		v.path = append(v.path, c.describe(st)...)
	}
	if pos != token.NoPos {
		v.pos = c.pos(pos)
	} else {
		v.pos = construct
	}
	c.viols = append(c.viols, v)
	return false
}

func triOf(b bool) tri {
	if b {
		return tYes
	}
	return tNo
}

func negate(t tri) tri {
	switch t {
	case tYes:
		return tNo
	case tNo:
		return tYes
	}
	return t
}

func anyOf(ts ...tri) tri {
	for i := range ts {
		ts[i] = negate(ts[i])
	}
	return negate(allOf(ts...))
}

func allOf(ts ...tri) tri {
	r := tYes
	for _, t := range ts {
		switch {
		case t == tNo:
			return tNo
		case t == tUnknown:
			r = tUnknown
		case t == tMaybe && r == tYes:
			r = tMaybe
		}
	}
	return r
}

// describe renders a path: assumptions and effects.
func (c *C) describe(st *State) []string {
	var r []string
	var fs []string
	for _, f := range st.facts {
		s := st.show(f.t)
		if !f.v {
			s = "not " + s
		}
		fs = append(fs, s)
	}
	for k, v := range st.repr {
		if strings.HasPrefix(k, "$in:") {
			fs = append(fs, k[1:]+" = "+st.show(v))
		}
	}
	for _, n := range st.neq {
		var ps []string
		for _, a := range n {
			ps = append(ps, st.show(a))
		}
		fs = append(fs, "not all of: "+strings.Join(ps, ", "))
	}
	sort.Strings(fs)
	if len(fs) > 0 {
		r = append(r, "assuming: "+strings.Join(fs, "; "))
	}
	evs := st.events(nil)
	if len(evs) > 60 {
		evs = evs[len(evs)-60:]
	}
	for _, e := range evs {
		switch e.kind {
		case "opaque", "mapstore", "mapdel", "store":
			continue
		}
		var as []string
		for _, a := range e.args {
			as = append(as, st.show(a))
		}
		r = append(r, fmt.Sprintf("%s: %s %s(%s) in %s", c.pos(e.pos), e.kind, e.name, strings.Join(as, ", "), strings.ReplaceAll(e.fn, modPath+"/", "")))
	}
	return r
}

// noPanic records a panic outcome as a violation of rule.
func (c *C) noPanic(rule, construct string, o Outcome) bool {
	if o.kind != oPanic {
		return c.ob(rule, construct, tYes, o.st, token.NoPos, "")
	}
	return c.ob(rule, construct, tNo, o.st, o.pos, "%s panics: %s", construct, o.st.show(o.pv))
}

// ---------- main ----------

func repoDir() string {
	if d := os.Getenv("FCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("FCHECK_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(16 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: fcheck ID [thorough]")
		os.Exit(2)
	}
	id := os.Args[1]
	if id == "list" {
		for _, ch := range checks {
			fmt.Println(ch.id)
		}
		return
	}
	thorough := len(os.Args) > 2 && os.Args[2] == "thorough" || os.Getenv("VERIF_TIER") == "thorough"
	if id == "all" {
		rc := 0
		for _, ch := range checks {
			t0 := time.Now()
			r := runCheck(ch, thorough)
			fmt.Printf("%s rc=%d %.1fs\n", ch.id, r, time.Since(t0).Seconds())
			if r != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	for _, ch := range checks {
		if ch.id == id {
			if f := os.Getenv("FCHECK_PROF"); f != "" {
				w, _ := os.Create(f)
				_ = pprof.StartCPUProfile(w)
				rc := runCheck(ch, thorough)
				pprof.StopCPUProfile()
				os.Exit(rc)
			}
			os.Exit(runCheck(ch, thorough))
		}
	}
	fmt.Println("unknown check", id)
	os.Exit(2)
}

var worldCache *World

// The exploration of a check is bounded in time and memory: code that has far more paths than the code the scenarios were sized for is explored partially, what was not explored is reported as such.
type overBudget struct{ why string }

const (
	maxSeconds = 600
	maxHeap    = 14 << 30
)

var (
	started time.Time
	heap    = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	polls   int
)

func budget() {
	if s := time.Since(started).Seconds(); s > maxSeconds {
		panic(overBudget{fmt.Sprintf("%d seconds", maxSeconds)})
	}
	if polls++; polls&63 == 0 {
		metrics.Read(heap)
		if heap[0].Value.Uint64() > maxHeap {
			panic(overBudget{fmt.Sprintf("%d bytes of heap", int64(maxHeap))})
		}
	}
}

func runCheck(ch *Check, thorough bool) (rc int) {
	t0 := time.Now()
	started = t0
	c := &C{ch: ch, thorough: thorough, obls: map[string]*obl{}, sites: map[string]bool{}, extra: map[string]interface{}{}}
	c.loadKnown()
	func() {
		defer func() {
			if e := recover(); e != nil {
				v := &violation{rule: "undecided", construct: "analysis", pos: "?"}
				switch e := e.(type) {
				case overBudget:
					c.extra["incomplete"] = "exploration stopped after " + e.why + ", last entry sequence: " + c.scen
					fmt.Printf("INCOMPLETE property=%s exploration stopped after %s\n", ch.id, e.why)
					return
				case unresolved:
					v.msg = "anchor not found: " + e.what
				case abort:
					v.msg = "scenario set-up not understood: " + e.msg
				default:
					v.msg = fmt.Sprint(e)
					if os.Getenv("FCHECK_DEBUG") != "" {
						panic(e)
					}
				}
				if c.scen != "" {
					v.path = append(v.path, "entry sequence: "+c.scen)
				}
				c.viols = append(c.viols, v)
			}
		}()
		w := worldCache
		if w == nil {
			var err error
			w, err = load(repoDir())
			if err != nil {
				panic(err.Error())
			}
			worldCache = w
		}
		c.World = w
		c.x = newX(w)
		c.x.runInits()
		ch.run(c)
		// a rule without a discharged obligation decides nothing
		have := map[string]bool{}
		for _, o := range c.obls {
			if o.paths > 0 {
				have[o.rule] = true
			}
		}
		for r := range ch.rules {
			if !have[r] {
				c.viols = append(c.viols, &violation{rule: r, construct: "analysis", pos: "?", msg: "rule has no decided instance (vacuous)"})
			}
		}
	}()
	return c.finish(time.Since(t0).Seconds())
}

func (c *C) loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		ps := strings.SplitN(l, " ", 2)
		if len(ps) != 2 || ps[0] != c.ch.id {
			continue
		}
		// known: property=<id> [rule @ construct] text
		rest := strings.TrimPrefix(ps[1], "[")
		i := strings.Index(rest, "]")
		if i < 0 {
			continue
		}
		c.known = append(c.known, knownFinding{ps[0], rest[:i], strings.TrimSpace(rest[i+1:]), false})
	}
}

func (c *C) finish(wall float64) int {
	var viols []*violation
	for _, v := range c.viols {
		k := v.rule + " @ " + v.construct
		known := false
		for i := range c.known {
			if c.known[i].key == k {
				if !c.known[i].hit {
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ch.id, c.known[i].what, k)
				}
				c.known[i].hit, known = true, true
			}
		}
		if !known {
			viols = append(viols, v)
		}
	}
	ev := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, c.ch.id+".replay.txt")
	os.Remove(replay)
	if len(viols) > 0 {
		var sb strings.Builder
		for _, v := range viols {
			fmt.Fprintf(&sb, "%s: rule %s violated by %s\n  %s\n", v.pos, v.rule, v.construct, v.msg)
			if d := c.ch.rules[v.rule]; d != "" {
				fmt.Fprintf(&sb, "  rule: %s\n", d)
			}
			for _, p := range v.path {
				fmt.Fprintf(&sb, "    %s\n", p)
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, v := range viols {
			if i >= 5 {
				fmt.Printf("... %d more\n", len(viols)-i)
				break
			}
			fmt.Printf("%s: rule %s violated by %s: %s\n", v.pos, v.rule, v.construct, v.msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ch.id, replay)
	}
	c.evidence(filepath.Join(ev, c.ch.id+".json"), wall, len(viols))
	if len(viols) > 0 {
		return 1
	}
	return 0
}

func (c *C) evidence(path string, wall float64, nv int) {
	discharged, undecided, npaths := 0, 0, 0
	var samples []string
	var ks []string
	for k := range c.obls {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := c.obls[k]
		npaths += o.paths
		undecided += o.undecided
		if !o.failed && o.paths > 0 {
			discharged++
		}
		samples = append(samples, fmt.Sprintf("%s: %d path ends", k, o.paths))
	}
	if len(samples) > 60 {
		samples = samples[:60]
	}
	fns := []string{}
	steps, calls := 0, 0
	cutWhy := map[string]int{}
	opaque := map[string]int{}
	if c.x != nil {
		steps, calls = c.x.steps, c.x.calls
		for f := range c.x.fns {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Parent() != nil {
				fns = append(fns, strings.ReplaceAll(f.String(), modPath, "fastac"))
			}
		}
		for f := range c.sites {
			fns = append(fns, f)
		}
		sort.Strings(fns)
		cutWhy, opaque = c.x.cutWhy, c.x.opaque
	}
	scens := c.scens
	if len(scens) > 40 {
		scens = append(append([]string{}, scens[:40]...), fmt.Sprintf("... %d more", len(c.scens)-40))
	}
	cov := map[string]interface{}{
		"explanation": fmt.Sprintf("Static analysis of /repo's current source (go/packages + go/ssa, rebuilt on this run). %s. "+
			"Rules: %s. %d obligations (rule @ construct) were checked at %d program-path ends; %d obligations hold on every path explored.",
			c.ch.technique, ruleText(c.ch.rules), len(c.obls), npaths, discharged),
		"obligations":         len(c.obls),
		"discharged":          discharged,
		"path_ends_checked":   npaths,
		"undecided_path_ends": undecided,
		"paths_returned":      c.nPaths,
		"paths_cut_at_bound":  c.nCut,
		"max_steps_of_a_call": c.maxCall,
		"cut_reasons":         cutWhy,
		"ssa_instructions":    steps,
		"calls_inlined":       calls,
		"functions_analysed":  fns,
		"opaque_callees":      opaque,
		"entry_sequences":     scens,
		"samples":             samples,
		"checker_cmd":         "/verif/run.sh " + c.ch.id,
		"trusted_base":        []string{"go/types", "golang.org/x/tools/go/ssa", "library models in /verif/fcheck/models*.go"},
		"known_findings_hit":  countKnown(c.known),
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	tier := "quick"
	if c.thorough {
		tier = "thorough"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	e := map[string]interface{}{"property": c.ch.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall, "violations": nv}
	b, _ := json.MarshalIndent(e, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
}

func countKnown(ks []knownFinding) int {
	n := 0
	for _, k := range ks {
		if k.hit {
			n++
		}
	}
	return n
}

func ruleText(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []string
	for _, k := range ks {
		r = append(r, k+" = "+m[k])
	}
	return strings.Join(r, "; ")
}

var _ = constant.MakeBool

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}
