package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tFloat = types.Typ[types.Float64]

func byteVal(b byte) Val { return &Const{constant.MakeInt64(int64(b)), tByte} }

// boolFn is a matcher function: an arbitrary predicate of its arguments; if faulty it may also fail.
func boolFn(name string, faulty bool) *Native {
	return &Native{name: name, fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		var as []Val
		for _, a := range elemsOf(st, args[0]) {
			as = append(as, st.snap(a))
		}
		st.event(&Event{kind: "call", name: name, args: as, pos: posOf(site)})
		ok := func(s *State) []Outcome { return ret(s, &Iface{tBool, T("in:"+name, tBool, as...)}, nilErr) }
		if !faulty {
			return ok(st)
		}
		var outs []Outcome
		for _, b := range x.split(st, T("in:fails:"+name, tBool, as...)) {
			if b.v {
				b.st.event(&Event{kind: "fault", name: name, args: as, pos: posOf(site)})
				outs = append(outs, ret(b.st, nilOf(anyT), newError(str("fault in "+name)))...)
			} else {
				outs = append(outs, ok(b.st)...)
			}
		}
		return outs
	}}
}

func dots(e string) string { return e }

// mm is a model with a policy, functions and a request definition.
type mm struct {
	st    *State
	model Val
	enf   Val
	args  []string // names of the policy arguments (p_a -> 0)
	rargs []string
	fns   map[string]Val
	key   string
	warm  func(st *State) []*State // queries between the operations
}

func (c *C) newMM(args, rargs []string, effect string, fns map[string]Val) *mm {
	st, m := c.newModel(c.start(), [3]string{"r", "r", strings.Join(rargs, ", ")}, [3]string{"p", "p", strings.Join(args, ", ")}, [3]string{"e", "e", effect})
	for _, n := range []string{"f", "h", "k"} {
		if f, ok := fns[n]; ok {
			st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), m, str(n), f), "SetFunction").st
		}
	}
	return &mm{st: st, model: m, args: args, rargs: rargs, fns: fns, key: "p"}
}

func (c *C) enforcer(st *State, model Val) (*State, Val) {
	o := c.one(c.call(st, c.fn("", "NewEnforcer"), &Iface{c.ptr("model", "Model"), model}, nilOf(anyT), &Slice{typ: types.NewSlice(c.typ("", "Option")), obj: -1, isNil: true}), "NewEnforcer")
	return o.st, o.rets[0]
}

// matcherFor builds a matcher from an expression.
func (c *C) matcherFor(st *State, model Val, expr string) (*State, Val) {
	os := c.matchersFor(st, model, expr)
	if len(os) != 1 {
		panic(abort{fmt.Sprintf("BuildMatcherFromDef %s: %d outcomes", expr, len(os))})
	}
	return os[0].st, os[0].rets[0]
}

func (c *C) matchersFor(st *State, model Val, expr string) []Outcome {
	var out []Outcome
	o := c.one(c.call(st, c.fn("model/defs", "NewMatcherDef"), str("m"), str(expr)), "NewMatcherDef")
	for _, o := range c.call(o.st, c.m("model", "Model", "BuildMatcherFromDef"), model, o.rets[0]) {
		if o.kind != oRet || c.isErr(o.st, o.rets[1]) != tNo {
			panic(abort{"BuildMatcherFromDef " + expr + " fails"})
		}
		out = append(out, o)
	}
	return out
}

// specEval forks a path on the truth of the matcher expression for a rule.
func (c *C) specEval(st *State, expr string, m *mm, rule []Val, req []Val) []splitRes {
	cs := expandEval(specExpr(expr), m, rule, req)
	if m.key != "p" {
		cs = strings.ReplaceAll(cs, "p_", m.key+"_")
	}
	e, _, err := parseEx(cs, m.fns)
	if err != nil || e == nil {
		panic(abort{"specification expression " + cs})
	}
	get := func(st *State, name string) []evRes {
		for i, a := range m.args {
			if name == m.key+"_"+a {
				return []evRes{{st: st, v: &Iface{tString, rule[i]}, err: nilErr}}
			}
		}
		for i, a := range m.rargs {
			if name == "r_"+a {
				return []evRes{{st: st, v: castNumber(req[i]), err: nilErr}}
			}
		}
		panic(abort{"specification variable " + name})
	}
	var out []splitRes
	for _, r := range c.x.evalEx(st.clone(), e, &evExpr{str(cs), m.fns}, get, nil) {
		i, ok := r.st.norm(r.v).(*Iface)
		if !ok {
			panic(abort{"specification value of " + cs})
		}
		for _, b := range c.x.split(r.st, i.val) {
			out = append(out, b)
		}
	}
	return out
}

// specAll evaluates the expression for all rules; bit i of the mask tells whether rule i matches.
type specRes struct {
	st   *State
	mask []bool
}

func (c *C) specAll(st *State, expr string, m *mm, rules [][]Val, req []Val) []specRes {
	cur := []specRes{{st, nil}}
	for _, r := range rules {
		var nxt []specRes
		for _, s := range cur {
			for _, b := range c.specEval(s.st, expr, m, r, req) {
				nxt = append(nxt, specRes{b.st, append(append([]bool{}, s.mask...), b.v)})
			}
		}
		cur = nxt
	}
	return cur
}

// ruleHist explores a history of model operations on rules.
type ruleHist struct {
	st   *State
	set  []Val   // present rules (content terms, without key)
	vals [][]Val // their values
	desc string
}

// apply runs "add i" / "remove i" / "clear" operations through Model.
func (c *C) apply(h ruleHist, m *mm, op string, rules [][]Val) []ruleHist {
	verb, arg := verbKind(op)
	if m.warm != nil {
		cold := *m
		cold.warm = nil
		var out []ruleHist
		for _, st := range m.warm(h.st) {
			n := h
			n.st = st
			n.desc += "query; "
			out = append(out, c.apply(n, &cold, op, rules)...)
		}
		return out
	}
	st := h.st.clone()
	desc := h.desc + op + "; "
	var out []ruleHist
	if verb == "clear" {
		for _, o := range c.call(st, c.m("model", "Model", "ClearPolicy"), m.model, str(m.key)) {
			if o.kind == oRet {
				out = append(out, ruleHist{o.st, nil, nil, desc})
			}
		}
		return out
	}
	i := int(arg[0] - '0')
	rule := c.strs(st, append([]Val{str(m.key)}, rules[i]...)...)
	content := st.snap(c.strs(st, rules[i]...))
	name := "AddRule"
	if verb == "remove" {
		name = "RemoveRule"
	}
	for _, o := range c.call(st, c.m("model", "Model", name), m.model, rule) {
		if o.kind != oRet {
			continue
		}
		for _, mb := range c.member(setState{o.st, h.set}, content) {
			n := ruleHist{mb.st, h.set, h.vals, desc}
			if verb == "add" && mb.idx < 0 {
				n.set = append(append([]Val{}, h.set...), content)
				n.vals = append(append([][]Val{}, h.vals...), rules[i])
			}
			if verb == "remove" && mb.idx >= 0 {
				n.set = without(h.set, mb.idx)
				n.vals = append(append([][]Val{}, h.vals[:mb.idx]...), h.vals[mb.idx+1:]...)
			}
			out = append(out, n)
		}
	}
	return out
}

func (c *C) applyAll(h ruleHist, m *mm, ops []string, rules [][]Val) []ruleHist {
	cur := []ruleHist{h}
	for _, op := range ops {
		var nxt []ruleHist
		for _, h := range cur {
			nxt = append(nxt, c.apply(h, m, op, rules)...)
		}
		cur = nxt
	}
	return cur
}

type matchCase struct {
	expr string
	alts int // number of alternatives of the expression
}

var matchCases = []matchCase{
	{`r.x == p.a`, 1},
	{`r.x == p.a && r.y == p.b`, 1},
	{`r.x == p.a || r.y == p.b`, 2},
	{`r.x == p.a && (r.y == p.b || f(p.c))`, 2},
	{`(r.x == p.a || h(r.x, p.b)) && r.y == p.c`, 2},
	{`r.x == p.a && r.y == p.b || r.x == p.c || f(p.a)`, 3},
	{`r.x == "root" || r.x == p.a`, 2},
	{`f(r.x) && r.y == p.b`, 1},
	{`r.y == p.b && f(r.x)`, 1},
	{`p.a == p.b && r.x == p.c`, 1},
	{`r.x == p.a && f(p.b) && h(p.a, p.c)`, 1},
	{`h(r.x, p.a, p.b) && r.y == p.c`, 1},
}

func (c *C) fnSet(faulty bool) map[string]Val {
	return map[string]Val{"f": boolFn("f", faulty), "h": boolFn("h", faulty)}
}

func (c *C) rDef(st *State, model Val) Val {
	o := c.one(c.call(st, c.m("model", "Model", "GetRequestDef"), model, str("r")), "GetRequestDef")
	return o.rets[0]
}

func (c *C) reqVals() []Val { return []Val{in("rx"), in("ry")} }

// checkMatches compares the reported rules with the specification.
func (c *C) checkMatches(rule, cons string, o Outcome, reported []Val, expr matchCase, m *mm, h ruleHist, req []Val) {
	var rq []Val
	for _, r := range req {
		if _, ok := r.(*Iface); !ok && !isNilConst(r) {
			r = &Iface{tString, r}
		}
		rq = append(rq, r)
	}
	for _, s := range c.specAll(o.st, expr.expr, m, h.vals, rq) {
		for i, v := range h.vals {
			want := s.mask[i]
			content := s.st.snap(c.strs(s.st, append([]Val{str(m.key)}, v...)...))
			n, unknown := 0, false
			for _, r := range reported {
				switch c.same(s.st, r, content) {
				case tYes:
					n++
				case tUnknown, tMaybe:
					unknown = true
				}
			}
			r := triOf((n > 0) == want)
			if want && expr.alts == 1 && n > 1 {
				r = tNo
			}
			if n == 0 && unknown {
				r = tUnknown
			}
			c.ob(rule, cons, r, s.st, token.NoPos, "matcher %q: rule %s %s but it is reported %d times (history: %s)", expr.expr, s.st.show(content), map[bool]string{true: "matches the request", false: "does not match the request"}[want], n, h.desc)
		}
		for _, r := range reported {
			res := tNo
			for _, v := range h.vals {
				switch c.same(s.st, r, c.strs(s.st, append([]Val{str(m.key)}, v...)...)) {
				case tYes:
					res = tYes
				case tUnknown, tMaybe:
					if res != tYes {
						res = tUnknown
					}
				}
			}
			c.ob(rule, cons, res, s.st, token.NoPos, "matcher %q: %s is reported, it is not a rule of the policy (history: %s)", expr.expr, s.st.show(r), h.desc)
		}
	}
}

func callbackArgs(st *State, mark *Event) []Val {
	var r []Val
	for _, e := range eventsOf(st, mark, "callback") {
		r = append(r, e.args[0])
	}
	return r
}

func init() {
	register(&Check{
		id:        "C03",
		technique: "abstract interpretation of matcher evaluation (rules, requests and matcher functions are uninterpreted; the expression semantics is an abstract model of govaluate)",
		rules: map[string]string{
			"exact":  "RangeMatches, Filter and their *WithContext variants report a rule of the policy exactly if the matcher expression is true for it, whatever the rules, request values and function results are",
			"column": "policy and request arguments are read from the column named in the definition, with any number of columns, any policy key and a value equal to the policy key",
		},
		run: func(c *C) {
			req := c.reqVals()
			rules := [][]Val{inVals("x", 3), inVals("y", 3)}
			for _, mc := range matchCases {
				m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
				st, enf := c.enforcer(m.st, m.model)
				m.enf = enf
				st, mt := c.matcherFor(st, m.model, mc.expr)
				hs := c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, rules)
				for _, h := range hs {
					c.queryAPIs("exact", h, m, mt, mc, req, false)
				}
			}
			c.runColumns()
			c.runShapes()
			for _, mc := range evalCases[:6] {
				for _, p := range [][2]int{{0, 0}, {2, 1}} {
					c.storedPair("exact", "exact", mc, p, true, false)
				}
			}
		},
	})
	register(&Check{
		id:        "C04",
		technique: "abstract interpretation of rule histories against a built matcher (exploded graph over SSA, path-sensitive equality facts)",
		rules: map[string]string{
			"mirror":  "after any history of adding, removing and clearing rules a matcher built before or during the history reports exactly the matching rules of the current policy",
			"roles":   "the same for matchers over role rules",
			"rebuild": "a matcher built after the history reports the same rules as one built before it",
		},
		run: runC04,
	})
}

// queryAPIs queries the matches through all APIs.
func (c *C) queryAPIs(rule string, h ruleHist, m *mm, mt Val, mc matchCase, req []Val, modelOnly bool) {
	c.scenario("%smatch %q", h.desc, mc.expr)
	mark := h.st.trace
	st := h.st.clone()
	for _, o := range c.call(st, c.m("model", "Model", "RangeMatches"), m.model, mt, c.rDef(st, m.model), c.anys(st, req...), collector(boolean(true))) {
		if c.noPanic(rule, "Model.RangeMatches", o) && c.ob(rule, "Model.RangeMatches", negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "unexpected error %s", o.st.show(o.rets[0])) {
			c.checkMatches(rule, "Model.RangeMatches", o, callbackArgs(o.st, mark), mc, m, h, req)
		}
	}
	if modelOnly {
		return
	}
	st = h.st.clone()
	opt := c.one(c.call(st, c.fn("", "SetMatcher"), &Iface{tString, str(mc.expr)}), "SetMatcher")
	st = opt.st
	co := c.typ("", "ContextOption")
	params := append([]Val{&Iface{co, opt.rets[0]}}, req...)
	for _, o := range c.call(st, c.m("", "Enforcer", "Filter"), m.enf, c.anys(st, params...)) {
		if c.noPanic(rule, "Enforcer.Filter", o) && c.ob(rule, "Enforcer.Filter", negate(c.isErr(o.st, o.rets[1])), o.st, token.NoPos, "unexpected error %s", o.st.show(o.rets[1])) {
			c.checkMatches(rule, "Enforcer.Filter", o, c.listOf(o.st, o.rets[0]), mc, m, h, req)
		}
	}
	for _, o := range c.call(st, c.m("", "Enforcer", "RangeMatches"), m.enf, c.anys(st, params...), collector(boolean(true))) {
		if c.noPanic(rule, "Enforcer.RangeMatches", o) && c.ob(rule, "Enforcer.RangeMatches", negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "unexpected error %s", o.st.show(o.rets[0])) {
			c.checkMatches(rule, "Enforcer.RangeMatches", o, callbackArgs(o.st, mark), mc, m, h, req)
		}
	}
}

// listOf returns the content of a slice of slices.
func (c *C) listOf(st *State, v Val) []Val {
	var r []Val
	for _, e := range elemsOf(st, st.norm(v)) {
		r = append(r, st.snap(e))
	}
	return r
}

func runC04(c *C) {
	c.runRoleRules()
	c.runDecisions()
	for _, mc := range evalCases[:6] {
		for _, p := range [][2]int{{0, 0}, {2, 1}} {
			c.storedPair("mirror", "mirror", mc, p, true, true)
		}
	}
	req := c.reqVals()
	rules := [][]Val{inVals("x", 3), inVals("y", 3)}
	hists := [][]string{
		{"add 0", "add 1", "remove 0"},
		{"add 0", "add 1", "remove 1"},
		{"add 0", "add 1", "remove 0", "add 0"},
		{"add 0", "add 1", "clear", "add 1"},
		{"add 0", "remove 0", "add 1"},
		{"add 0", "add 0", "remove 1", "add 1"},
	}
	cases := []matchCase{matchCases[0], matchCases[1], matchCases[3], matchCases[4], matchCases[7], matchCases[8], matchCases[10], matchCases[11], {`r.x == p.a || r.y == p.b || f(p.c)`, 3}}
	if c.thorough {
		cases = append(append([]matchCase{}, matchCases...), cases[len(cases)-1])
		hists = append(hists, []string{"add 0", "add 1", "remove 0", "remove 1", "add 0"}, []string{"add 0", "add 1", "remove 1", "clear", "add 0", "add 1"})
	}
	for _, mc := range cases {
		for _, ops := range hists {
			for split := 0; split <= len(ops); split++ {
				m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
				pre := c.applyAll(ruleHist{st: m.st}, m, ops[:split], rules)
				for _, h := range pre {
					h.desc += "build matcher; "
					rule := "mirror"
					if split == len(ops) {
						rule = "rebuild"
					}
					for _, o := range c.matchersFor(h.st, m.model, mc.expr) {
						h.st = o.st
						for _, h2 := range c.applyAll(h, m, ops[split:], rules) {
							if len(h2.vals) == 0 {
								continue // the result for an empty policy is not specified
							}
							c.queryAPIs(rule, h2, m, o.rets[0], mc, req, true)
						}
					}
				}
			}
		}
	}
}

// runDecisions: decisions between the changes and after them
func (c *C) runDecisions() {
	req := c.reqVals()
	rules := [][]Val{inVals("x", 3), inVals("y", 3)}
	cases := []matchCase{matchCases[1], matchCases[3]}
	ops := []string{"add 0", "add 1", "remove 0", "clear"}
	depth := 2
	if c.thorough {
		cases = []matchCase{matchCases[0], matchCases[1], matchCases[3], matchCases[4], matchCases[5], matchCases[7], matchCases[11]}
	}
	for i, mc := range cases {
		m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
		st := c.one(c.call(m.st, c.m("model", "Model", "SetDef"), m.model, byteVal('m'), str("m"), str(mc.expr)), "SetDef").st
		for _, o := range c.call(st, c.m("model", "Model", "BuildMatchers"), m.model) {
			st, enf := c.enforcer(o.st, m.model)
			m.enf = enf
			m.warm = func(st *State) []*State {
				var r []*State
				st = st.clone()
				for _, o := range c.call(st, c.enf("Enforce"), enf, c.anys(st, req...)) {
					if o.kind != oRet {
						continue
					}
					for _, o := range c.call(o.st, c.enf("Filter"), enf, c.anys(o.st, req...)) {
						if o.kind == oRet {
							r = append(r, o.st)
						}
					}
				}
				return r
			}
			cur := c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, rules)
			d := depth
			if c.thorough && i < 2 {
				d = 3
			}
			for ; d > 0; d-- {
				var nxt []ruleHist
				for _, h := range cur {
					for _, op := range ops {
						nxt = append(nxt, c.apply(h, m, op, rules)...)
					}
				}
				cur = nxt
				for _, h := range cur {
					if len(h.vals) > 0 {
						c.judgeDecision("mirror", h, m, mc, req)
					}
				}
			}
		}
	}
}

// judgeDecision compares Enforce and Filter with the rules of the policy.
func (c *C) judgeDecision(rule string, h ruleHist, m *mm, mc matchCase, req []Val) {
	var rq []Val
	for _, r := range req {
		if _, ok := r.(*Iface); !ok && !isNilConst(r) {
			r = &Iface{tString, r}
		}
		rq = append(rq, r)
	}
	for i, api := range c.deciders(m.enf, m.model, noOptions, req) {
		if i != 0 && i != 2 {
			continue
		}
		c.scenario("%s%s with %q", h.desc, api.name, mc.expr)
		for _, d := range api.run(h.st) {
			if !c.noPanic(rule, api.name, d.o) || !c.ob(rule, api.name, negate(c.isErr(d.o.st, d.err)), d.o.st, token.NoPos, "unexpected error %s", d.o.st.show(d.err)) {
				continue
			}
			if d.allowed == nil {
				c.checkMatches(rule, api.name, d.o, d.rules, mc, m, h, req)
				continue
			}
			for _, sp := range c.specAll(d.o.st, mc.expr, m, h.vals, rq) {
				any := false
				for _, b := range sp.mask {
					any = any || b
				}
				t := c.truth(sp.st, d.allowed)
				if !any {
					t = negate(t)
				}
				c.ob(rule, api.name, t, sp.st, token.NoPos, "%s returns %s, a matching rule exists: %v (history: %s)", api.name, sp.st.show(d.allowed), any, h.desc)
			}
		}
	}
}

// runShapes: requests of one, three and four values, three rules
func (c *C) runShapes() {
	for _, t := range []struct {
		args, rargs []string
		n           int
		mc          matchCase
	}{
		{[]string{"a", "b"}, []string{"x"}, 2, matchCase{`r.x != p.a && r.x == p.b`, 1}},
		{[]string{"a", "b"}, []string{"x"}, 2, matchCase{`f(r.x) && r.x == p.a || r.x == p.b`, 2}},
		{[]string{"a"}, []string{"x"}, 2, matchCase{`r.x == p.a`, 1}},
		{[]string{"a"}, []string{"x", "y", "z"}, 2, matchCase{`r.x == p.a || r.y == p.a || r.z == p.a`, 3}},
		{[]string{"a", "b", "c", "d"}, []string{"x", "y", "z", "w"}, 2, matchCase{`r.x == p.a && r.y == p.b && r.z == p.c && r.w == p.d`, 1}},
		{[]string{"a", "b"}, []string{"x", "y", "z"}, 2, matchCase{`r.z == p.b && (r.x == p.a || r.y == p.a)`, 2}},
		{[]string{"a", "b"}, []string{"x", "y"}, 3, matchCase{`r.x == p.a && r.y == p.b`, 1}},
		{[]string{"a", "b"}, []string{"x", "y"}, 3, matchCase{`f(p.a) && r.y == p.b`, 1}},
		{[]string{"a"}, []string{"x"}, 3, matchCase{`f(p.a) && r.x != p.a`, 1}},
	} {
		m := c.newMM(t.args, t.rargs, "some(where (p.eft == allow))", c.fnSet(false))
		st, enf := c.enforcer(m.st, m.model)
		m.enf = enf
		st, mt := c.matcherFor(st, m.model, t.mc.expr)
		var rules [][]Val
		var ops []string
		var req []Val
		for i := 0; i < t.n; i++ {
			rules = append(rules, inVals(string(rune('x'+i)), len(t.args)))
			ops = append(ops, "add "+string(rune('0'+i)))
		}
		for _, a := range t.rargs {
			req = append(req, in("r"+a))
		}
		for _, h := range c.applyAll(ruleHist{st: st}, m, ops, rules) {
			c.queryAPIs("exact", h, m, mt, t.mc, req, t.n > 2 || len(req) > 3)
		}
	}
}

// runRoleRules: matchers over role rules, built before, between or after the changes
func (c *C) runRoleRules() {
	for _, t := range []struct {
		n  int
		mc matchCase
	}{
		{2, matchCase{`r.x == g.role && r.y == g.user`, 1}},
		{2, matchCase{`r.x == g.user || r.y == g.role`, 2}},
		{3, matchCase{`r.x == g.user && r.y == g.domain`, 1}},
		{3, matchCase{`r.x == g.domain && (r.y == g.role || r.y == g.user)`, 2}},
	} {
		for _, ops := range [][]string{{"add 0", "add 1"}, {"add 0", "add 1", "remove 0"}, {"add 0", "add 1", "remove 1", "add 1"}, {"add 0", "clear", "add 1"}} {
			for split := 0; split <= len(ops); split++ {
				st, model := c.newModel(c.start(), [3]string{"r", "r", "x, y"}, [3]string{"g", "g", strings.Repeat(",_", t.n)[1:]})
				m := &mm{st: st, model: model, args: []string{"user", "role", "domain"}[:t.n], rargs: []string{"x", "y"}, key: "g"}
				spec := matchCase{strings.ReplaceAll(t.mc.expr, "g.", "p."), t.mc.alts}
				rules := [][]Val{inVals("x", t.n), inVals("y", t.n)}
				for _, h := range c.applyAll(ruleHist{st: st}, m, ops[:split], rules) {
					h.desc += "build matcher; "
					for _, o := range c.matchersFor(h.st, model, t.mc.expr) {
						h.st = o.st
						for _, h2 := range c.applyAll(h, m, ops[split:], rules) {
							if len(h2.vals) > 0 {
								c.queryAPIs("roles", h2, m, o.rets[0], spec, c.reqVals(), true)
							}
						}
					}
				}
			}
		}
	}
}

// runColumns: definitions with different keys and columns
func (c *C) runColumns() {
	type def struct {
		sec, key, args, expr, req string
		n                         int
	}
	for _, d := range []def{
		{"p", "p", "a, b", "r.x == p.b", "x, y", 2},
		{"p", "p2", "a, b, c, d", "r.y == p2.d && r.x == p2.a", "x, y", 4},
		{"p", "p", "a,b,eft", "r2.y == p.a", "x, y", 3},
		{"g", "g", "_,_", "r.x == g.role && r.y == g.user", "x, y", 2},
		{"g", "g3", "_,_,_", "r.x == g3.domain && r.y == g3.role", "x, y", 3},
	} {
		rk := "r"
		if strings.HasPrefix(d.expr, "r2") {
			rk = "r2"
		}
		st, model := c.newModel(c.start(), [3]string{"r", rk, d.req}, [3]string{d.sec, d.key, d.args})
		names := strings.Split(strings.ReplaceAll(d.args, " ", ""), ",")
		if d.sec == "g" {
			names = []string{"user", "role", "domain"}
		}
		m := &mm{st: st, model: model, args: names, rargs: []string{"x", "y"}, key: d.key}
		spec := strings.ReplaceAll(strings.ReplaceAll(d.expr, d.key+".", "p."), rk+".", "r.")
		st, mt := c.matcherFor(st, model, d.expr)
		for _, vals := range [][]Val{inVals("x", d.n), append([]Val{str(d.key)}, inVals("x", d.n-1)...)} {
			for i, req := range [][]Val{c.reqVals(), {str(rk), in("ry")}, c.reqVals(), c.reqVals(), c.reqVals()} {
				passed := req
				st := st.clone()
				switch i {
				case 2: // with the key of its definition
					passed = []Val{str(rk), req[0], req[1]}
				case 3, 4: // with additional values
					passed = []Val{req[0], req[1], in("rz")}
					if i == 4 {
						passed = append(passed, num(1))
					}
					st.assume(T("eq", tBool, req[0], str(rk)), false)
				}
				hs := c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, [][]Val{vals})
				for _, h := range hs {
					c.scenario("%s %s = %s: %smatch %q", d.sec, d.key, d.args, h.desc, d.expr)
					mark := h.st.trace
					s := h.st.clone()
					o := c.one(c.call(s, c.m("model", "Model", "GetRequestDef"), model, str(rk)), "GetRequestDef")
					for _, o := range c.call(o.st, c.m("model", "Model", "RangeMatches"), model, mt, o.rets[0], c.anys(o.st, passed...), collector(boolean(true))) {
						if c.noPanic("column", "definition "+d.key, o) && c.ob("column", "definition "+d.key, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "unexpected error %s", o.st.show(o.rets[0])) {
							c.checkMatches("column", "definition "+d.key, o, callbackArgs(o.st, mark), matchCase{spec, 1}, m, h, req)
						}
					}
				}
			}
		}
	}
}
