package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: options of a query replace exactly their own part of the defaults.

type optChoice struct {
	name string
	mk   func(st *State) (*State, Val) // nil: no option
	expr string                        // matcher: the expression in terms of r and p
	key  string                        // matcher: policy
	rkey string                        // matcher and request definition: key of the request
	cols []int                         // request definition: columns of x and y
	ref  func(allow, deny bool) bool   // effector
}

type ctxSys struct {
	st         *State
	model, enf Val
	rules      map[string][][]Val // key -> a, b, eft
}

var ctxDefs = [][3]string{{"r", "r", "x, y"}, {"r", "r2", "y, x"}, {"p", "p", "a, b, eft"}, {"p", "p2", "a, b, eft"}, {"e", "e", "some(where (p.eft == allow))"}, {"e", "e2", "!some(where (p.eft == deny))"},
	{"m", "m", "r.x == p.a && r.y == p.b"}, {"m", "m2", "r.x == p.b"}, {"m", "m3", "r2.x == p2.a && r2.y == p2.b"}}

func (c *C) ctxSys(rules map[string][][]Val) *ctxSys {
	st, m := c.newModel(c.start(), ctxDefs...)
	o := c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers")
	st, enf := c.enforcer(o.st, m)
	s := &ctxSys{st: st, model: m, enf: enf, rules: rules}
	s.st = c.addTo(s, s.st)
	return s
}

// addTo adds the rules.
func (c *C) addTo(s *ctxSys, st *State) *State {
	for _, k := range []string{"p", "p2"} {
		for _, r := range s.rules[k] {
			var added []Outcome
			for _, o := range c.call(st, c.enf("AddRule"), s.enf, c.strs(st, append([]Val{str(k)}, r...)...)) {
				if o.kind == oRet && c.truth(o.st, o.rets[0]) == tYes {
					added = append(added, o)
				}
			}
			st = c.one(added, "AddRule").st
		}
	}
	return st
}

func (c *C) choices(s *ctxSys) (ms, rs, es []optChoice) {
	opt := func(fn string, mk func(st *State) (*State, Val)) func(st *State) (*State, Val) {
		return func(st *State) (*State, Val) {
			st, v := mk(st)
			return c.ctxOption(st, fn, v)
		}
	}
	text := func(t string) func(st *State) (*State, Val) {
		return func(st *State) (*State, Val) { return st, &Iface{tString, str(t)} }
	}
	def := func(typ, fn, key, t string) func(st *State) (*State, Val) {
		return func(st *State) (*State, Val) {
			o := c.one(c.call(st, c.fn("model/defs", fn), str(key), str(t)), fn)
			return o.st, &Iface{c.ptr("model/defs", typ), o.rets[0]}
		}
	}
	got := func(fn, key string) func(st *State) (*State, Val) {
		return func(st *State) (*State, Val) {
			o := c.one(c.call(st, c.m("model", "Model", fn), s.model, str(key)), fn)
			v := o.st.norm(o.rets[0])
			if _, ok := v.(*Iface); !ok {
				v = &Iface{c.ptr("model/defs", "RequestDef"), v}
			}
			return o.st, v
		}
	}
	allow, deny := c.effectVal("Allow").(*Const).c, c.effectVal("Deny").(*Const).c
	et := c.typ("model/types", "Effect")
	_ = deny
	custom := c.fake("allowing", func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		return ret(st, &Const{allow, et}, c.nilStrs(), nilErr)
	}, c.typ("model/effector", "IEffector"))
	const std, swapped = "r.x == p.a && r.y == p.b", "r.x == p.b && r.y == p.a"
	ms = []optChoice{
		{name: "no matcher", expr: std, key: "p", rkey: "r"},
		{name: `SetMatcher("m2")`, mk: opt("SetMatcher", text("m2")), expr: "r.x == p.b", key: "p", rkey: "r"},
		{name: `SetMatcher("m3")`, mk: opt("SetMatcher", text("m3")), expr: std, key: "p2", rkey: "r2"},
		{name: `SetMatcher(expression)`, mk: opt("SetMatcher", text(swapped)), expr: swapped, key: "p", rkey: "r"},
		{name: `SetMatcher(expression of p2)`, mk: opt("SetMatcher", text("r.x == p2.b")), expr: "r.x == p.b", key: "p2", rkey: "r"},
		{name: `SetMatcher(definition)`, mk: opt("SetMatcher", def("MatcherDef", "NewMatcherDef", "m", swapped)), expr: swapped, key: "p", rkey: "r"},
		{name: `SetMatcher(matcher)`, mk: opt("SetMatcher", got("GetMatcher", "m3")), expr: std, key: "p2", rkey: "r2"},
		{name: `SetMatcher("")`, mk: opt("SetMatcher", text("")), expr: std, key: "p", rkey: "r"},
		{name: `SetMatcher("m")`, mk: opt("SetMatcher", text("m")), expr: std, key: "p", rkey: "r"},
	}
	rs = []optChoice{
		{name: "no request definition", rkey: "r", cols: []int{0, 1}},
		{name: `SetRequestDef("r2")`, mk: opt("SetRequestDef", text("r2")), rkey: "r2", cols: []int{1, 0}},
		{name: `SetRequestDef(definition)`, mk: opt("SetRequestDef", def("RequestDef", "NewRequestDef", "r", "y, x")), rkey: "r", cols: []int{1, 0}},
		{name: `SetRequestDef(definition r2)`, mk: opt("SetRequestDef", got("GetRequestDef", "r2")), rkey: "r2", cols: []int{1, 0}},
		{name: `SetRequestDef("")`, mk: opt("SetRequestDef", text("")), rkey: "r", cols: []int{0, 1}},
		{name: `SetRequestDef("r")`, mk: opt("SetRequestDef", text("r")), rkey: "r", cols: []int{0, 1}},
	}
	someAllow := func(a, d bool) bool { return a }
	noDeny := func(a, d bool) bool { return !d }
	es = []optChoice{
		{name: "no effector", ref: someAllow},
		{name: `SetEffector("e2")`, mk: opt("SetEffector", text("e2")), ref: noDeny},
		{name: `SetEffector(expression)`, mk: opt("SetEffector", text("some(where (p.eft == allow)) && !some(where (p.eft == deny))")), ref: func(a, d bool) bool { return a && !d }},
		{name: `SetEffector(definition)`, mk: opt("SetEffector", def("EffectDef", "NewEffectDef", "e", "!some(where (p.eft == deny))")), ref: noDeny},
		{name: `SetEffector(effector)`, mk: opt("SetEffector", func(st *State) (*State, Val) { return st, custom }), ref: func(a, d bool) bool { return true }},
		{name: `SetEffector("")`, mk: opt("SetEffector", text("")), ref: someAllow},
		{name: `SetEffector("e")`, mk: opt("SetEffector", text("e")), ref: someAllow},
	}
	return
}

// judgeCtx compares a decision or a list of matches with the parts that were chosen.
func (c *C) judgeCtx(rule string, s *ctxSys, d decision, api string, m, r, e optChoice, req []Val) {
	if !c.noPanic(rule, api, d.o) {
		return
	}
	what := fmt.Sprintf("%s with %s, %s, %s", api, m.name, r.name, e.name)
	rules := s.rules[m.key]
	if m.rkey != r.rkey {
		if len(rules) > 0 {
			c.ob(rule, api, c.isErr(d.o.st, d.err), d.o.st, token.NoPos, "%s: the matcher uses %s, the request is a %s, no error is returned", what, m.rkey, r.rkey)
			if d.allowed != nil {
				c.ob(rule, api, negate(c.truth(d.o.st, d.allowed)), d.o.st, token.NoPos, "%s: allowed although the request cannot be evaluated", what)
			}
		}
		return
	}
	if !c.ob(rule, api, negate(c.isErr(d.o.st, d.err)), d.o.st, token.NoPos, "%s fails: %s", what, d.o.st.show(d.err)) {
		return
	}
	mt := &mm{model: s.model, args: []string{"a", "b", "eft"}, rargs: []string{"x", "y"}, key: m.key}
	rq := []Val{&Iface{tString, req[r.cols[0]]}, &Iface{tString, req[r.cols[1]]}}
	if d.allowed == nil {
		h := ruleHist{st: d.o.st, vals: rules}
		c.checkMatches(rule, api, d.o, d.rules, matchCase{m.expr, 1}, mt, h, []Val{req[r.cols[0]], req[r.cols[1]]})
		return
	}
	for _, sp := range c.specAll(d.o.st, m.expr, mt, rules, rq) {
		allow, deny := false, false
		for i, b := range sp.mask {
			if b {
				if t, _ := constStr(rules[i][2]); t == "deny" {
					deny = true
				} else {
					allow = true
				}
			}
		}
		want := e.ref(allow, deny)
		if strings.Contains(e.name, "(effector)") && !allow && !deny {
			continue // when an effector is called without matches is another property
		}
		t := c.truth(sp.st, d.allowed)
		if !want {
			t = negate(t)
		}
		c.ob(rule, api, t, sp.st, token.NoPos, "%s returns %s, expected is %v (matching rules: allow %v, deny %v)", what, sp.st.show(d.allowed), want, allow, deny)
	}
}

// ctxRules returns the rules of the policies; those of "v" and "w" have opposite effects.
func ctxRules(tag string) map[string][][]Val {
	e := [2]string{"allow", "deny"}
	if tag == "w" {
		e = [2]string{"deny", "allow"}
	}
	return map[string][][]Val{
		"p":  {strVals([]string{"c0", "c1", e[0]}), strVals([]string{"c2", "c1", e[1]}), strVals([]string{"c1", "c0", e[1]})},
		"p2": {strVals([]string{"c0", "c1", e[1]}), strVals([]string{"c1", "c2", e[0]})},
	}
}

func mkOpts(os ...optChoice) func(st *State) (*State, []Val) {
	return func(st *State) (*State, []Val) {
		var vs []Val
		for _, o := range os {
			if o.mk != nil {
				var v Val
				st, v = o.mk(st)
				vs = append(vs, v)
			}
		}
		return st, vs
	}
}

func (c *C) ctxAll() {
	s := c.ctxSys(ctxRules("v"))
	ms, rs, es := c.choices(s)
	req := []Val{in("q0"), in("q1")}
	for i, m := range ms {
		for j, r := range rs {
			for k, e := range es {
				if !c.thorough {
					// pairs
					if i > 5 && j > 1 || j > 3 && k > 1 || k > 4 && i > 2 || (i+j+k)%2 == 1 && i > 3 && k > 0 {
						continue
					}
				}
				perms := [][]optChoice{{m, r, e}}
				if m.mk != nil && r.mk != nil || m.mk != nil && e.mk != nil || r.mk != nil && e.mk != nil {
					perms = append(perms, []optChoice{e, r, m})
				}
				for _, p := range perms {
					for _, api := range c.deciders(s.enf, s.model, mkOpts(p...), req) {
						c.scenario("%s with %s, %s, %s", api.name, p[0].name, p[1].name, p[2].name)
						for _, d := range api.run(s.st) {
							c.judgeCtx("parts", s, d, api.name, m, r, e, req)
						}
					}
				}
				// a query with options leaves the defaults as they are
				if (m.mk != nil || r.mk != nil || e.mk != nil) && (i+j+k)%3 == 0 {
					first, second := c.deciders(s.enf, s.model, mkOpts(m, r, e), req), c.deciders(s.enf, s.model, noOptions, req)
					for _, f := range []int{0, 5} {
						for _, d := range first[f].run(s.st) {
							if d.o.kind != oRet {
								continue
							}
							c.namesLeft(s, d.o.st, first[f].name)
							for _, g := range []int{0, 4} {
								c.scenario("%s with %s, %s, %s; %s without options", first[f].name, m.name, r.name, e.name, second[g].name)
								for _, d2 := range second[g].run(d.o.st) {
									c.judgeCtx("parts", s, d2, second[g].name, ms[0], rs[0], es[0], req)
								}
							}
						}
					}
				}
				// options between and after the request values
				if m.mk != nil && e.mk != nil && (i+j+k)%3 == 0 {
					for _, pos := range []string{"between", "after"} {
						c.scenario("Enforcer.Enforce with %s, %s, %s %s the request values", m.name, r.name, e.name, pos)
						st, os := mkOpts(m, r, e)(s.st.clone())
						var ps []Val
						if pos == "after" {
							ps = append(append(ps, req...), os...)
						} else {
							ps = append(append(append(ps, os[0], req[0]), os[1:]...), req[1])
						}
						for _, o := range c.call(st, c.enf("Enforce"), s.enf, c.anys(st, ps...)) {
							d := decision{api: "Enforcer.Enforce", o: o}
							if o.kind == oRet {
								d.allowed, d.err = o.rets[0], o.rets[1]
							}
							c.judgeCtx("parts", s, d, "Enforcer.Enforce", m, r, e, req)
						}
					}
				}
			}
		}
	}
	// the last option of a kind counts
	for _, x := range [][3]int{{1, 0, 1}, {3, 2, 3}, {5, 0, 2}, {6, 1, 0}} {
		m, r, e := ms[x[0]], rs[x[1]], es[x[2]]
		for _, f := range [][3]int{{3, 2, 3}, {2, 1, 1}, {4, 2, 4}} {
			os := []optChoice{ms[f[0]], rs[f[1]], es[f[2]], m, r, e}
			me, re, ee := m, r, e
			if re.mk == nil {
				re = rs[f[1]]
			}
			if ee.mk == nil {
				ee = es[f[2]]
			}
			for _, api := range c.deciders(s.enf, s.model, mkOpts(os...), req) {
				c.scenario("%s with %s, %s, %s, %s, %s, %s", api.name, os[0].name, os[1].name, os[2].name, os[3].name, os[4].name, os[5].name)
				for _, d := range api.run(s.st) {
					c.judgeCtx("parts", s, d, api.name, me, re, ee, req)
				}
			}
		}
	}
}

// ctxTwice: an option that is given twice counts as if it was given once.
func (c *C) ctxTwice() {
	s := c.ctxSys(ctxRules("v"))
	ms, rs, es := c.choices(s)
	req := []Val{in("q0"), in("q1")}
	judge := func(m, r, e optChoice, os ...optChoice) {
		for _, api := range c.deciders(s.enf, s.model, mkOpts(os...), req) {
			c.scenario("%s with %s, %s", api.name, os[0].name, os[1].name)
			for _, d := range api.run(s.st) {
				c.judgeCtx("parts", s, d, api.name, m, r, e, req)
			}
		}
	}
	for _, m := range ms {
		if m.mk != nil {
			judge(m, rs[0], es[0], m, m)
			judge(m, rs[1], es[1], m, rs[1], m, es[1], es[1], rs[1])
		}
	}
	for _, r := range rs {
		if r.mk != nil {
			judge(ms[0], r, es[0], r, r)
		}
	}
	for _, e := range es {
		if e.mk != nil {
			judge(ms[0], rs[0], e, e, e)
		}
	}
}

// ctxReuse: contexts and options are used more than once.
func (c *C) ctxReuse() {
	req := []Val{in("q0"), in("q1")}
	empty := &ctxSys{}
	for _, pick := range [][3]int{{0, 0, 0}, {1, 0, 1}, {2, 1, 0}, {3, 2, 2}, {4, 0, 4}, {5, 0, 3}, {6, 3, 1}} {
		// a context created before the rules are added
		s := c.ctxSys(nil)
		*empty = *s
		s.rules = ctxRules("v")
		ms, rs, es := c.choices(s)
		m, r, e := ms[pick[0]], rs[pick[1]], es[pick[2]]
		st, os := mkOpts(m, r, e)(s.st)
		var fs []Val
		for _, o := range os {
			fs = append(fs, o.(*Iface).val)
		}
		c.scenario("NewContext with %s, %s, %s, rules added, queries", m.name, r.name, e.name)
		o := c.one(c.call(st, c.fn("", "NewContext"), &Iface{c.ptr("model", "Model"), s.model}, st.newSlice(types.NewSlice(c.typ("", "ContextOption")), fs)), "NewContext")
		ctx := o.rets[0]
		cur := []*State{c.addTo(s, o.st)}
		for round := 0; round < 2; round++ {
			var nxt []*State
			for _, st := range cur {
				mark := st.trace
				s1, s2 := st.clone(), st.clone()
				for _, o := range c.call(s1, c.enf("RangeMatchesWithContext"), s.enf, ctx, c.anys(s1, req...), collector(boolean(true))) {
					d := decision{api: "Enforcer.RangeMatchesWithContext", o: o}
					if o.kind == oRet {
						d.err = o.rets[0]
						d.rules = callbackArgs(o.st, mark)
					}
					c.judgeCtx("reuse", s, d, d.api, m, r, e, req)
				}
				for _, o := range c.call(s2, c.enf("EnforceWithContext"), s.enf, ctx, c.anys(s2, req...)) {
					d := decision{api: "Enforcer.EnforceWithContext", o: o}
					if o.kind == oRet {
						d.allowed, d.err = o.rets[0], o.rets[1]
						nxt = append(nxt, o.st)
					}
					c.judgeCtx("reuse", s, d, d.api, m, r, e, req)
				}
			}
			cur = nxt
			req = []Val{in("q2"), in("q3")}
		}
		req = []Val{in("q0"), in("q1")}
		// options used with two enforcers, one after the other
		if strings.Contains(m.name, "(matcher)") || strings.Contains(r.name, "definition r2") {
			continue
		}
		a := c.ctxSys(ctxRules("v"))
		b := &ctxSys{rules: ctxRules("w")}
		st, bm := c.newModel(a.st, ctxDefs...)
		o = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), bm), "BuildMatchers")
		b.model = bm
		b.st, b.enf = c.enforcer(o.st, bm)
		st = c.addTo(b, b.st)
		st, os = mkOpts(m, r, e)(st)
		same := func(st *State) (*State, []Val) { return st, os }
		for _, order := range [][2]*ctxSys{{a, b}, {b, a}} {
			first := c.deciders(order[0].enf, order[0].model, same, req)[0]
			second := c.deciders(order[1].enf, order[1].model, same, req)
			c.scenario("the options %s, %s, %s are used with two enforcers", m.name, r.name, e.name)
			for _, d := range first.run(st) {
				c.judgeCtx("reuse", order[0], d, first.name, m, r, e, req)
				if d.o.kind != oRet {
					continue
				}
				for _, i := range []int{0, 1, 4} {
					for _, d2 := range second[i].run(d.o.st) {
						c.judgeCtx("reuse", order[1], d2, second[i].name, m, r, e, req)
					}
				}
			}
		}
	}
}

// ctxErrors: an option that cannot be applied is an error, whatever other options there are.
func (c *C) ctxErrors() {
	s := c.ctxSys(ctxRules("v"))
	ms, rs, es := c.choices(s)
	req := []Val{in("q0"), in("q1")}
	bad := func(fn, t string) optChoice {
		return optChoice{name: fn + "(" + t + ")", mk: func(st *State) (*State, Val) { return c.ctxOption(st, fn, &Iface{tString, str(t)}) }}
	}
	own := optChoice{name: "an option that fails", mk: func(st *State) (*State, Val) {
		return st, &Iface{c.typ("", "ContextOption"), &Native{name: "failing option", fn: func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			return ret(st, newError(str("option")))
		}}}
	}}
	faults := []optChoice{bad("SetRequestDef", "r9"), bad("SetMatcher", "r.x =="), bad("SetMatcher", "r.x == p9.a"), own}
	faults = append(faults, optChoice{name: "SetMatcher(definition)", mk: func(st *State) (*State, Val) {
		o := c.one(c.call(st, c.fn("model/defs", "NewMatcherDef"), str("m"), str("r.x == nofn(p.a")), "NewMatcherDef")
		return c.ctxOption(o.st, "SetMatcher", &Iface{c.ptr("model/defs", "MatcherDef"), o.rets[0]})
	}})
	for _, f := range faults {
		for _, m := range []int{1, 3, 6} {
			a, r, e := ms[m], rs[1], es[1]
			for _, os := range [][]optChoice{{f, a}, {a, f}, {r, f}, {f, r}, {e, f}, {f, e}, {a, r, f, e}, {a, r, e, f}, {f, a, r, e}, {a, f, a}, {f, f}} {
				var names []string
				for _, o := range os {
					names = append(names, o.name)
				}
				what := strings.Join(names, ", ")
				c.scenario("options %s", what)
				for _, api := range c.deciders(s.enf, s.model, mkOpts(os...), req) {
					if strings.HasSuffix(api.name, "WithContext") {
						continue
					}
					for _, d := range api.run(s.st) {
						c.refused("errors", api.name, d.o, what)
					}
				}
				st, vs := mkOpts(os...)(s.st.clone())
				var fs []Val
				for _, o := range vs {
					fs = append(fs, o.(*Iface).val)
				}
				for _, o := range c.call(st, c.fn("", "NewContext"), &Iface{c.ptr("model", "Model"), s.model}, st.newSlice(types.NewSlice(c.typ("", "ContextOption")), fs)) {
					c.refused("errors", "NewContext", o, what)
				}
			}
		}
	}
}

// namesLeft: texts that were used as options are no names of the model.
func (c *C) namesLeft(s *ctxSys, st *State, api string) {
	for _, q := range [][2]string{{"GetMatcher", "r.x == p.b && r.y == p.a"}, {"GetMatcher", ""}, {"GetEffector", "some(where (p.eft == allow)) && !some(where (p.eft == deny))"}, {"GetEffector", ""}, {"GetRequestDef", ""}} {
		fn, t := q[0], q[1]
		for _, o := range c.call(st.clone(), c.m("model", "Model", fn), s.model, str(t)) {
			if c.noPanic("names", api, o) {
				c.ob("names", api, negate(c.truth(o.st, o.rets[1])), o.st, token.NoPos, "after %s with an expression as option Model.%s(%q) finds a definition nobody set", api, fn, t)
			}
		}
	}
}

// ctxModel: exchanging a default of the model redirects queries without options.
func (c *C) ctxModel() {
	req := []Val{in("q0"), in("q1")}
	s := c.ctxSys(ctxRules("v"))
	ms, rs, es := c.choices(s)
	mm := func(n string) *ssa.Function { return c.m("model", "Model", n) }
	set := func(st *State, fn, key string, v Val) *State {
		return c.one(c.call(st, mm(fn), s.model, str(key), v), fn).st
	}
	get := func(st *State, fn, key string) (*State, Val) {
		o := c.one(c.call(st, mm(fn), s.model, str(key)), fn)
		return o.st, o.rets[0]
	}
	type change struct {
		name    string
		run     func(st *State) *State
		m, r, e int
	}
	def := func(st *State, fn, key, t string) (*State, Val) {
		o := c.one(c.call(st, c.fn("model/defs", fn), str(key), str(t)), fn)
		return o.st, o.rets[0]
	}
	changes := []change{
		{"Model.SetMatcher(m, the matcher m2)", func(st *State) *State {
			st, v := get(st, "GetMatcher", "m2")
			return set(st, "SetMatcher", "m", v)
		}, 1, 0, 0},
		{"Model.SetMatcher(m2, the matcher m3)", func(st *State) *State {
			st, v := get(st, "GetMatcher", "m3")
			return set(st, "SetMatcher", "m2", v)
		}, 0, 0, 0},
		{"Model.SetRequestDef(r, definition)", func(st *State) *State {
			st, v := def(st, "NewRequestDef", "r", "y, x")
			return set(st, "SetRequestDef", "r", v)
		}, 0, 2, 0},
		{"Model.SetRequestDef(r2, definition)", func(st *State) *State {
			st, v := def(st, "NewRequestDef", "r2", "x, y")
			return set(st, "SetRequestDef", "r2", v)
		}, 0, 0, 0},
		{"Model.SetEffector(e, the effector e2)", func(st *State) *State {
			st, v := get(st, "GetEffector", "e2")
			return set(st, "SetEffector", "e", v)
		}, 0, 0, 1},
		{"Model.SetEffector(e2, the effector e)", func(st *State) *State {
			st, v := get(st, "GetEffector", "e")
			return set(st, "SetEffector", "e2", v)
		}, 0, 0, 0},
		{"Model.SetDef(m, other expression) and BuildMatcher(m)", func(st *State) *State {
			st = c.one(c.call(st, mm("SetDef"), s.model, byteVal('m'), str("m"), str(ms[3].expr)), "SetDef").st
			return c.one(c.call(st, mm("BuildMatcher"), s.model, str("m")), "BuildMatcher").st
		}, 3, 0, 0},
		{"Model.SetDef(r, other columns)", func(st *State) *State {
			return c.one(c.call(st, mm("SetDef"), s.model, byteVal('r'), str("r"), str("y, x")), "SetDef").st
		}, 0, 2, 0},
		{"Model.SetDef(e, other expression)", func(st *State) *State {
			return c.one(c.call(st, mm("SetDef"), s.model, byteVal('e'), str("e"), str("!some(where (p.eft == deny))")), "SetDef").st
		}, 0, 0, 1},
		{"Model.SetDef(e2, other expression)", func(st *State) *State {
			return c.one(c.call(st, mm("SetDef"), s.model, byteVal('e'), str("e2"), str("some(where (p.eft == allow))")), "SetDef").st
		}, 0, 0, 0},
	}
	for _, ch := range changes {
		st := ch.run(s.st.clone())
		m, r, e := ms[ch.m], rs[ch.r], es[ch.e]
		for _, api := range c.deciders(s.enf, s.model, noOptions, req) {
			c.scenario("%s; %s", ch.name, api.name)
			for _, d := range api.run(st) {
				c.judgeCtx("defaults", s, d, api.name, m, r, e, req)
			}
		}
	}
}

func init() {
	register(&Check{
		id:        "C30",
		technique: "abstract interpretation of queries over all combinations of options, compared with the parts the options name",
		rules: map[string]string{
			"parts":    "an option replaces the matcher, the request definition or the effector, the others are the defaults r, m and e",
			"reuse":    "contexts and options can be used for several queries and enforcers and after changes of the policy",
			"panic":    "no query panics",
			"errors":   "an option that cannot be applied is an error, wherever it stands among other options",
			"names":    "expressions used as options are not found in the model under their text",
			"defaults": "the defaults are those of the model at the time of the query",
		},
		run: func(c *C) {
			c.ctxAll()
			c.ctxTwice()
			c.ctxReuse()
			c.ctxErrors()
			c.ctxModel()
		},
	})
}
