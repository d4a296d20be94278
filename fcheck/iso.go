package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: rules are isolated from the slices of the caller.

// poke overwrites all elements of a slice, including its spare capacity.
func (st *State) poke(v Val, with string) {
	s, ok := st.norm(v).(*Slice)
	if !ok || s.isNil || s.obj < 0 {
		return
	}
	if h := st.heap[s.obj]; h == nil || h.isMap {
		return
	}
	a := expand(getPath(st.heap[s.obj].val, s.path), nil).(*Array)
	n := s.cap
	if s.off+n > len(a.elems) {
		n = len(a.elems) - s.off
	}
	es := append([]Val(nil), a.elems...)
	for i := 0; i < n; i++ {
		es[s.off+i] = in(fmt.Sprintf("%s%d", with, i))
	}
	st.store(&Ptr{obj: s.obj, path: s.path}, &Array{a.typ, es})
}

// mangler is a callback that overwrites the rule it gets.
func mangler() *Native {
	return &Native{name: "callback", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		st.event(&Event{kind: "callback", name: "fn", args: []Val{st.snap(args[0])}, pos: posOf(site)})
		st.poke(args[0], "z")
		return ret(st, boolean(true))
	}}
}

// part is a slice in the middle of a larger array of the caller.
func (c *C) part(st *State, vs ...Val) (*Slice, func(st *State) tri) {
	all := append([]Val{str("before")}, vs...)
	all = append(all, str("after"), str("after2"))
	s := c.strs(st, all...)
	p := *s
	p.off, p.len, p.cap = 1, len(vs), len(vs)+2
	return &p, func(st *State) tri {
		r := tYes
		for i, v := range all {
			r = allOf(r, c.same(st, st.sliceGet(s, i), v))
		}
		return r
	}
}

type isoSys struct {
	name   string
	prefix []Val
	n      int
}

// callerSlices: the caller changes a slice after it passed it.
func (c *C) callerSlices(kind string, auto bool) {
	for _, sy := range []isoSys{{"p", []Val{str("p")}, 2}, {"g", []Val{str("g")}, 2}, {"g2", []Val{str("g2")}, 3}} {
		for _, verb := range []string{"AddRule", "AddRules"} {
			cons := "Enforcer." + verb
			c.scenario("%s, autosave %v: %s of a rule of %s, the caller changes its slice; enumeration, Flush, RemoveRule(s) of the rule, the caller changes that slice; Flush", kind, auto, verb, sy.name)
			ad := c.adapter("A", 0, nil, adapterKinds[kind]...)
			st, m := c.newModel(c.start(), append(c.modelDefs(), [3]string{"g", "g2", "_,_,_"}, [3]string{"m", "m2", "t(" + map[string]string{"p": "p.a", "g": "g.user", "g2": "g2.user"}[sy.name] + ")"})...)
			st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), m, str("t"), &Native{name: "t", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
				return ret(st, &Iface{tBool, boolean(true)}, nilErr)
			}}), "SetFunction").st
			st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers").st
			st, o1 := c.option(st, "OptionAutosave", auto)
			st, enf := c.enforcerWith(st, m, ad, o1)
			rules := [][]Val{append(append([]Val{}, sy.prefix...), inVals("x", sy.n)...), append(append([]Val{}, sy.prefix...), strVals([]string{"k", "l", "m"}[:sy.n])...)}
			var contents []Val
			for _, r := range rules {
				s := st.clone()
				contents = append(contents, s.snap(c.strs(s, r...)))
			}
			change := func(verb string, cur []*State) []*State {
				if verb == "AddRules" || verb == "RemoveRules" {
					var out []*State
					for _, st := range cur {
						st = st.clone()
						a, okA := c.part(st, rules[0]...)
						b, okB := c.part(st, rules[1]...)
						l := c.strss(st, a, b)
						for _, o := range c.seq("stored", cons, []*State{st}, func(st *State) []Outcome { return c.call(st, c.enf(verb), enf, l) }) {
							c.ob("inputs", "Enforcer."+verb, allOf(okA(o.st), okB(o.st)), o.st, token.NoPos, "%s writes to the slices of the caller", verb)
							o.st.poke(a, "z")
							o.st.poke(b, "z")
							out = append(out, o.st)
						}
					}
					return out
				}
				// the same slice is used for both rules
				var out []*State
				for _, st := range cur {
					st = st.clone()
					a, okA := c.part(st, rules[0]...)
					for _, o := range c.seq("stored", cons, []*State{st}, func(st *State) []Outcome { return c.call(st, c.enf(verb), enf, a) }) {
						c.ob("inputs", "Enforcer."+verb, okA(o.st), o.st, token.NoPos, "%s writes to the slice of the caller", verb)
						for i, v := range rules[1] {
							o.st.store(&Ptr{obj: a.obj, path: append(append([]int{}, a.path...), a.off+i)}, v)
						}
						for _, q := range c.seq("stored", cons, []*State{o.st}, func(st *State) []Outcome { return c.call(st, c.enf(verb), enf, a) }) {
							q.st.poke(a, "z")
							out = append(out, q.st)
						}
					}
				}
				return out
			}
			expect := func(cur []*State, present bool) {
				for _, st := range cur {
					for _, mb := range c.splitEq(st, contents[0], contents[1]) {
						want := contents
						if mb.v {
							want = contents[:1]
						}
						if !present {
							want = nil
						}
						for _, s := range c.modelRules(mb.st, m) {
							c.ob("stored", cons, c.sameSet(s.st, s.set, want), s.st, token.NoPos, "the model has the rules %s, expected are %s", showVals(s.st, s.set), showVals(s.st, want))
						}
						if present {
							fs, opt := c.ctxOption(mb.st.clone(), "SetMatcher", &Iface{tString, str("m2")})
							for _, o := range c.call(fs, c.enf("Filter"), enf, c.anys(fs, opt, str("a"), str("b"))) {
								if c.noPanic("stored", cons, o) {
									got := c.listOf(o.st, o.rets[0])
									c.ob("stored", cons, allOf(c.sameSet(o.st, got, want), negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "a matcher sees the rules %s, expected are %s", showVals(o.st, got), showVals(o.st, want))
								}
							}
						}
						for _, f := range c.seq("stored", cons, []*State{mb.st}, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }) {
							for _, r := range c.replay(f.st) {
								c.ob("queued", cons, c.sameSet(r.st, r.set, want), r.st, token.NoPos, "the storage has the rules %s, expected are %s", showVals(r.st, r.set), showVals(r.st, want))
							}
						}
					}
				}
			}
			cur := change(verb, []*State{st})
			expect(cur, true)
			back := map[string]string{"AddRule": "RemoveRule", "AddRules": "RemoveRules"}[verb]
			expect(change(back, cur), false)
			// flushed in between
			cur = states(c.seq("stored", cons, cur, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }))
			expect(change(back, cur), false)
		}
	}
}

// receivers: the caller changes slices it got.
func (c *C) receivers(expr string, g []Val, thorough bool) {
	scen := "enforcer with the matcher " + expr
	rules := [][]Val{append([]Val{str("p")}, inVals("x", 3)...), strVals([]string{"p", "g1", "b", "c"})}
	if !thorough {
		rules = [][]Val{strVals([]string{"p", "u1", "b", "c"}), strVals([]string{"p", "g1", "b", "c"})}
	}
	all := append(append([][]Val{}, rules...), g)
	sts, enf, model := c.enforcerFor(expr, len(g) == 4, rules, [][]Val{g})
	req := []Val{str("u1"), str("d1")}
	for _, st := range sts {
		var contents []Val
		dup := false
		for _, r := range all {
			s := st.clone()
			v := s.snap(c.strs(s, r...))
			for _, w := range contents {
				dup = dup || c.same(st, w, v) != tNo
			}
			contents = append(contents, v)
		}
		if dup {
			continue // both rules are equal or their equality is open
		}
		filter := func(st *State, opts ...Val) []Outcome {
			return c.call(st, c.enf("Filter"), enf, c.anys(st, append(opts, req...)...))
		}
		after := func(cons string, o Outcome) {
			if !c.noPanic("outputs", cons, o) {
				return
			}
			for _, s := range c.modelRules(o.st, model) {
				c.ob("outputs", cons, c.sameSet(s.st, s.set, contents), s.st, token.NoPos, "the model has the rules %s, expected are %s", showVals(s.st, s.set), showVals(s.st, contents))
			}
		}
		same := func(cons string, a, b []Val, st *State) {
			c.ob("outputs", cons, c.sameSet(st, a, b), st, token.NoPos, "the same query reports %s, and %s after the caller changed the first answer", showVals(st, b), showVals(st, a))
		}
		c.scenario("%s; Filter, the caller changes the rules it got; Filter", scen)
		for _, o := range filter(st.clone()) {
			if o.kind != oRet || c.isErr(o.st, o.rets[1]) != tNo {
				continue
			}
			first := c.listOf(o.st, o.rets[0])
			es := elemsOf(o.st, o.st.norm(o.rets[0]))
			for i, e := range es {
				o.st.poke(e, "z")
				for j := i + 1; j < len(es); j++ {
					c.ob("outputs", "Enforcer.Filter", c.same(o.st, o.st.snap(es[j]), first[j]), o.st, token.NoPos, "two rules of the result share memory")
				}
			}
			after("Enforcer.Filter", o)
			for _, q := range filter(o.st) {
				if q.kind == oRet {
					same("Enforcer.Filter", c.listOf(q.st, q.rets[0]), first, q.st)
				}
			}
		}
		c.scenario("%s; RangeMatches with a callback that changes the rules; RangeMatches", scen)
		ranged := func(st *State, fn Val) []Outcome {
			return c.call(st, c.enf("RangeMatches"), enf, c.anys(st, req...), fn)
		}
		for _, o := range ranged(st.clone(), mangler()) {
			after("Enforcer.RangeMatches", o)
			if o.kind != oRet {
				continue
			}
			first := callbackArgs(o.st, st.trace)
			for _, q := range ranged(o.st.clone(), collector(boolean(true))) {
				if q.kind == oRet {
					same("Enforcer.RangeMatches", callbackArgs(q.st, o.st.trace), first, q.st)
				}
			}
		}
		c.scenario("%s; RangeRules with a callback that changes the rules; RangeRules", scen)
		for _, o := range c.call(st.clone(), c.m("model", "Model", "RangeRules"), model, mangler()) {
			after("Model.RangeRules", o)
			if o.kind == oRet {
				same("Model.RangeRules", callbackArgs(o.st, st.trace), contents, o.st)
				for _, q := range filter(o.st) {
					c.noPanic("outputs", "Model.RangeRules", q)
				}
			}
		}
		// the values of a request
		for at := -1; at <= len(req); at++ {
			c.scenario("%s; Enforce with the request in the middle of an array, an option at %d", scen, at)
			for _, api := range []string{"Enforce", "Filter", "RangeMatches", "EnforceWithContext", "FilterWithContext", "RangeMatchesWithContext"} {
				ctx := strings.HasSuffix(api, "WithContext")
				if ctx && at >= 0 {
					continue
				}
				s := st.clone()
				vs := []Val{&Iface{tString, str("before")}}
				for i, r := range req {
					if i == at {
						var o Val
						s, o = c.ctxOption(s, "SetMatcher", &Iface{tString, str("m")})
						vs = append(vs, o)
					}
					vs = append(vs, &Iface{tString, r})
				}
				if at == len(req) {
					var o Val
					s, o = c.ctxOption(s, "SetRequestDef", &Iface{tString, str("r")})
					vs = append(vs, o)
				}
				n := len(vs) - 1
				vs = append(vs, &Iface{tString, str("after")})
				args := []Val{enf}
				if ctx {
					o := c.one(c.call(s, c.fn("", "NewContext"), &Iface{c.ptr("model", "Model"), model}, &Slice{typ: types.NewSlice(c.typ("", "ContextOption")), obj: -1, isNil: true}), "NewContext")
					s = o.st
					args = append(args, o.rets[0])
				}
				l := s.newSlice(types.NewSlice(anyT), vs)
				p := *l
				p.off, p.len, p.cap = 1, n, n+1
				args = append(args, &p)
				if strings.HasPrefix(api, "RangeMatches") {
					args = append(args, collector(boolean(true)))
				}
				for _, o := range c.call(s, c.enf(api), args...) {
					if !c.noPanic("inputs", "Enforcer."+api, o) {
						continue
					}
					r := tYes
					for i, v := range vs {
						if w := o.st.sliceGet(l, i); K(o.st.norm(w)) != K(o.st.norm(v)) {
							r = allOf(r, c.same(o.st, w, v))
						}
					}
					c.ob("inputs", "Enforcer."+api, r, o.st, token.NoPos, "%s writes to the slice of the request", api)
				}
			}
		}
	}
}

// keeper is a callback that keeps the rules it gets.
func keeper() *Native {
	return &Native{name: "callback", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		st.event(&Event{kind: "callback", name: "fn", args: []Val{st.norm(args[0])}, pos: posOf(site)})
		return ret(st, boolean(true))
	}}
}

// manyRules: a query reports many rules, the caller keeps and changes them one after the other.
func (c *C) manyRules() {
	rules := [][]Val{{str("p")}} // a rule without values
	for _, v := range []string{"a", "b", "c", "d", "e", "f", "h"} {
		rules = append(rules, strVals([]string{"p", "u1", v, v}))
	}
	groles := [][]Val{}
	for _, v := range []string{"a", "b", "c", "d", "e"} {
		groles = append(groles, strVals([]string{"g", v, "r"}))
	}
	sts, enf, model := c.enforcerFor("r.x == r.x", false, rules, groles)
	for _, st := range sts {
		judge := func(cons string, o Outcome, es []Val, n int) {
			if !c.noPanic("outputs", cons, o) {
				return
			}
			c.ob("outputs", cons, triOf(len(es) == n), o.st, token.NoPos, "%d rules are reported, expected are %d", len(es), n)
			first := []Val{}
			for _, e := range es {
				first = append(first, o.st.snap(e))
			}
			for i, e := range es {
				o.st.poke(e, "z")
				for j := i + 1; j < len(es); j++ {
					c.ob("outputs", cons, c.same(o.st, o.st.snap(es[j]), first[j]), o.st, token.NoPos, "two of the rules share memory")
				}
			}
		}
		kept := func(o Outcome) (es []Val) {
			for _, e := range eventsOf(o.st, st.trace, "callback") {
				es = append(es, e.args[0])
			}
			return es
		}
		// without the rule that is too short for a matcher
		s := st.clone()
		s = c.one(c.call(s, c.m("model", "Model", "RemoveRule"), model, c.strs(s, str("p"))), "RemoveRule").st
		req := []Val{str("u1"), str("d1")}
		for _, base := range []*State{s, st} {
			want := rules
			if base == s {
				want = rules[1:]
			}
			n := len(want)
			c.scenario("%d rules; Filter, the caller changes one rule after the other", n)
			q := base.clone()
			for _, o := range c.call(q, c.enf("Filter"), enf, c.anys(q, req...)) {
				if o.kind == oRet {
					judge("Enforcer.Filter", o, elemsOf(o.st, o.st.norm(o.rets[0])), n)
				}
			}
			c.scenario("%d rules; RangeMatches, the callback keeps the rules, they are changed one after the other", n)
			q = base.clone()
			for _, o := range c.call(q, c.enf("RangeMatches"), enf, c.anys(q, req...), keeper()) {
				es := []Val{}
				for _, e := range eventsOf(o.st, base.trace, "callback") {
					es = append(es, e.args[0])
				}
				judge("Enforcer.RangeMatches", o, es, n)
			}
			c.scenario("%d rules; RangeMatches with a callback that changes the rules; RangeMatches", n)
			q = base.clone()
			for _, o := range c.call(q, c.enf("RangeMatches"), enf, c.anys(q, req...), mangler()) {
				if o.kind == oRet {
					c.ob("outputs", "Enforcer.RangeMatches", c.sameSet(o.st, callbackArgs(o.st, base.trace), contentsOf(c, o.st, want)), o.st, token.NoPos, "the rules %s are reported to a callback that changes them", showVals(o.st, callbackArgs(o.st, base.trace)))
				}
			}
		}
		c.scenario("RangeRules, the callback keeps the rules, they are changed one after the other")
		for _, o := range c.call(st.clone(), c.m("model", "Model", "RangeRules"), model, keeper()) {
			judge("Model.RangeRules", o, kept(o), len(rules)+len(groles))
		}
		c.scenario("RangeRules with a callback that changes the rules")
		for _, o := range c.call(st.clone(), c.m("model", "Model", "RangeRules"), model, mangler()) {
			if o.kind == oRet {
				c.ob("outputs", "Model.RangeRules", c.sameSet(o.st, callbackArgs(o.st, st.trace), contentsOf(c, o.st, append(append([][]Val{}, rules...), groles...))), o.st, token.NoPos, "the rules %s are reported to a callback that changes them", showVals(o.st, callbackArgs(o.st, st.trace)))
			}
		}
	}
}

func contentsOf(c *C, st *State, rules [][]Val) (vs []Val) {
	for _, r := range rules {
		vs = append(vs, st.snap(c.strs(st, r...)))
	}
	return vs
}

// laterCalls: what a query returned once is not changed by anything that is called later.
func (c *C) laterCalls() {
	rules := [][]Val{strVals([]string{"p", "u1", "a", "b"}), strVals([]string{"p", "u1", "c", "d"}), strVals([]string{"p", "u2", "a", "d"})}
	groles := [][]Val{strVals([]string{"g", "u1", "r"}), strVals([]string{"g", "u3", "r"})}
	sts, enf, model := c.enforcerFor("r.x == p.a", false, rules, groles)
	rec := func(o Outcome, mark *Event) (es []Val) {
		for _, e := range eventsOf(o.st, mark, "callback") {
			es = append(es, e.args[0])
		}
		return es
	}
	for _, st := range sts {
		o := c.one(c.call(st, c.fn("", "NewContext"), &Iface{c.ptr("model", "Model"), model}, &Slice{typ: types.NewSlice(c.typ("", "ContextOption")), obj: -1, isNil: true}), "NewContext")
		ctx, base := o.rets[0], o.st
		type call struct {
			name string
			run  func(st *State, u string) []Outcome
			list bool // returns a list, otherwise the callback keeps the rules
		}
		anys := func(st *State, u string) Val { return c.anys(st, str(u), str("d")) }
		pol := func(key string) func(st *State, u string) []Outcome {
			return func(st *State, u string) []Outcome {
				g := c.one(c.call(st, c.m("model", "Model", "GetPolicy"), model, str(key)), "GetPolicy")
				i := g.st.norm(g.rets[0]).(*Iface)
				col := 0
				if u == "u2" {
					col = 1
				}
				return c.call(g.st, c.meth(i.typ, "GetDistinct"), i.val, g.st.newSlice(types.NewSlice(tInt), []Val{num(col)}))
			}
		}
		queries := []call{
			{"Enforcer.Filter", func(st *State, u string) []Outcome { return c.call(st, c.enf("Filter"), enf, anys(st, u)) }, true},
			{"Enforcer.FilterWithContext", func(st *State, u string) []Outcome {
				return c.call(st, c.enf("FilterWithContext"), enf, ctx, anys(st, u))
			}, true},
			{"Enforcer.RangeMatches", func(st *State, u string) []Outcome {
				return c.call(st, c.enf("RangeMatches"), enf, anys(st, u), keeper())
			}, false},
			{"Enforcer.RangeMatchesWithContext", func(st *State, u string) []Outcome {
				return c.call(st, c.enf("RangeMatchesWithContext"), enf, ctx, anys(st, u), keeper())
			}, false},
			{"Model.RangeRules", func(st *State, u string) []Outcome {
				return c.call(st, c.m("model", "Model", "RangeRules"), model, keeper())
			}, false},
			{"Policy.GetDistinct", pol("p"), true},
			{"RolePolicy.GetDistinct", pol("g"), true},
		}
		rule := func(fn string, vs ...string) func(st *State, u string) []Outcome {
			return func(st *State, u string) []Outcome { return c.call(st, c.enf(fn), enf, c.strs(st, strVals(vs)...)) }
		}
		later := append([]call{}, queries...)
		later = append(later,
			call{"Enforcer.Enforce", func(st *State, u string) []Outcome { return c.call(st, c.enf("Enforce"), enf, anys(st, u)) }, false},
			call{"Enforcer.AddRule", rule("AddRule", "p", "u1", "z", "z"), false},
			call{"Enforcer.AddRule", rule("AddRule", "g", "u1", "z"), false},
			call{"Enforcer.RemoveRule", rule("RemoveRule", "p", "u1", "a", "b"), false},
			call{"Enforcer.RemoveRule", rule("RemoveRule", "g", "u1", "r"), false},
			call{"Model.ClearPolicy", func(st *State, u string) []Outcome {
				return c.call(st, c.m("model", "Model", "ClearPolicy"), model, str("p"))
			}, false})
		for _, q := range queries {
			for _, o := range q.run(base.clone(), "u1") {
				if !c.noPanic("outputs", q.name, o) {
					continue
				}
				var es []Val
				if q.list {
					es = []Val{o.rets[0]}
					es = append(es, elemsOf(o.st, o.st.norm(o.rets[0]))...)
				} else {
					es = rec(o, base.trace)
				}
				if len(es) == 0 {
					panic(abort{"no result of " + q.name})
				}
				var was []Val
				for _, e := range es {
					was = append(was, o.st.snap(e))
				}
				for _, l := range later {
					c.scenario("%s, then %s; the result of the first call", q.name, l.name)
					for _, p := range l.run(o.st.clone(), "u2") {
						if !c.noPanic("outputs", l.name, p) {
							continue
						}
						for i, e := range es {
							c.ob("outputs", q.name, c.same(p.st, p.st.snap(e), was[i]), p.st, token.NoPos, "%s returned %s, after %s the same list reads %s", q.name, p.st.show(was[i]), l.name, p.st.show(p.st.snap(e)))
						}
					}
				}
			}
		}
	}
	for _, s := range raceScens() {
		rs, hs := c.roleStart(s, 0)
		for _, h := range hs {
			for _, f := range []string{"GetRoles", "GetUsers", "GetDomains", "GetAllDomains"} {
				args := func(st *State, n string) []Val {
					switch f {
					case "GetDomains":
						return []Val{str(n)}
					case "GetAllDomains":
						return nil
					}
					return []Val{str(n), c.strs(st, strVals(s.doms[0])...)}
				}
				for _, n := range s.names {
					st := h.st.clone()
					as := args(st, n)
					for _, o := range c.roleCall(rs, "outputs", st, f, as...) {
						was := o.st.snap(o.rets[0])
						var after []*State
						for _, m := range s.names {
							s2 := o.st.clone()
							as := args(s2, m)
							c.scenario("%s; %s of %s, then of %s", h.desc, f, n, m)
							for _, q := range c.roleCall(rs, "outputs", s2, f, as...) {
								after = append(after, q.st)
							}
						}
						for _, l := range append(append([]rlink{}, s.links...), L(s.names[0], "o", s.doms[0]...)) {
							k := h
							k.st = o.st.clone()
							c.scenario("%s; %s of %s, then a change of %s", h.desc, f, n, l)
							for _, t := range c.toggle(rs, k, l) {
								after = append(after, t.st)
							}
						}
						for _, t := range after {
							c.ob("outputs", rs.name+"."+f, c.same(t, t.snap(o.rets[0]), was), t, token.NoPos, "%s of %s returned %s, after another call the same list reads %s", f, n, t.show(was), t.show(t.snap(o.rets[0])))
						}
					}
				}
			}
		}
	}
}

// roleLists: the lists a role manager returns belong to the caller.
func (c *C) roleLists() {
	for _, s := range raceScens() {
		rs, hs := c.roleStart(s, 0)
		for _, h := range hs {
			for _, d := range s.doms {
				for _, n := range s.names {
					for _, f := range []string{"GetRoles", "GetUsers", "GetDomains", "GetAllDomains"} {
						if f == "GetAllDomains" && n != s.names[0] {
							continue
						}
						args := func(st *State) ([]Val, *Slice) {
							switch f {
							case "GetDomains":
								return []Val{str(n)}, nil
							case "GetAllDomains":
								return nil, nil
							}
							a, _ := c.part(st, strVals(d)...)
							return []Val{str(n), a}, a
						}
						cons := rs.name + "." + f
						c.scenario("%s; %s(%s) in %v, the caller changes the list; all queries", h.desc, f, n, d)
						st := h.st.clone()
						as, dl := args(st)
						for _, o := range c.roleCall(rs, "outputs", st, f, as...) {
							if dl != nil {
								c.ob("inputs", cons, allOf(c.same(o.st, o.st.snap(dl), listTerm(strVals(d)...)), c.same(o.st, o.st.sliceGet(dl, -1), str("before"))), o.st, token.NoPos, "%s writes to the list of domains", f)
								o.st.poke(dl, "z")
							}
							first := c.listOf(o.st, o.rets[0])
							o.st.poke(o.rets[0], "z")
							s2 := o.st.clone()
							as, _ = args(s2)
							for _, q := range c.roleCall(rs, "outputs", s2, f, as...) {
								c.ob("outputs", cons, c.sameList(q.st, c.listOf(q.st, q.rets[0]), first), q.st, token.NoPos, "%s reports %s, and %s after the caller changed the first answer", f, showVals(q.st, first), showVals(q.st, c.listOf(q.st, q.rets[0])))
							}
							n := h
							n.st = o.st
							c.queryRoles(rs, n, "outputs")
						}
					}
				}
			}
			// links added from a reused list of domains
			for _, verb := range []string{"AddLink", "DeleteLink"} {
				for _, l := range append(append([]rlink{}, s.links...), L("n", "o", s.doms[0]...)) {
					st := h.st.clone()
					a, ok := c.part(st, strVals(l.d)...)
					c.scenario("%s; %s%s, the caller changes the list of domains; all queries", h.desc, verb, l)
					for _, o := range c.roleCall(rs, "stored", st, verb, str(l.u), str(l.r), a) {
						c.ob("inputs", rs.name+"."+verb, ok(o.st), o.st, token.NoPos, "%s writes to the list of domains", verb)
						o.st.poke(a, "z")
						n := h
						n.st = o.st
						n.links = nil
						for _, k := range h.links {
							if k.String() != l.String() {
								n.links = append(n.links, k)
							}
						}
						if verb == "AddLink" {
							n.links = append(n.links, l)
						}
						c.queryRoles(rs, n, "stored")
					}
				}
			}
		}
	}
}

func listTerm(vs ...Val) Val {
	return &Term{op: "list", args: vs, typ: types.NewSlice(tString), key: "list(" + keys(vs) + ")"}
}

// sameList: both lists contain the same values, in any order.
func (c *C) sameList(st *State, a, b []Val) tri { return c.sameSet(st, a, b) }

func runC26(c *C) {
	for _, k := range []string{"SimpleAdapter", "BatchAdapter"} {
		for _, auto := range []bool{false, true} {
			c.callerSlices(k, auto)
		}
	}
	for _, expr := range []string{"g(r.x, p.a) && f(p.b)", "r.x == p.a || f(p.c)"} {
		c.receivers(expr, strVals([]string{"g", "u1", "g1"}), true)
	}
	c.receivers("g(r.x, p.a, r.y) && f(p.c)", strVals([]string{"g", "u1", "g1", "d1"}), true)
	c.manyRules()
	c.laterCalls()
	c.roleLists()
}

func init() {
	register(&Check{
		id:        "C26",
		technique: "abstract interpretation with an aliasing-precise heap: the caller overwrites every slice it passed or received, then the state is compared",
		rules: map[string]string{
			"stored":   "a slice may be changed and reused by the caller after the call",
			"queued":   "that holds for changes that wait for Flush as well",
			"inputs":   "no call writes to a slice of the caller, or beyond its length",
			"outputs":  "rules and lists that were handed out may be changed, that changes no rule and no later answer",
			"explicit": "the links are not affected",
			"closure":  "no call panics or runs forever",
		},
		run: runC26,
	})
}
