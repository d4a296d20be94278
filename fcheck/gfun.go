package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: the role function of a matcher is answered by the role manager that holds the rules of its key.

// recorder is a role manager whose links are an arbitrary relation; calls are recorded as events.
func (c *C) recorder(label string) *Iface {
	return c.fake(label, func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		var as []Val
		for i, a := range args {
			a = st.norm(a)
			if s, ok := a.(*Slice); ok && i == len(args)-1 {
				for _, e := range st.sliceElems(s) {
					as = append(as, e)
				}
				continue
			}
			as = append(as, st.snap(a))
		}
		if method == "Range" {
			var outs []Outcome
			l1 := []Val{str("u1"), str(label), c.nilStrs()}
			for _, o := range x.call(st, args[0], l1, site) {
				if o.kind != oRet {
					outs = append(outs, o)
					continue
				}
				for _, b := range x.split(o.st, o.rets[0]) {
					if !b.v {
						outs = append(outs, ret(b.st)...)
						continue
					}
					for _, p := range x.call(b.st, args[0], []Val{str("u2"), str(label), c.strs(b.st, str("d2"), str("d3"))}, site) {
						if p.kind == oRet {
							p.rets = nil
						}
						outs = append(outs, p)
					}
				}
			}
			return outs
		}
		st.event(&Event{kind: "rm:" + label, name: method, args: as, pos: posOf(site)})
		res := func(st *State, v Val) []Outcome { return ret(st, v, nilErr) }
		switch method {
		case "HasLink":
			return res(st, T("in:linked:"+label, tBool, as...))
		case "AddLink", "DeleteLink":
			return res(st, T("in:"+method+":"+label, tBool, as...))
		case "Clear":
			return ret(st, nilErr)
		}
		return res(st, c.nilStrs())
	}, c.typ("rbac", "IRoleManager"))
}

// linkedFn is the relation of the recorder as a matcher function.
func linkedFn(label string) *Native {
	return &Native{name: "linked:" + label, fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		var as []Val
		for _, a := range elemsOf(st, args[0]) {
			a = st.norm(a)
			if i, ok := a.(*Iface); ok {
				a = i.val
			}
			as = append(as, st.norm(a))
		}
		return ret(st, &Iface{tBool, T("in:linked:"+label, tBool, as...)}, nilErr)
	}}
}

// do1 calls a function that must return once and without an error.
func (c *C) do1(st *State, f *ssa.Function, args ...Val) *State {
	o := c.one(c.call(st, f, args...), f.Name())
	if n := len(o.rets); n > 0 && c.isErr(o.st, o.rets[n-1]) != tNo {
		panic(abort{f.Name() + " fails"})
	}
	return o.st
}

func (c *C) setRM(st *State, m Val, key string, rm Val) *State {
	return c.one(c.call(st, c.m("model", "Model", "SetRoleManager"), m, str(key), rm), "SetRoleManager").st
}

// consulted: the decision agrees with the links of the managers that were set.
func (c *C) consulted() {
	exprs := []matchCase{{`g(r.x, p.a)`, 1}, {`g(p.a, r.x)`, 1}, {`g2(r.x, p.a, r.y)`, 1}, {`g(r.x, p.a) && g2(r.y, p.b, "d")`, 1}, {`g2(r.x, p.a) && g(p.b, r.y)`, 1}, {`g(r.x, "admin") || r.y == p.b`, 2}, {`g(r.x, p.a, p.b, r.y)`, 1}, {`!g(r.x, p.a) && r.y == p.b`, 1}, {`r.y == p.b && g(r.x, p.a)`, 1}}
	type setup struct {
		name string
		set  [][2]string // key, label in order
		late bool        // the matcher is built before the managers are set
	}
	setups := []setup{
		{"SetRoleManager(g, A), SetRoleManager(g2, B)", [][2]string{{"g", "A"}, {"g2", "B"}}, false},
		{"matchers built, SetRoleManager(g2, B), SetRoleManager(g, A)", [][2]string{{"g2", "B"}, {"g", "A"}}, true},
		{"SetRoleManager(g, C), SetRoleManager(g2, B), SetRoleManager(g, A)", [][2]string{{"g", "C"}, {"g2", "B"}, {"g", "A"}}, false},
		{"matchers built between SetRoleManager(g, C), SetRoleManager(g2, A) and SetRoleManager(g, A), SetRoleManager(g2, B)", [][2]string{{"g", "C"}, {"g2", "A"}, {"", ""}, {"g", "A"}, {"g2", "B"}}, false},
		{"SetRoleManager(g, C), SetRoleManager(g2, A), a query, SetRoleManager(g, A), SetRoleManager(g2, B)", [][2]string{{"g", "C"}, {"g2", "A"}, {"?", ""}, {"g", "A"}, {"g2", "B"}}, true},
		{"a query with the default managers, SetRoleManager(g, A), SetRoleManager(g2, B)", [][2]string{{"?", ""}, {"g", "A"}, {"g2", "B"}}, true},
		{"functions named g and g2, SetRoleManager(g, A), SetRoleManager(g2, B)", [][2]string{{"SetFunction", "g"}, {"SetFunction", "g2"}, {"g", "A"}, {"g2", "B"}}, false},
		{"SetRoleManager(g, C), a function named g, SetRoleManager(g, A), SetRoleManager(g2, B)", [][2]string{{"g", "C"}, {"SetFunction", "g"}, {"g", "A"}, {"g2", "B"}}, true},
		{"functions g and g2 removed, SetRoleManager(g, A), SetRoleManager(g2, B)", [][2]string{{"RemoveFunction", "g"}, {"RemoveFunction", "g2"}, {"g", "A"}, {"g2", "B"}}, false},
		{"SetRoleManager(g, A), SetRoleManager(g2, B), functions g and g2 set, the same managers again", [][2]string{{"g", "A"}, {"g2", "B"}, {"SetFunction", "g"}, {"SetFunction", "g2"}, {"g", "A"}, {"g2", "B"}}, true},
		{"SetRoleManager(g, A), SetRoleManager(g2, B), functions g and g2 removed, the same managers again", [][2]string{{"g", "A"}, {"g2", "B"}, {"RemoveFunction", "g"}, {"RemoveFunction", "g2"}, {"g2", "B"}, {"g", "A"}}, false},
		{"SetRoleManager(g, A), SetRoleManager(g2, B), SetRoleManager(g, C), SetRoleManager(g2, A), the first ones again", [][2]string{{"g", "A"}, {"g2", "B"}, {"g", "C"}, {"g2", "A"}, {"g", "A"}, {"g2", "B"}}, true},
		{"SetRoleManager(g, B), SetRoleManager(g2, A), definitions of g and g2, SetRoleManager(g, A), SetRoleManager(g2, B)", [][2]string{{"g", "B"}, {"g2", "A"}, {"SetDef g", "_,_"}, {"SetDef g2", "_,_,_"}, {"g", "A"}, {"g2", "B"}}, false},
		{"matchers built, SetRoleManager(g, A), SetRoleManager(g2, B), definitions of g and g2, the same managers again", [][2]string{{"g", "A"}, {"g2", "B"}, {"SetDef g2", "_,_,_"}, {"SetDef g", "_,_"}, {"g", "A"}, {"g2", "B"}}, true},
		{"one manager for both, SetRoleManager(g, A), SetRoleManager(g2, A)", [][2]string{{"g", "A"}, {"g2", "A"}}, false},
	}
	req := []Val{in("rx"), in("ry")}
	rules := [][]Val{inVals("p", 2)}
	if c.thorough {
		rules = append(rules, inVals("q", 2))
	}
	for _, s := range setups {
		for _, e := range exprs {
			rms := map[string]*Iface{"A": c.recorder("A"), "B": c.recorder("B"), "C": c.recorder("C")}
			now := map[string]string{}
			st, m := c.newModel(c.start(), [3]string{"r", "r", "x, y"}, [3]string{"p", "p", "a, b"}, [3]string{"g", "g", "_,_"}, [3]string{"g", "g2", "_,_,_"}, [3]string{"e", "e", "some(where (p.eft == allow))"}, [3]string{"m", "m", e.expr})
			build := func() {
				o := c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers")
				if c.isErr(o.st, o.rets[0]) != tNo {
					panic(abort{"BuildMatchers fails: " + e.expr})
				}
				st = o.st
			}
			built := s.late
			if s.late {
				build()
			}
			mt := &mm{model: m, args: []string{"a", "b"}, rargs: []string{"x", "y"}, key: "p"}
			var enf Val
			st, enf = c.enforcer(st, m)
			h := ruleHist{st: st}
			fill := func() {
				h.st = st
				for i := range rules {
					h = c.apply(h, mt, fmt.Sprintf("add %d", i), rules)[0]
				}
				st = h.st
			}
			for _, p := range s.set {
				if p[0] == "?" {
					fill()
					c.scenario("%s; Enforce with %q", s.name, e.expr)
					var next *State
					st = st.clone()
					for _, o := range c.call(st, c.enf("Enforce"), enf, c.anys(st, req...)) {
						if o.kind == oRet && next == nil {
							next = o.st
						}
					}
					if next == nil {
						panic(abort{"Enforce does not return"})
					}
					st = next
					continue
				}
				if p[0] == "" {
					build()
					built = true
					continue
				}
				if p[0] == "SetFunction" || p[0] == "RemoveFunction" {
					st = c.gFunction(st, m, p[0], p[1])
					continue
				}
				if strings.HasPrefix(p[0], "SetDef ") {
					// a definition brings a manager of its own, until another one is set
					st = c.do1(st, c.m("model", "Model", "SetDef"), m, byteVal('g'), str(p[0][7:]), str(p[1]))
					now[p[0][7:]] = ""
					continue
				}
				if p[0] == "RemoveDef" {
					st = c.do1(st, c.m("model", "Model", "RemoveDef"), m, byteVal('g'), str(p[1]))
					now[p[1]] = ""
					continue
				}
				st = c.setRM(st, m, p[0], rms[p[1]])
				now[p[0]] = p[1]
			}
			if !built {
				build()
			}
			mt.fns = map[string]Val{"g": linkedFn(now["g"]), "g2": linkedFn(now["g2"])}
			if len(h.set) == 0 {
				fill()
			}
			h.st = st
			for _, key := range []string{"g", "g2"} {
				c.scenario("%s; GetRoleManager(%s)", s.name, key)
				for _, o := range c.call(h.st.clone(), c.m("model", "Model", "GetRoleManager"), m, str(key)) {
					if c.noPanic("consult", "Model.GetRoleManager", o) {
						c.ob("consult", "Model.GetRoleManager", allOf(c.truth(o.st, o.rets[1]), triOf(K(o.st.norm(o.rets[0])) == K(rms[now[key]]))), o.st, token.NoPos, "GetRoleManager(%q) returns %s, %s after %s", key, o.st.show(o.rets[0]), o.st.show(o.rets[1]), s.name)
					}
				}
			}
			for _, api := range c.deciders(enf, m, noOptions, req) {
				c.scenario("%s; %s with %q", s.name, api.name, e.expr)
				for _, d := range api.run(h.st) {
					if !c.noPanic("consult", api.name, d.o) {
						continue
					}
					c.ob("consult", api.name, negate(c.isErr(d.o.st, d.err)), d.o.st, token.NoPos, "%s fails: %s", api.name, d.o.st.show(d.err))
					if d.allowed == nil {
						c.checkMatches("consult", api.name, d.o, d.rules, e, mt, h, req)
						continue
					}
					var rq []Val
					for _, r := range req {
						rq = append(rq, &Iface{tString, r})
					}
					for _, sp := range c.specAll(d.o.st, e.expr, mt, h.vals, rq) {
						any := false
						for _, b := range sp.mask {
							any = any || b
						}
						t := c.truth(sp.st, d.allowed)
						if !any {
							t = negate(t)
						}
						c.ob("consult", api.name, t, sp.st, token.NoPos, "%s with %q returns %s, the links of the role managers say %v", api.name, e.expr, sp.st.show(d.allowed), any)
					}
				}
			}
		}
	}
}

// forwarded: rules of a role key become links of its manager and nothing else.
func (c *C) forwarded() {
	x1, x2 := inVals("x", 2), inVals("y", 3)
	with := func(k string, vs []Val) []Val { return append([]Val{str(k)}, vs...) }
	for _, late := range []bool{false, true} {
		rms := map[string]*Iface{"A": c.recorder("A"), "B": c.recorder("B"), "C": c.recorder("C")}
		st, m := c.newModel(c.start(), [3]string{"r", "r", "x, y"}, [3]string{"p", "p", "a, b"}, [3]string{"g", "g", "_,_"}, [3]string{"g", "g2", "_,_,_"}, [3]string{"e", "e", "some(where (p.eft == allow))"}, [3]string{"m", "m", "g(r.x, p.a)"})
		st, enf := c.enforcer(st, m)
		if late {
			st = c.setRM(st, m, "g", rms["C"])
			st = c.setRM(st, m, "g2", rms["C"])
		}
		st = c.setRM(st, m, "g", rms["A"])
		st = c.setRM(st, m, "g2", rms["B"])
		keys := map[string]string{"g": "A", "g2": "B"}
		calls := func(st *State, mark *Event) (out []*Event) {
			for _, l := range []string{"A", "B", "C"} {
				for _, e := range eventsOf(st, mark, "rm:"+l) {
					out = append(out, e)
				}
			}
			return out
		}
		for _, kv := range []struct {
			key  string
			vals []Val
		}{{"g", x1}, {"g2", x2}, {"g2", inVals("z", 4)}} {
			key, vals := kv.key, kv.vals
			lab := keys[key]
			for _, verb := range []string{"AddRule", "RemoveRule"} {
				link := map[string]string{"AddRule": "AddLink", "RemoveRule": "DeleteLink"}[verb]
				for _, api := range []string{"Enforcer", "Model", "batch"} {
					s := st.clone()
					var os []Outcome
					cons := api + "." + verb
					r := c.strs(s, with(key, vals)...)
					c.scenario("%s of a rule of %s (managers exchanged before: %v)", cons, key, late)
					switch api {
					case "Enforcer":
						os = c.call(s, c.enf(verb), enf, r)
					case "Model":
						os = c.call(s, c.m("model", "Model", verb), m, r)
					case "batch":
						cons = "Enforcer." + verb + "s"
						os = c.call(s, c.enf(verb+"s"), enf, c.strss(s, r))
					}
					for _, o := range os {
						if !c.noPanic("links", cons, o) {
							continue
						}
						es := calls(o.st, st.trace)
						t := triOf(len(es) == 1 && es[0].kind == "rm:"+lab && es[0].name == link && len(es[0].args) == len(vals))
						if t == tYes {
							for i, a := range es[0].args {
								t = allOf(t, c.same(o.st, a, vals[i]))
							}
						}
						c.ob("links", cons, t, o.st, token.NoPos, "%s of a rule of %s calls %s, expected is one call of %s of the manager of %s with the values of the rule", cons, key, showEvents(o.st, es), link, key)
						if api != "batch" && t == tYes {
							res := c.truth(o.st, T("in:"+link+":"+lab, tBool, vals...))
							if res == tNo {
								res = negate(c.truth(o.st, o.rets[0]))
							} else if res == tYes {
								res = c.truth(o.st, o.rets[0])
							} else {
								res = c.same(o.st, o.rets[0], T("in:"+link+":"+lab, tBool, vals...))
							}
							c.ob("links", cons, allOf(res, negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%s returns %s, the manager %s", cons, o.st.show(o.rets[0]), o.st.show(T("in:"+link+":"+lab, tBool, vals...)))
						}
					}
				}
			}
			s := st.clone()
			c.scenario("Model.ClearPolicy of %s", key)
			for _, o := range c.call(s, c.m("model", "Model", "ClearPolicy"), m, str(key)) {
				if !c.noPanic("links", "Model.ClearPolicy", o) {
					continue
				}
				es := calls(o.st, st.trace)
				c.ob("links", "Model.ClearPolicy", triOf(len(es) == 1 && es[0].kind == "rm:"+lab && es[0].name == "Clear"), o.st, token.NoPos, "ClearPolicy(%s) calls %s", key, showEvents(o.st, es))
			}
		}
		c.scenario("Model.RangeRules (managers exchanged before: %v)", late)
		var want []Val
		for k, l := range keys {
			want = append(want, st.snap(c.strs(st, strVals([]string{k, "u1", l})...)), st.snap(c.strs(st, strVals([]string{k, "u2", l, "d2", "d3"})...)))
		}
		for _, o := range c.call(st.clone(), c.m("model", "Model", "RangeRules"), m, collector(boolean(true))) {
			if c.noPanic("links", "Model.RangeRules", o) {
				got := callbackArgs(o.st, st.trace)
				c.ob("links", "Model.RangeRules", c.sameSet(o.st, got, want), o.st, token.NoPos, "RangeRules passes %s, the links are %s", showVals(o.st, got), showVals(o.st, want))
			}
		}
	}
}

// decided: with the role managers of the package, requests are decided by the role rules that are present.
func (c *C) decided() {
	type query struct {
		expr string
		key  string
		d    []string
		n    int // number of positions of names
	}
	pats := []bool{false}
	if c.thorough {
		pats = append(pats, true)
	}
	for _, pat := range pats {
		links := []struct {
			key string
			l   rlink
		}{{"g", L("a", "b")}, {"g", L("b", "c")}, {"g2", L("a", "b", "d")}, {"g2", L("b", "a", "e")}}
		if c.thorough {
			links = append(links, struct {
				key string
				l   rlink
			}{"g", L("c", "a")}, struct {
				key string
				l   rlink
			}{"g2", L("b", "c", "d")})
		}
		if pat {
			links[1].l = L("b*", "c")
		}
		st, m := c.newModel(c.start(), [3]string{"r", "r", "x, y"}, [3]string{"p", "p", "a"}, [3]string{"g", "g", "_,_"}, [3]string{"g", "g2", "_,_,_"}, [3]string{"e", "e", "some(where (p.eft == allow))"}, [3]string{"m", "m", "g(r.x, p.a)"}, [3]string{"m", "m2", "g2(r.x, p.a, r.y)"}, [3]string{"m", "m3", "g(r.x, p.a) && g2(r.x, p.a, \"d\")"})
		o := c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers")
		st, enf := c.enforcer(o.st, m)
		roles := ""
		if pat {
			roles = "roleMatcher"
			q := c.one(c.call(st, c.m("model", "Model", "GetRoleManager"), m, str("g")), "GetRoleManager")
			q = c.one(c.icall(q.st, q.rets[0], "SetMatcher", c.matchers(roles)), "SetMatcher")
			st = q.st
		}
		// every subset of the links, reached by adding all and removing some
		n := len(links)
		add := func(cur []*State, verb string, i int) []*State {
			return states(c.seq("decide", "Enforcer."+verb, cur, func(st *State) []Outcome {
				return c.call(st, c.enf(verb), enf, c.strs(st, strVals(append([]string{links[i].key, links[i].l.u, links[i].l.r}, links[i].l.d...))...))
			}))
		}
		for mask := 0; mask < 1<<n; mask++ {
			for _, order := range []string{"added only", "all added, some removed", "all added, queries, some removed", "queries, added, queries"} {
				if order == "queries, added, queries" && mask == 0 || order == "all added, queries, some removed" && mask == 1<<n-1 {
					continue
				}
				if order == "all added, some removed" && mask == 1<<n-1 {
					continue
				}
				cur := []*State{st.clone()}
				asked := strings.Contains(order, "queries")
				warm := func() {
					if !asked {
						return
					}
					var next []*State
					for _, s := range cur {
						for _, user := range []string{"a", "b", "c"} {
							for _, q := range [][2]string{{"m", ""}, {"m2", "d"}, {"m3", ""}} {
								var os []Val
								s, os = c.options([2]string{"SetMatcher", q[0]})(s.clone())
								for _, o := range c.call(s, c.enf("Enforce"), enf, c.anys(s, append(append([]Val{}, os...), str(user), str(q[1]))...)) {
									if o.kind == oRet {
										s = o.st
										break
									}
								}
							}
						}
						next = append(next, s)
					}
					cur = next
				}
				if asked {
					// the rule that is asked about is there from the beginning
					cur = states(c.seq("decide", "Enforcer.AddRule", cur, func(st *State) []Outcome { return c.call(st, c.enf("AddRule"), enf, c.strs(st, str("p"), str("b"))) }))
					warm()
				}
				var has []string
				spec := map[string][]rlink{}
				for i := range links {
					in := mask>>i&1 == 1
					if in {
						has = append(has, links[i].key+links[i].l.String())
						spec[links[i].key] = append(spec[links[i].key], links[i].l)
					}
					if in || strings.HasPrefix(order, "all") {
						cur = add(cur, "AddRule", i)
					}
				}
				if order == "queries, added, queries" {
					warm()
				} else if order != "added only" {
					warm()
					for i := range links {
						if mask>>i&1 == 0 {
							cur = add(cur, "RemoveRule", i)
						}
					}
				}
				for _, role := range []string{"a", "b", "c"} {
					if asked && role != "b" {
						continue
					}
					var with []*State
					for _, s := range cur {
						if asked {
							with = append(with, s)
							continue
						}
						with = append(with, states(c.seq("decide", "Enforcer.AddRule", []*State{s}, func(st *State) []Outcome { return c.call(st, c.enf("AddRule"), enf, c.strs(st, str("p"), str(role))) }))...)
					}
					for _, user := range []string{"a", "b", "c", "x"} {
						for _, q := range []query{{"m", "g", nil, 0}, {"m2", "g2", []string{"d"}, 0}, {"m2", "g2", []string{"e"}, 0}, {"m3", "", nil, 0}} {
							if user == "x" && q.expr != "m" {
								continue
							}
							dom := strings.Join(q.d, "")
							c.scenario("role rules %s (%s), rule (p, %s), Enforce(%s, %s) with %s", strings.Join(has, " "), order, role, user, dom, q.expr)
							for _, s := range with {
								s := s.clone()
								s, os := c.options([2]string{"SetMatcher", q.expr})(s)
								for _, o := range c.call(s, c.enf("Enforce"), enf, c.anys(s, append(append([]Val{}, os...), str(user), str(dom))...)) {
									if !c.noPanic("decide", "Enforcer.Enforce", o) {
										continue
									}
									c.forks(o.st, func(st *State, ask func(Val) bool) {
										link := func(key string, d []string) bool {
											sp := &rmSpec{links: spec[key], q: ask, domain: d}
											if key == "g" {
												sp.roles = roles
											}
											return sp.hasLink(user, role)
										}
										var want bool
										if q.key != "" {
											want = link(q.key, q.d)
										} else {
											want = link("g", nil) && link("g2", []string{"d"})
										}
										t := c.truth(st, o.rets[0])
										if !want {
											t = negate(t)
										}
										c.ob("decide", "Enforcer.Enforce", allOf(t, negate(c.isErr(st, o.rets[1]))), st, token.NoPos, "Enforce(%s, %s) with %s returns %s, %s; role rules: %s, rule: %s", user, dom, q.expr, st.show(o.rets[0]), st.show(o.rets[1]), strings.Join(has, " "), role)
									})
								}
							}
						}
					}
				}
			}
		}
	}
}

// gFunction sets or removes the function of a role key.
func (c *C) gFunction(st *State, m Val, verb, key string) *State {
	args := []Val{m, str(key)}
	if verb == "SetFunction" {
		args = append(args, linkedFn("own"))
	}
	return c.one(c.call(st, c.m("model", "Model", verb), args...), verb).st
}

// defined: the definition of a role key makes its function answer from its rules, whatever was there before.
func (c *C) defined() {
	for _, nd := range []int{2, 3} {
		def, expr := "_,_", "g(r.x, p.a)"
		if nd == 3 {
			def, expr = "_,_,_", `g(r.x, p.a, "d")`
		}
		for _, first := range [][]string{{}, {"def"}, {"SetRoleManager"}, {"OtherManager"}} {
			for _, h := range [][]string{{}, {"def"}, {"def", "OtherManager"}, {"OtherManager"}, {"SetFunction"}, {"RemoveFunction"}, {"RemoveDef"}, {"SetFunction", "RemoveDef"}, {"RemoveDef", "SetFunction"}, {"SetRoleManager"}, {"SetRoleManager", "RemoveDef"}} {
				steps := append(append([]string{}, first...), h...)
				if hasStr(steps, "SetRoleManager") && !hasStr(steps, "RemoveDef") {
					continue // whether a definition replaces a manager of the caller is not judged
				}
				st, m := c.newModel(c.start(), [3]string{"r", "r", "x"}, [3]string{"p", "p", "a"}, [3]string{"e", "e", "some(where (p.eft == allow))"}, [3]string{"m", "m", expr})
				for _, s := range steps {
					switch s {
					case "def":
						st = c.one(c.call(st, c.m("model", "Model", "SetDef"), m, byteVal('g'), str("g"), str(def)), "SetDef").st
					case "SetRoleManager":
						st = c.setRM(st, m, "g", c.recorder("A"))
					case "OtherManager":
						mk, typ := "NewRoleManager", "RoleManager"
						if nd == 3 {
							mk, typ = "NewDomainManager", "DomainManager"
						}
						o := c.one(c.call(st, c.fn("rbac", mk), num(10)), mk)
						v := o.st.norm(o.rets[0])
						if _, ok := v.(*Iface); !ok {
							v = &Iface{c.ptr("rbac", typ), v}
						}
						st = c.setRM(o.st, m, "g", v)
					case "RemoveDef":
						st = c.one(c.call(st, c.m("model", "Model", "RemoveDef"), m, byteVal('g'), str("g")), "RemoveDef").st
					default:
						st = c.gFunction(st, m, s, "g")
					}
				}
				desc := strings.Join(append(steps, "SetDef"), ", ") + " of g"
				st = c.one(c.call(st, c.m("model", "Model", "SetDef"), m, byteVal('g'), str("g"), str(def)), "SetDef").st
				st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers").st
				st, enf := c.enforcer(st, m)
				c.scenario("%s; rules (p, b) and (g, a, b); Enforce with %s", desc, expr)
				cur := []*State{st}
				role := []string{"g", "a", "b", "d"}
				for _, r := range [][]string{{"p", "b"}, role[:nd+1]} {
					r := r
					cur = states(c.seq("decide", "Enforcer.AddRule", cur, func(st *State) []Outcome {
						return c.call(st, c.enf("AddRule"), enf, c.strs(st, strVals(r)...))
					}))
				}
				for _, s := range cur {
					for _, user := range []string{"a", "b", "c"} {
						st := s.clone()
						for _, o := range c.call(st, c.enf("Enforce"), enf, c.anys(st, str(user))) {
							if !c.noPanic("decide", "Enforcer.Enforce", o) {
								continue
							}
							t := c.truth(o.st, o.rets[0])
							if user == "c" {
								t = negate(t)
							}
							c.ob("decide", "Enforcer.Enforce", allOf(t, negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%s: Enforce(%s) returns %s, %s; the rules are (p, b) and (g, a, b)", desc, user, o.st.show(o.rets[0]), o.st.show(o.rets[1]))
						}
					}
				}
			}
		}
	}
}

func runC25(c *C) {
	c.defined()
	c.consulted()
	c.forwarded()
	c.decided()
}

func init() {
	register(&Check{
		id:        "C25",
		technique: "abstract interpretation with role managers that are arbitrary relations, and with the role managers of the package over all subsets of role rules",
		rules: map[string]string{
			"consult": "g(...) of a matcher asks the role manager set for its key, with the arguments in order",
			"links":   "rules of a role key become links of its role manager, nothing else is called",
			"decide":  "Enforce agrees with the role rules that are present",
		},
		run: runC25,
	})
}
