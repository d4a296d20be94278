package main

import (
	"fmt"
	"go/token"
	"strings"
)

// C08: clearing a policy removes all of its rules and nothing else.

// clearStep clears the rule set and checks the notification.
func (c *C) clearStep(rs *ruleSet, h histState) []histState {
	desc := h.desc + " clear"
	c.scen = desc
	cons := rs.name + ".Clear"
	st := h.st
	if rs.warm {
		st = c.warmRange(rs, st.clone())
	}
	mark := st.trace
	var out []histState
	for _, o := range rs.clear(st) {
		if !c.noPanic("empty", cons, o) {
			continue
		}
		c.ob("empty", cons, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "Clear fails: %s", o.st.show(o.rets[0]))
		es := eventsOf(o.st, mark, "notify")
		ok := len(es) == 1 && es[0].name == "cleared"
		if strings.HasPrefix(rs.name, "model") {
			ok = true // a model does not announce it
		} else if len(h.set) == 0 && len(es) == 0 {
			ok = true // nothing to clear
		}
		c.ob("notify", cons, triOf(ok), o.st, token.NoPos, "Clear after the history %q leads to the notifications %s instead of one EVT_CLEARED", h.desc, showEvents(o.st, es))
		n := histState{setState{o.st, nil}, desc}
		c.checkRange(rs, n)
		out = append(out, n)
	}
	return out
}

func (c *C) clearHistories(rs *ruleSet, before, after int) {
	rules := map[string][]Val{}
	for _, n := range []string{"x", "y"} {
		rules[n] = append(append([]Val{}, rs.prefix...), inVals(n, rs.n)...)
	}
	ops := []string{"add x", "add y", "remove x", "remove y"}
	var rec func(h histState, left int, cleared bool)
	rec = func(h histState, left int, cleared bool) {
		c.scenario("%s", h.desc)
		if cleared {
			c.checkRange(rs, h)
		}
		if !cleared || left > 0 {
			for _, n := range c.clearStep(rs, h) {
				if !cleared {
					rec(n, after, true)
				} else {
					rec(n, left-1, true)
				}
			}
		}
		if left == 0 {
			return
		}
		for _, op := range ops {
			if !cleared && left == before && strings.HasSuffix(op, "y") {
				continue // symmetric
			}
			c.muted = !cleared
			ns := c.histStep(rs, h, op, rules)
			c.muted = false
			for _, n := range ns {
				rec(n, left-1, cleared)
			}
		}
	}
	rec(histState{setState{rs.st.clone(), nil}, rs.name + ":"}, before, false)
}

// clearRoles: the answers of a role manager follow its links after it was cleared, the matchers stay.
func (c *C) clearRoles(before, after int) {
	scens := []roleScen{
		{"RoleManager", []rlink{L("a", "b"), L("b", "c")}, [][]string{{}}, []string{"a", "b", "c"}, "", "", 0, 0},
		{"RoleManager", []rlink{L("u*", "r"), L("r", "s*"), L("u1", "s1")}, [][]string{{}}, []string{"u1", "u2", "r", "s1"}, "roles", "", 0, 0},
		{"DomainManager", []rlink{L("a", "b"), L("a", "b", "d"), L("b", "c", "d", "e")}, [][]string{{}, {"d"}, {"d", "e"}, {"x"}}, []string{"a", "b", "c"}, "", "", 0, 0},
		{"DomainManager", []rlink{L("u*", "b", "d*"), L("u1", "b", "d1"), L("b", "c", "d1")}, [][]string{{"d1"}, {"d2"}}, []string{"u1", "b", "c"}, "roles", "doms", 0, 0},
	}
	for _, s := range scens {
		rs, st := c.newRoleSys(s)
		c.muted = true
		hs := c.setMatchers(rs, roleState{st: st, desc: s.name}, s.roles, s.dom)
		var starts []roleState
		for _, h := range hs {
			c.roleHist(rs, h, before, "roles", func(h roleState, left int) []roleState {
				if left == 0 {
					starts = append(starts, h)
				}
				return []roleState{h}
			})
		}
		c.muted = false
		for _, h := range starts {
			starts = append(starts, c.warmRoles(rs, h)...)
		}
		for _, h := range starts {
			c.scenario("%s; Clear", h.desc)
			for _, o := range c.roleCall(rs, "roles", h.st, "Clear") {
				c.ob("roles", rs.name+".Clear", negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "Clear fails: %s", o.st.show(o.rets[0]))
				n := h
				n.st, n.links, n.desc = o.st, nil, h.desc+"; Clear"
				c.roleHist(rs, n, after, "roles", func(h roleState, left int) []roleState {
					c.scenario("%s; queries", h.desc)
					c.queryRoles(rs, h, "roles")
					if rs.name == "DomainManager" {
						c.domainQueries(rs, h, "roles")
					}
					return []roleState{h}
				})
			}
		}
	}
}

// clearModel: other policies of the model keep their rules, decisions follow.
func (c *C) clearModel() {
	const cons = "Model.ClearPolicy"
	keys := []string{"p", "p2", "g", "g2"}
	rules := map[string][]Val{
		"p":  append([]Val{str("p")}, inVals("x", 2)...),
		"p2": append([]Val{str("p2")}, inVals("x", 2)...),
		"g":  strVals([]string{"g", "u1", "r1"}),
		"g2": strVals([]string{"g2", "u1", "r1", "d1"}),
	}
	st, model := c.newModel(c.start(), [3]string{"r", "r", "x, y"}, [3]string{"p", "p", "a, b"}, [3]string{"p", "p2", "a, b"}, [3]string{"g", "g", "_,_"}, [3]string{"g", "g2", "_,_,_"},
		[3]string{"e", "e", "some(where (p.eft == allow))"}, [3]string{"m", "m", "g(r.x, p.a) && r.y == p.b"}, [3]string{"m", "m2", "g2(r.x, p2.a, \"d1\") && r.y == p2.b"})
	st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), model), "BuildMatchers").st
	st, enf := c.enforcer(st, model)
	pevt := map[string]string{"added": "EVT_RULE_ADDED", "removed": "EVT_RULE_REMOVED", "cleared": "EVT_CLEARED"}
	for _, k := range keys {
		o := c.one(c.call(st, c.m("model", "Model", "GetPolicy"), model, str(k)), "GetPolicy")
		p, ok := o.st.norm(o.rets[0]).(*Iface)
		if !ok {
			panic(abort{"GetPolicy returns " + o.st.show(o.rets[0])})
		}
		st = o.st
		for _, e := range []string{"added", "removed", "cleared"} {
			st = c.listen(st, p.val, p.typ, c.konst("model/policy", pevt[e]), notifier(k+" "+e))
		}
	}
	cur := []*State{st}
	for _, k := range keys {
		cur = states(c.seq("empty", "Model.AddRule", cur, func(st *State) []Outcome {
			return c.call(st, c.m("model", "Model", "AddRule"), model, c.strs(st, rules[k]...))
		}))
	}
	check := func(desc string, st *State, present map[string]bool) {
		c.scenario("%s", desc)
		var want []Val
		for _, k := range keys {
			if present[k] {
				s := st.clone()
				want = append(want, s.snap(c.strs(s, rules[k]...)))
			}
		}
		mark := st.trace
		for _, o := range c.call(st, c.m("model", "Model", "RangeRules"), model, collector(boolean(true))) {
			if c.noPanic("others", cons, o) {
				got := callbackArgs(o.st, mark)
				c.ob("others", cons, c.sameSet(o.st, got, want), o.st, token.NoPos, "%s: the rules %s are left, expected are %s", desc, showVals(o.st, got), showVals(o.st, want))
			}
		}
		for _, q := range []struct {
			pol, role, matcher string
		}{{"p", "g", "m"}, {"p2", "g2", "m2"}} {
			if !present[q.pol] {
				continue // an empty policy
			}
			for _, user := range []string{"u1", "u2"} {
				req := []Val{str(user), in("ry")}
				opts := c.options([2]string{"SetMatcher", q.matcher})
				for _, api := range c.deciders(enf, model, opts, req)[:1] {
					for _, d := range api.run(st) {
						if !c.noPanic("decide", api.name, d.o) {
							continue
						}
						s := d.o.st
						c.forks(s, func(s *State, ask func(Val) bool) {
							r := rules[q.pol]
							is := func(a, b Val) bool { return ask(eqTerm(s, a, b)) }
							want := is(r[1], str(user)) || present[q.role] && user == "u1" && is(r[1], str("r1"))
							want = want && is(r[2], req[1])
							t := c.truth(s, d.allowed)
							if !want {
								t = negate(t)
							}
							c.ob("decide", api.name, allOf(t, negate(c.isErr(s, d.err))), s, token.NoPos, "%s: Enforce(%s, ...) returns %s", desc, user, s.show(d.allowed))
						})
					}
				}
			}
		}
	}
	// decisions before
	var asked []*State
	for _, st := range cur {
		for _, o := range c.call(st.clone(), c.m("model", "Model", "RangeRules"), model, collector(boolean(true))) {
			for _, m := range []string{"m", "m2"} {
				for _, u := range []string{"u1", "u2"} {
					s, os := c.options([2]string{"SetMatcher", m})(o.st.clone())
					for _, q := range c.call(s, c.enf("Enforce"), enf, c.anys(s, append(append([]Val{}, os...), str(u), in("ry"))...)) {
						if q.kind == oRet {
							o = q
							if c.truth(q.st, q.rets[0]) == tYes {
								break
							}
						}
					}
				}
			}
			asked = append(asked, o.st)
		}
	}
	for _, first := range keys {
		for _, second := range append([]string{""}, keys...) {
			for i, st := range append(append([]*State{}, cur...), asked...) {
				present := map[string]bool{"p": true, "p2": true, "g": true, "g2": true}
				ss := []*State{st}
				desc := "rules of p, p2, g and g2"
				if i >= len(cur) {
					desc += "; queries"
				}
				for _, k := range []string{first, second} {
					if k == "" {
						continue
					}
					desc += "; ClearPolicy(" + k + ")"
					c.scenario("%s", desc)
					var nxt []*State
					for _, s := range ss {
						mark := s.trace
						for _, o := range c.seq("others", cons, []*State{s}, func(st *State) []Outcome { return c.call(st, c.m("model", "Model", "ClearPolicy"), model, str(k)) }) {
							c.ob("others", cons, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "%s fails", desc)
							es := eventsOf(o.st, mark, "notify")
							ok := len(es) == 1 && es[0].name == k+" cleared" || len(es) == 0 && !present[k]
							c.ob("notify", cons, triOf(ok), o.st, token.NoPos, "%s leads to the notifications %s instead of one EVT_CLEARED of %s", desc, showEvents(o.st, es), k)
							nxt = append(nxt, o.st)
						}
					}
					ss = nxt
					present[k] = false
				}
				for _, s := range ss {
					check(desc, s, present)
				}
			}
		}
	}
	for _, k := range []string{"p9", "g9", "", "r", "m", "e", "x"} {
		for _, st := range cur {
			desc := fmt.Sprintf("rules of p, p2, g and g2; ClearPolicy(%q)", k)
			c.scenario("%s", desc)
			for _, o := range c.seq("unknown", cons, []*State{st}, func(st *State) []Outcome { return c.call(st, c.m("model", "Model", "ClearPolicy"), model, str(k)) }) {
				c.ob("unknown", cons, c.isErr(o.st, o.rets[0]), o.st, token.NoPos, "%s returns no error", desc)
				check(desc, o.st, map[string]bool{"p": true, "p2": true, "g": true, "g2": true})
			}
		}
	}
}

// eqTerm is the condition that two values are equal.
func eqTerm(st *State, a, b Val) Val {
	switch cj := st.eq(st.snap(a), st.snap(b)); cj.tri {
	case yes:
		return boolean(true)
	case no:
		return boolean(false)
	default:
		return T("and", tBool, cj.atoms...)
	}
}

// clearFails: the error of a role manager is returned, listeners hear nothing.
func (c *C) clearFails() {
	const cons = "rbac.RolePolicy.Clear"
	c.scenario("RolePolicy with a role manager that may fail; Clear")
	o := c.one(c.call(c.start(), c.fn("rbac", "NewRolePolicy"), c.faultyRoles()), "NewRolePolicy")
	t := c.ptr("rbac", "RolePolicy")
	st := c.listen(o.st, o.rets[0], t, c.konst("model/policy", "EVT_CLEARED"), notifier("cleared"))
	mark := st.trace
	for _, q := range c.call(st, c.meth(t, "Clear"), o.rets[0]) {
		if !c.noPanic("notify", cons, q) {
			continue
		}
		failed := len(faults(q.st, mark)) > 0
		n := len(eventsOf(q.st, mark, "notify"))
		e := c.isErr(q.st, q.rets[0])
		if !failed {
			e = negate(e)
		}
		c.ob("notify", cons, allOf(e, triOf((n == 1) != failed)), q.st, token.NoPos, "the role manager failed: %v, Clear returns %s and notifies %d listeners", failed, q.st.show(q.rets[0]), n)
	}
}

func runC08(c *C) {
	before, after := 2, 2
	if c.thorough {
		after = 3
	}
	for _, rs := range c.ruleSets() {
		if rs.name == "policy.Policy" && rs.n == 2 && !c.thorough {
			continue
		}
		if rs.n == 4 {
			c.clearHistories(rs, 1, 2)
			continue
		}
		c.clearHistories(rs, before, after)
		warm := *rs
		warm.warm = true
		warm.name += ", enumerated before"
		c.clearHistories(&warm, before, 1)
	}
	c.clearRoles(before, after-1)
	c.clearModel()
	c.clearFails()
}

func init() {
	register(&Check{
		id:        "C08",
		technique: "abstract interpretation of histories with Clear and ClearPolicy at every position, compared with the set of rules the history leaves",
		rules: map[string]string{
			"empty":     "Clear succeeds and leaves no rule",
			"notify":    "one EVT_CLEARED per Clear, none if it fails; later changes notify as usual",
			"enumerate": "after any history that contains Clear the rules added since then are enumerated",
			"truthful":  "after Clear AddRule and RemoveRule report whether they changed anything",
			"others":    "the rules of other policies stay",
			"decide":    "decisions follow",
			"unknown":   "an unknown policy is an error and nothing changes",
			"roles":     "after Clear the queries of a role manager know the links added since then only",
			"explicit":  "after Clear AddLink and DeleteLink report whether they changed anything",
			"closure":   "no call panics or runs forever",
		},
		run: runC08,
	})
}
