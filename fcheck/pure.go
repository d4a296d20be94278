package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: a query changes nothing, whether it succeeds, fails, panics or is stopped.

// boom is a matcher function that may fail or panic.
func boom() *Native {
	return &Native{name: "boom", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		p := st.clone()
		p.event(&Event{kind: "fault", name: "boom", pos: posOf(site)})
		e := p.clone()
		outs := []Outcome{{st: p, kind: oPanic, pv: rtPanic("boom"), pos: posOf(site)}}
		outs = append(outs, ret(e, nilOf(anyT), newError(str("boom")))...)
		return append(outs, ret(st, &Iface{tBool, st.fresh("in:boom", tBool)}, nilErr)...)
	}}
}

// rude is a callback that continues, stops or panics.
func rude() *Native {
	return &Native{name: "rude", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		p := st.clone()
		p.event(&Event{kind: "fault", name: "callback", pos: posOf(site)})
		outs := []Outcome{{st: p, kind: oPanic, pv: rtPanic("callback"), pos: posOf(site)}}
		return append(outs, ret(st, st.fresh("in:continue", tBool))...)
	}}
}

func (c *C) runC18roles() {
	scens := append(raceScens(),
		roleScen{"RoleManager", []rlink{L("u*", "r"), L("u1", "t")}, [][]string{{}}, []string{"u1", "u2", "r"}, "roles", "", 0, 0},
		roleScen{"RoleManager", []rlink{L("u*", "r"), L("u*2", "t")}, [][]string{{}}, []string{"u2", "r", "t"}, "roles", "", 0, 0},
		roleScen{"RoleManager", []rlink{L("a", "b"), L("u1", "b")}, [][]string{{}}, []string{"u*", "u1", "u2", "b"}, "roles", "", 0, 0}, // the pattern is not known
		roleScen{"DomainManager", []rlink{L("a", "b", "d1")}, [][]string{{"d*"}, {"d1"}, {"d2"}}, []string{"a", "b"}, "", "doms", 0, 0},
		roleScen{"DomainManager", []rlink{L("a", "b", "d*", "s*"), L("b", "c", "d1", "s1")}, [][]string{{"d1", "s1"}, {"d2", "s2"}}, []string{"a", "b", "c"}, "", "doms", 0, 0},
		roleScen{"DomainManager", []rlink{L("a", "b", "e", "s", "t")}, [][]string{{"d*", "s", "t"}, {"d1", "s", "t"}}, []string{"a", "b"}, "", "doms", 0, 0},
		roleScen{"DomainManager", []rlink{L("a", "b", "d1", "s1")}, [][]string{{"d1", "s*"}, {"d*", "s1"}, {"d1", "s2"}}, []string{"a", "b"}, "", "doms", 0, 0},
	)
	for _, s := range scens {
		rs, hs := c.roleStart(s, 0)
		for _, h := range hs {
			qs := c.roleQueries(rs, h, s.names, s.doms)
			for _, base := range c.decidedStates(rs, h, s) {
				h := h
				h.st = base
				desc := h.desc
				before := c.answers(rs, base, s)
				for _, q := range qs {
					variants := []query{q}
					if strings.HasSuffix(q.name, ".Range") {
						q2 := q
						q2.name += " with a callback that stops or panics"
						q2.run = func(st *State) []Outcome {
							return c.call(st, c.meth(rs.typ, "Range"), rs.recv, rude())
						}
						variants = append(variants, q2)
					}
					for _, q := range variants {
						c.scenario("%s; %s", desc, q.name)
						st := h.st.clone()
						st.vars["mayPanic"] = boolean(true)
						for _, o := range q.run(st) {
							if o.kind == oPanic && len(eventsOf(o.st, h.st.trace, "fault")) == 0 {
								c.noPanic("trace", q.name, o)
								continue
							}
							delete(o.st.vars, "mayPanic")
							c.ob("trace", q.name, triOf(len(o.st.locks) == 0), o.st, token.NoPos, "%s ends while a lock is held", q.name)
							n := h
							n.st = o.st
							n.desc = desc + "; after " + q.name
							if o.kind == oPanic {
								n.desc += " (interrupted by a panic of a matcher or callback)"
							}
							c.scen = n.desc
							after := c.answers(rs, o.st, s)
							for i, a := range after {
								b := before[i]
								t := tUnknown
								if a.ok && b.ok {
									t = triOf(a.val == b.val)
								}
								c.ob("trace", q.name, t, o.st, token.NoPos, "after %s the answer of %s is %s, it was %s", q.name, a.name, a.val, b.val)
							}
							// a change after the query
							if len(o.st.locks) == 0 && (c.thorough || len(rs.links) > 0) {
								for i, l := range rs.links {
									if i > 0 && !c.thorough {
										break
									}
									for _, n2 := range c.toggle(rs, n, l) {
										c.queryAll(rs, n2, "trace")
									}
								}
								// the first link of a pattern
								for _, d := range s.doms {
									l := rlink{s.names[0], s.names[1], d}
									if len(rs.links) > 1 || !isPat(strings.Join(d, "")) || o.kind == oPanic {
										continue
									}
									for _, n2 := range c.toggle(rs, n, l) {
										c.queryRoles(rs, n2, "trace")
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// an answer of a query, as text
type answer struct {
	name, val string
	ok        bool // there is just one
}

// probes are all queries with the names and domains of a scenario.
func (c *C) probes(rs *roleSys, s roleScen) []query {
	var qs []query
	for _, d := range s.doms {
		d := d
		for _, u := range s.names {
			u := u
			for _, r := range s.names {
				l := rlink{u, r, d}
				qs = append(qs, query{"HasLink" + l.String(), func(st *State) []Outcome {
					return c.call(st, c.meth(rs.typ, "HasLink"), append([]Val{rs.recv}, c.linkArgs(st, l)...)...)
				}, nil})
			}
			for _, m := range []string{"GetRoles", "GetUsers"} {
				m := m
				qs = append(qs, query{m + fmt.Sprint("(", strings.Join(append([]string{u}, d...), ", "), ")"), func(st *State) []Outcome {
					return c.call(st, c.meth(rs.typ, m), rs.recv, str(u), c.strs(st, strVals(d)...))
				}, nil})
			}
		}
	}
	for _, u := range s.names {
		u := u
		qs = append(qs, query{"GetDomains(" + u + ")", func(st *State) []Outcome { return c.call(st, c.meth(rs.typ, "GetDomains"), rs.recv, str(u)) }, nil})
	}
	return append(qs, query{"GetAllDomains()", func(st *State) []Outcome { return c.call(st, c.meth(rs.typ, "GetAllDomains"), rs.recv) }, nil},
		query{"Range()", func(st *State) []Outcome {
			return c.call(st, c.meth(rs.typ, "Range"), rs.recv, collector(boolean(true)))
		}, nil})
}

// decidedStates returns the state with all results of the matchers fixed
// which matter for the queries, one for each combination.
func (c *C) decidedStates(rs *roleSys, h roleState, s roleScen) []*State {
	cur := []*State{h.st.clone()}
	for _, q := range c.probes(rs, s) {
		var nxt []*State
		for _, st := range cur {
			for _, o := range q.run(st) {
				if o.kind == oRet {
					g := h.st.clone()
					g.facts, g.repr, g.neq, g.bound, g.nfresh = o.st.facts, o.st.repr, o.st.neq, o.st.bound, o.st.nfresh
					nxt = append(nxt, g)
				}
			}
		}
		cur = nxt
	}
	return cur
}

// answers of all queries, each one asked in the given state
func (c *C) answers(rs *roleSys, st *State, s roleScen) []answer {
	var res []answer
	for _, q := range c.probes(rs, s) {
		a := answer{q.name, "", true}
		for i, o := range q.run(st.clone()) {
			v := "a panic"
			if o.kind == oRet {
				var parts []string
				if q.name == "Range()" {
					for _, e := range eventsOf(o.st, st.trace, "callback") {
						parts = append(parts, o.st.show(e.args[0])+" "+o.st.show(e.args[1])+" "+showVals(o.st, c.flat(o.st, e.args[2])))
					}
				} else if len(o.rets) == 2 {
					r := o.st.norm(o.rets[0])
					if _, ok := r.(*Const); ok {
						parts = []string{o.st.show(r)}
					} else if l, ok := nameList(o.st, c.listOf(o.st, r)); ok {
						parts = l
					} else {
						a.ok = false
					}
					if c.isErr(o.st, o.rets[1]) != tNo {
						parts = append(parts, "and an error")
					}
				}
				sort.Strings(parts)
				v = ""
				for k, p := range parts {
					if k == 0 || p != parts[k-1] {
						v += p + "; "
					}
				}
				v = "[" + strings.TrimSuffix(v, "; ") + "]"
			}
			if i > 0 && v != a.val {
				a.ok = false
			}
			a.val = v
		}
		res = append(res, a)
	}
	return res
}

func runC18(c *C) {
	c.runC18roles()
	req := c.reqVals()
	rules := [][]Val{inVals("x", 3), inVals("y", 3)}
	cases := []matchCase{matchCases[1], matchCases[4]}
	if c.thorough {
		cases = matchCases
	}
	for _, mc := range cases {
		m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
		st, enf := c.enforcer(m.st, m.model)
		m.enf = enf
		st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), m.model, str("boom"), boom()), "SetFunction").st
		for _, k := range []struct{ k, e string }{{"m", mc.expr}, {"m2", "r.x == p.a && boom(p.b)"}} {
			st = c.one(c.call(st, c.m("model", "Model", "SetDef"), m.model, byteVal('m'), str(k.k), str(k.e)), "SetDef").st
		}
		var sts []*State
		for _, o := range c.call(st, c.m("model", "Model", "BuildMatchers"), m.model) {
			sts = append(sts, o.st)
		}
		for _, st := range sts {
			for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, rules) {
				g := c.one(c.call(h.st, c.m("model", "Model", "GetMatcher"), m.model, str("m")), "GetMatcher")
				opts := []struct {
					name string
					f    func(st *State) (*State, []Val)
				}{
					{"", noOptions},
					{"matcher m2", c.options([2]string{"SetMatcher", "m2"})},
					{"expression", c.options([2]string{"SetMatcher", "boom(p.a)"})},
					{"invalid expression", c.options([2]string{"SetMatcher", "r.x == p.a && ("})},
					{"unknown request", c.options([2]string{"SetRequestDef", "r9"})},
					{"effect", c.options([2]string{"SetEffector", "!some(where (p.eft == deny))"})},
				}
				for _, op := range opts {
					for i, api := range c.deciders(enf, m.model, op.f, req) {
						if i%2 == 1 && !c.thorough {
							continue
						}
						for _, d := range api.run(h.st) {
							c.afterQuery(api.name+" ("+op.name+")", d.o, h, m, g.rets[0], mc, req)
						}
					}
				}
				c.scenario("%s; RangeMatches with a callback that stops or panics", h.desc)
				for _, o := range c.call(h.st, c.m("", "Enforcer", "RangeMatches"), enf, c.anys(h.st, req...), rude()) {
					c.afterQuery("Enforcer.RangeMatches (callback)", o, h, m, g.rets[0], mc, req)
				}
				for _, o := range c.call(h.st, c.m("model", "Model", "RangeRules"), m.model, rude()) {
					c.afterQuery("Model.RangeRules (callback)", o, h, m, g.rets[0], mc, req)
				}
			}
		}
	}
}

func (c *C) options(os ...[2]string) func(st *State) (*State, []Val) {
	return func(st *State) (*State, []Val) {
		var vs []Val
		for _, o := range os {
			var v Val
			st, v = c.ctxOption(st, o[0], &Iface{tString, str(o[1])})
			vs = append(vs, v)
		}
		return st, vs
	}
}

// afterQuery: rules and answers are those of before.
func (c *C) afterQuery(name string, o Outcome, h ruleHist, m *mm, mt Val, mc matchCase, req []Val) {
	if o.kind != oRet && len(eventsOf(o.st, h.st.trace, "fault")) == 0 {
		c.noPanic("trace", name, o)
		return
	}
	desc := h.desc
	n := h
	n.st = o.st.clone()
	n.desc = h.desc + "after " + name + "; "
	c.scen = n.desc
	c.ob("trace", name, triOf(len(n.st.locks) == 0), n.st, token.NoPos, "%s ends while a lock is held", name)
	mark := n.st.trace
	for _, q := range c.call(n.st, c.m("model", "Model", "RangeRules"), m.model, collector(boolean(true))) {
		if c.noPanic("trace", "Model.RangeRules", q) {
			var want []Val
			for _, v := range h.vals {
				want = append(want, q.st.snap(c.strs(q.st, append([]Val{str(m.key)}, v...)...)))
			}
			c.ob("trace", name, c.sameSet(q.st, callbackArgs(q.st, mark), want), q.st, token.NoPos, "after %s the rules are %s", name, showVals(q.st, callbackArgs(q.st, mark)))
		}
	}
	st := n.st.clone()
	for _, q := range c.call(st, c.m("", "Enforcer", "Filter"), m.enf, c.anys(st, req...)) {
		if c.noPanic("trace", "Enforcer.Filter", q) && c.ob("trace", name, negate(c.isErr(q.st, q.rets[1])), q.st, token.NoPos, "after %s Filter fails with %s", name, q.st.show(q.rets[1])) {
			c.checkMatches("trace", name, q, c.listOf(q.st, q.rets[0]), mc, m, n, req)
		}
	}
	_ = desc
	if len(n.st.locks) > 0 {
		return
	}
	// a change after the query
	ops := []string{"remove 0", "clear"}
	if c.thorough {
		ops = []string{"remove 0", "remove 1", "add 0", "clear"}
	}
	rules := [][]Val{inVals("x", 3), inVals("y", 3)}
	for _, op := range ops {
		for _, n2 := range c.apply(n, m, op, rules) {
			if len(n2.vals) > 0 {
				c.judgeDecision("trace", n2, m, mc, req)
			} else if op == "clear" {
				for _, n3 := range c.apply(n2, m, "add 1", rules) {
					c.judgeDecision("trace", n3, m, mc, req)
				}
			}
		}
	}
}

func init() {
	register(&Check{
		id:        "C18",
		technique: "abstract interpretation of queries that succeed, fail, panic or are stopped, followed by queries judged against the unchanged rules and links",
		rules: map[string]string{
			"trace": "after a query no lock is held, the rules and links are those of before, and every query answers from them",
		},
		run:    runC18,
		shared: map[string]bool{"closure": true, "explicit": true, "domains": true},
	})
}

var _ = fmt.Sprint
var _ = types.NewSlice
