package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

type effSpec struct {
	expr string
	ref  func(allow, deny bool) bool
}

var effSpecs = []effSpec{
	{"some(where (p.eft == allow))", func(a, d bool) bool { return a }},
	{"!some(where (p.eft == deny))", func(a, d bool) bool { return !d }},
	{"some(where (p.eft == allow)) && !some(where (p.eft == deny))", func(a, d bool) bool { return a && !d }},
}

func init() {
	register(&Check{
		id:        "C02",
		technique: "abstract interpretation of Enforce over opaque rules and effect values, all evaluation orders of the rules",
		rules: map[string]string{
			"decision":    "the decision is the one the effect expression defines for the effects of the matching rules, in whatever order they are evaluated",
			"unsupported": "an effect expression that is not supported is an error, it never allows a request",
			"protocol":    "a custom effector is called after each matching rule with the effects and rules gathered so far, once more with complete = true if it has not decided, and its last answer is the decision",
		},
		run: runC02,
	})
}

type effWay struct {
	name string
	opts func(st *State, expr string) (*State, []Val)
}

func runC02(c *C) {
	c.x.permute = true
	req := []Val{in("rx")}
	n := 2
	if c.thorough {
		n = 3
	}
	defsOf := []struct {
		args string
		eft  int // column of the effect, -1: none
		w    int
	}{{"a, eft", 1, 2}, {"eft, a", 0, 2}, {"a, b", -1, 2}}
	ways := []effWay{
		{"definition e of the model", func(st *State, expr string) (*State, []Val) { return st, nil }},
		{"SetEffector(expression)", func(st *State, expr string) (*State, []Val) {
			st, o := c.ctxOption(st, "SetEffector", &Iface{tString, str(expr)})
			return st, []Val{o}
		}},
		{"SetEffector(definition)", func(st *State, expr string) (*State, []Val) {
			o := c.one(c.call(st, c.fn("model/defs", "NewEffectDef"), str("x"), str(expr)), "NewEffectDef")
			st, v := c.ctxOption(o.st, "SetEffector", &Iface{c.ptr("model/defs", "EffectDef"), o.rets[0]})
			return st, []Val{v}
		}},
		{"SetEffector(key)", func(st *State, expr string) (*State, []Val) {
			st, o := c.ctxOption(st, "SetEffector", &Iface{tString, str("e2")})
			return st, []Val{o}
		}},
	}
	other := func(expr string) string {
		for i, e := range effSpecs {
			if e.expr == expr {
				return effSpecs[(i+1)%len(effSpecs)].expr
			}
		}
		return effSpecs[0].expr
	}
	for _, d := range defsOf {
		for _, es := range effSpecs {
			for wi, way := range ways {
				if wi > 0 && d.args != "a, eft" {
					continue
				}
				e, e2 := es.expr, es.expr
				if wi > 0 {
					e = other(es.expr)
				}
				rules := [][]Val{inVals("x", d.w), inVals("y", d.w), inVals("z", d.w)}
				st, model := c.newModel(c.start(), [3]string{"r", "r", "x"}, [3]string{"p", "p", d.args}, [3]string{"e", "e", e}, [3]string{"e", "e2", e2}, [3]string{"m", "m", "r.x == p.a"})
				st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), model), "BuildMatchers").st
				st, enf := c.enforcer(st, model)
				m := &mm{st: st, model: model, key: "p"}
				ops := []string{"add 0", "add 1", "add 2"}
				k := n
				if wi > 0 {
					k = 2
				}
				for i := 1; i <= k; i++ {
					for _, h := range c.applyAll(ruleHist{st: st}, m, ops[:i], rules) {
						if len(h.vals) != i {
							continue // equal rules: fewer rules
						}
						c.scenario("%sEnforce, p = %s, effect %q by %s", h.desc, d.args, es.expr, way.name)
						opts := func(st *State) (*State, []Val) { return way.opts(st, es.expr) }
						for _, api := range c.deciders(enf, model, opts, req)[:2] {
							for _, dc := range api.run(h.st) {
								c.checkDecision(dc, api.name, d.args, d.eft, h, es, req)
							}
						}
					}
				}
			}
		}
	}
	c.effectLists()
	// unsupported expressions
	for _, e := range []string{"some(where (p.eft == deny))", "allow", "priority(p.eft) || deny"} {
		for _, way := range ways {
			st, model := c.newModel(c.start(), [3]string{"r", "r", "x"}, [3]string{"p", "p", "a, eft"}, [3]string{"e", "e", e}, [3]string{"e", "e2", e}, [3]string{"m", "m", "r.x == p.a"})
			st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), model), "BuildMatchers").st
			st, enf := c.enforcer(st, model)
			m := &mm{st: st, model: model, key: "p"}
			for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, [][]Val{inVals("x", 2)}) {
				c.scenario("%sEnforce with the unsupported effect %q by %s", h.desc, e, way.name)
				opts := func(st *State) (*State, []Val) { return way.opts(st, e) }
				for _, api := range c.deciders(enf, model, opts, req)[:2] {
					for _, d := range api.run(h.st) {
						if c.noPanic("unsupported", api.name, d.o) {
							c.ob("unsupported", api.name, allOf(c.isErr(d.o.st, d.err), negate(c.truth(d.o.st, d.allowed))), d.o.st, token.NoPos, "effect %q is not supported but Enforce returns %s", e, showVals(d.o.st, d.o.rets))
						}
					}
				}
			}
		}
	}
	c.x.permute = false
	c.effectorProtocol(req)
}

// effectLists: lists of three and more matching rules with known effects.
func (c *C) effectLists() {
	c.x.permute = false
	effs := []string{"allow", "deny", "other", ""}
	var lists [][]string
	var rec func(l []string, n int)
	rec = func(l []string, n int) {
		if n == 0 {
			lists = append(lists, append([]string{}, l...))
			return
		}
		for _, e := range effs[:3] {
			rec(append(l, e), n-1)
		}
	}
	rec(nil, 3)
	rec(nil, 4)
	if c.thorough {
		rec(nil, 5)
	}
	for i := range effs {
		for j := range effs {
			l := []string{}
			for k := 0; k < 9; k++ {
				l = append(l, effs[i])
			}
			l[4+i] = effs[j]
			lists = append(lists, l, append([]string{""}, l...))
		}
	}
	for _, es := range effSpecs {
		st, model := c.newModel(c.start(), [3]string{"r", "r", "x"}, [3]string{"p", "p", "a, eft, n"}, [3]string{"e", "e", es.expr}, [3]string{"m", "m", "r.x == p.a"})
		st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), model), "BuildMatchers").st
		st, enf := c.enforcer(st, model)
		for _, l := range lists {
			s := st.clone()
			allow, deny := false, false
			for i, e := range l {
				s = c.one(c.call(s, c.enf("AddRule"), enf, c.strs(s, strVals([]string{"p", "u", e, string(rune('a' + i))})...)), "AddRule").st
				allow, deny = allow || e == "allow" || e == "", deny || e == "deny"
			}
			c.scenario("Enforce with the effects %q, effect %q", l, es.expr)
			for _, o := range c.call(s, c.enf("Enforce"), enf, c.anys(s, str("u"))) {
				if !c.noPanic("decision", "Enforcer.Enforce", o) {
					continue
				}
				t := c.truth(o.st, o.rets[0])
				if !es.ref(allow, deny) {
					t = negate(t)
				}
				c.ob("decision", "Enforcer.Enforce", allOf(t, negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "the matching rules have the effects %q: Enforce returns %s, effect %q", l, showVals(o.st, o.rets), es.expr)
			}
		}
	}
	c.x.permute = true
}

func (c *C) checkDecision(d decision, api, args string, eftCol int, h ruleHist, es effSpec, req []Val) {
	if !c.noPanic("decision", api, d.o) {
		return
	}
	// which rules match, and what is their effect
	type world struct {
		st          *State
		allow, deny bool
	}
	a := 1 - eftCol
	if eftCol < 0 {
		a = 0
	}
	cur := []world{{st: d.o.st}}
	for _, v := range h.vals {
		var nxt []world
		for _, w := range cur {
			for _, b := range c.splitEq(w.st, req[0], v[a]) {
				if !b.v {
					nxt = append(nxt, world{b.st, w.allow, w.deny})
					continue
				}
				if eftCol < 0 {
					nxt = append(nxt, world{b.st, true, w.deny})
					continue
				}
				for _, al := range c.splitEq(b.st, v[eftCol], str("allow")) {
					if al.v {
						nxt = append(nxt, world{al.st, true, w.deny})
						continue
					}
					for _, em := range c.splitEq(al.st, v[eftCol], str("")) {
						if em.v {
							nxt = append(nxt, world{em.st, true, w.deny})
							continue
						}
						for _, de := range c.splitEq(em.st, v[eftCol], str("deny")) {
							nxt = append(nxt, world{de.st, w.allow, w.deny || de.v})
						}
					}
				}
			}
		}
		cur = nxt
	}
	for _, w := range cur {
		want := es.ref(w.allow, w.deny)
		got := c.truth(w.st, d.allowed)
		if !want {
			got = negate(got)
		}
		c.ob("decision", api, allOf(got, negate(c.isErr(w.st, d.err))), w.st, token.NoPos, "effect %q, p = %s, matching rules allow=%v deny=%v: Enforce returns %s", es.expr, args, w.allow, w.deny, showVals(w.st, d.o.rets))
	}
}

// effectorProtocol: the calls of a custom effector.
func (c *C) effectorProtocol(req []Val) {
	t := c.typ("model/types", "Effect")
	eff := c.fake("customEffector", func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		var outs []Outcome
		for _, e := range []string{"Allow", "Indeterminate", "Deny"} {
			s := st.clone()
			v := &Const{c.effectVal(e).(*Const).c, t}
			s.event(&Event{kind: "merge", name: e, args: []Val{s.snap(args[0]), s.snap(args[1]), s.norm(args[2])}, res: []Val{v}, pos: posOf(site)})
			outs = append(outs, ret(s, v, c.nilStrs(), nilErr)...)
		}
		return outs
	}, c.typ("model/effector", "IEffector"))
	st, model := c.newModel(c.start(), [3]string{"r", "r", "x"}, [3]string{"p", "p", "a, eft"}, [3]string{"m", "m", "r.x == p.a"})
	st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), model), "BuildMatchers").st
	st, enf := c.enforcer(st, model)
	m := &mm{st: st, model: model, key: "p"}
	rules := [][]Val{{in("x0"), str("allow")}, {in("y0"), str("deny")}, {in("z0"), str("other")}}
	var hs []ruleHist
	for _, ops := range [][]string{{"add 0", "add 1"}, {"add 0", "add 2"}, {"add 1", "add 2"}} {
		hs = append(hs, c.applyAll(ruleHist{st: st}, m, ops, rules)...)
	}
	for _, h := range hs {
		c.scenario("%sEnforce with a custom effector", h.desc)
		opts := func(st *State) (*State, []Val) {
			st, o := c.ctxOption(st, "SetEffector", eff)
			return st, []Val{o}
		}
		for _, api := range c.deciders(enf, model, opts, req)[:2] {
			mark := h.st.trace
			for _, d := range api.run(h.st) {
				if !c.noPanic("protocol", api.name, d.o) {
					continue
				}
				// split on the matching rules
				cur := []specRes{{d.o.st, nil}}
				for _, v := range h.vals {
					var nxt []specRes
					for _, w := range cur {
						for _, b := range c.splitEq(w.st, req[0], v[0]) {
							nxt = append(nxt, specRes{b.st, append(append([]bool{}, w.mask...), b.v)})
						}
					}
					cur = nxt
				}
				for _, w := range cur {
					matching := 0
					for _, b := range w.mask {
						if b {
							matching++
						}
					}
					ms := eventsOf(w.st, mark, "merge")
					if matching == 0 {
						// nothing matches: only the final call
						ok := len(ms) == 1
						c.ob("protocol", api.name, triOf(ok && isTrue(ms[0].args[2])), w.st, token.NoPos, "no rule matches: the effector is called %d times", len(ms))
						if !ok {
							continue
						}
					}
					r := tYes
					why := ""
					for i, e := range ms {
						last := i == len(ms)-1
						complete := isTrue(e.args[2])
						want := i + 1
						if complete {
							want = matching
						}
						ne, nm := listLen(e.args[0]), listLen(e.args[1])
						switch {
						case ne != want || nm != want:
							r, why = tNo, "the gathered effects and rules do not have the expected length"
						case complete && !last:
							r, why = tNo, "the effector is called after the final call"
						case e.name != "Indeterminate" && !last:
							r, why = tNo, "the effector is called although it has decided"
						case last && e.name == "Indeterminate" && !complete:
							r, why = tNo, "the final call is missing"
						}
						// the gathered effects belong to the gathered rules
						for k := 0; k < ne && k < nm && r == tYes; k++ {
							rule, _ := e.args[1].(*Term).args[k].(*Term)
							if rule == nil || len(rule.args) != 3 {
								r, why = tNo, "a gathered rule is not a rule of the policy"
								break
							}
							es, _ := constStr(w.st.norm(rule.args[2]))
							wantE := c.effectVal("Allow")
							if es == "deny" {
								wantE = c.effectVal("Deny")
							} else if es == "other" {
								wantE = c.effectVal("Indeterminate")
							}
							if K(e.args[0].(*Term).args[k]) != K(wantE) {
								r, why = tNo, "the effects do not belong to the rules"
							}
						}
					}
					if len(ms) == 0 {
						r, why = tNo, "the effector is not called"
					} else if r == tYes {
						want := ms[len(ms)-1].name == "Allow"
						got := c.truth(w.st, d.allowed)
						if !want {
							got = negate(got)
						}
						r = allOf(got, negate(c.isErr(w.st, d.err)))
						why = "the decision is not the last answer of the effector"
					}
					c.ob("protocol", api.name, r, w.st, token.NoPos, "%s: %d matching rules, calls%s, Enforce returns %s", why, matching, showEvents(w.st, ms), showVals(w.st, d.o.rets))
				}
			}
		}
	}
}

func isTrue(v Val) bool { b, ok := constBool(v); return ok && b }

func listLen(v Val) int {
	if t, ok := v.(*Term); ok && t.op == "list" {
		return len(t.args)
	}
	if s, ok := v.(*Slice); ok {
		return s.len
	}
	if isNilConst(v) {
		return 0
	}
	return -1
}
