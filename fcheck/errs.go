package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// effectVal returns a value of the repository's effect type.
func (c *C) effectVal(name string) Val { return c.konst("model/eft", name) }

// options builds a []ContextOption.
func (c *C) ctxOption(st *State, fn string, v Val) (*State, Val) {
	o := c.one(c.call(st, c.fn("", fn), v), fn)
	return o.st, &Iface{c.typ("", "ContextOption"), o.rets[0]}
}

// decision is the outcome of one of the deciding/querying entry points.
type decision struct {
	api     string
	o       Outcome
	allowed Val // nil for queries
	err     Val
	rules   []Val
}

type apiCall struct {
	name string
	run  func(st *State) []decision
}

// deciders lists the entry points which evaluate a matcher for a request.
func (c *C) deciders(enf, model Val, opts func(st *State) (*State, []Val), req []Val) []apiCall {
	et := c.ptr("", "Enforcer")
	m := func(n string) *ssa.Function { return c.meth(et, n) }
	params := func(st *State) (*State, Val) {
		st, os := opts(st)
		return st, c.anys(st, append(append([]Val{}, os...), req...)...)
	}
	context := func(st *State, k func(st *State, ctx Val) []decision) []decision {
		st, os := opts(st)
		var es []Val
		for _, o := range os {
			es = append(es, o.(*Iface).val)
		}
		var out []decision
		for _, o := range c.call(st, c.fn("", "NewContext"), &Iface{c.ptr("model", "Model"), model}, st.newSlice(types.NewSlice(c.typ("", "ContextOption")), es)) {
			if o.kind == oRet && c.isErr(o.st, o.rets[1]) == tNo {
				out = append(out, k(o.st, o.rets[0])...)
			} else if o.kind == oPanic {
				out = append(out, decision{o: o})
			}
		}
		return out
	}
	conv := func(api string, os []Outcome, mark *Event, k func(d *decision)) []decision {
		var out []decision
		for _, o := range os {
			d := decision{api: api, o: o}
			if o.kind == oRet {
				k(&d)
				if d.rules == nil {
					d.rules = callbackArgs(o.st, mark)
				}
			}
			out = append(out, d)
		}
		return out
	}
	enforced := func(d *decision) { d.allowed, d.err = d.o.rets[0], d.o.rets[1] }
	filtered := func(d *decision) {
		d.err = d.o.rets[1]
		d.rules = append([]Val{}, c.listOf(d.o.st, d.o.rets[0])...)
	}
	ranged := func(d *decision) { d.err = d.o.rets[0] }
	return []apiCall{
		{"Enforcer.Enforce", func(st *State) []decision {
			mark := st.trace
			st, ps := params(st.clone())
			return conv("Enforcer.Enforce", c.call(st, m("Enforce"), enf, ps), mark, enforced)
		}},
		{"Enforcer.EnforceWithContext", func(st *State) []decision {
			return context(st.clone(), func(st *State, ctx Val) []decision {
				return conv("Enforcer.EnforceWithContext", c.call(st, m("EnforceWithContext"), enf, ctx, c.anys(st, req...)), st.trace, enforced)
			})
		}},
		{"Enforcer.Filter", func(st *State) []decision {
			st, ps := params(st.clone())
			return conv("Enforcer.Filter", c.call(st, m("Filter"), enf, ps), st.trace, filtered)
		}},
		{"Enforcer.FilterWithContext", func(st *State) []decision {
			return context(st.clone(), func(st *State, ctx Val) []decision {
				return conv("Enforcer.FilterWithContext", c.call(st, m("FilterWithContext"), enf, ctx, c.anys(st, req...)), st.trace, filtered)
			})
		}},
		{"Enforcer.RangeMatches", func(st *State) []decision {
			st, ps := params(st.clone())
			return conv("Enforcer.RangeMatches", c.call(st, m("RangeMatches"), enf, ps, collector(boolean(true))), st.trace, ranged)
		}},
		{"Enforcer.RangeMatchesWithContext", func(st *State) []decision {
			return context(st.clone(), func(st *State, ctx Val) []decision {
				return conv("Enforcer.RangeMatchesWithContext", c.call(st, m("RangeMatchesWithContext"), enf, ctx, c.anys(st, req...), collector(boolean(true))), st.trace, ranged)
			})
		}},
	}
}

// faultyEffector may fail on every call; it then returns any effect together with the error.
func (c *C) faultyEffector() *Iface {
	return c.fake("faultyEffector", func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		var outs []Outcome
		t := c.typ("model/types", "Effect")
		for _, b := range x.fails(st, "MergeEffects", nil, site) {
			if b.v {
				for _, e := range []string{"Allow", "Indeterminate", "Deny"} {
					outs = append(outs, ret(b.st.clone(), &Const{c.effectVal(e).(*Const).c, t}, c.nilStrs(), newError(str("effector")))...)
				}
				continue
			}
			for _, e := range []string{"Allow", "Indeterminate"} {
				outs = append(outs, ret(b.st.clone(), &Const{c.effectVal(e).(*Const).c, t}, c.nilStrs(), nilErr)...)
			}
		}
		return outs
	}, c.typ("model/effector", "IEffector"))
}

// faultyRoles is a role manager whose HasLink may fail; links are an arbitrary predicate.
func (c *C) faultyRoles() *Iface {
	return c.fake("roleManager", func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		var outs []Outcome
		var as []Val
		for _, a := range args {
			as = append(as, st.snap(a))
		}
		switch method {
		case "HasLink":
			for _, b := range x.fails(st, "HasLink", as, site) {
				if b.v {
					outs = append(outs, ret(b.st, boolean(false), newError(str("role manager")))...)
				} else {
					outs = append(outs, ret(b.st, T("in:linked", tBool, as...), nilErr)...)
				}
			}
			return outs
		case "AddLink", "DeleteLink":
			for _, b := range x.fails(st, method, as, site) {
				if b.v {
					outs = append(outs, ret(b.st, boolean(false), newError(str("role manager")))...)
				} else {
					b.st.event(&Event{kind: "link", name: method, args: as, pos: posOf(site)})
					outs = append(outs, ret(b.st, boolean(true), nilErr)...)
				}
			}
			return outs
		case "Clear":
			for _, b := range x.fails(st, method, as, site) {
				if b.v {
					outs = append(outs, ret(b.st, newError(str("role manager")))...)
				} else {
					outs = append(outs, ret(b.st, nilErr)...)
				}
			}
			return outs
		case "GetRoles", "GetUsers":
			for _, b := range x.fails(st, method, as, site) {
				if b.v {
					outs = append(outs, ret(b.st, c.nilStrs(), newError(str("role manager")))...)
				} else {
					outs = append(outs, ret(b.st, c.nilStrs(), nilErr)...)
				}
			}
			return outs
		}
		return ret(st)
	}, c.typ("rbac", "IRoleManager"))
}

func faults(st *State, mark *Event) []*Event { return eventsOf(st, mark, "fault") }

// checkFaults: faults surface, and nothing else fails.
func (c *C) checkFaults(d decision, api string, mark *Event, what string) {
	if d.api != "" {
		api = d.api
	}
	if !c.noPanic("surface", api, d.o) {
		return
	}
	st := d.o.st
	fs := faults(st, mark)
	if len(fs) == 0 {
		c.ob("clean", api, negate(c.isErr(st, d.err)), st, token.NoPos, "%s: nothing failed but the error %s is returned", what, st.show(d.err))
		return
	}
	c.ob("surface", api, c.isErr(st, d.err), st, fs[0].pos, "%s: %s failed but no error is returned", what, fs[0].name)
	if d.allowed != nil {
		c.ob("deny", api, negate(c.truth(st, d.allowed)), st, fs[0].pos, "%s: %s failed but the request is allowed", what, fs[0].name)
	}
}

func noOptions(st *State) (*State, []Val) { return st, nil }

func init() {
	register(&Check{
		id:        "C01",
		technique: "abstract interpretation of the decision entry points with failing user functions, role managers and effectors (fault propagation on every path)",
		rules: map[string]string{
			"surface":   "if a matcher function, a role manager, an effector or an expression of a rule fails while a request is evaluated, the entry point returns an error",
			"deny":      "Enforce never allows a request together with an error",
			"clean":     "no error is returned if nothing failed",
			"undefined": "a matcher which reads an undefined or missing value returns an error if the value is needed",
			"update":    "an error of a role manager is returned by AddRule and RemoveRule, the change is not reported as done",
		},
		run: runC01,
	})
}

func runC01(c *C) {
	req := c.reqVals()
	rules := [][]Val{inVals("x", 3), inVals("y", 3)}
	effects := []string{"some(where (p.eft == allow))"}
	if c.thorough {
		effects = append(effects, "!some(where (p.eft == deny))", "some(where (p.eft == allow)) && !some(where (p.eft == deny))")
	}
	// failing matcher functions
	cases := []string{
		`f(p.a)`,
		`f(r.x) && r.y == p.b`,
		`r.x == p.a && f(p.c)`,
		`r.x == p.a && (r.y == p.b || f(p.c))`,
		`(r.x == p.a || h(r.x, p.b)) && f(p.c)`,
		`f(p.a) || h(r.x, p.b)`,
		`r.x == p.a && f(p.b) && h(p.a, p.c)`,
		`!f(p.a) && r.y == p.b`,
	}
	for _, effect := range effects {
		for _, expr := range cases {
			m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, effect, c.fnSet(true))
			st, enf := c.enforcer(m.st, m.model)
			n := 2
			if !c.thorough && len(expr) > 36 {
				n = 1
			}
			ops := []string{"add 0", "add 1"}[:n]
			for _, h := range c.applyAll(ruleHist{st: st}, m, ops, rules) {
				c.decideAll(h.st, enf, m.model, expr, effect, req, h.desc)
			}
		}
	}
	// expressions inside of rules
	{
		m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, effects[0], c.fnSet(true))
		st, enf := c.enforcer(m.st, m.model)
		for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, rules) {
			for _, expr := range []string{`eval(p.c)`, `r.x == p.a && eval(p.c)`, `r.x == p.a && (eval(p.b) || f(p.c))`} {
				c.decideAll(h.st, enf, m.model, expr, effects[0], req, h.desc)
			}
		}
	}
	// failing role manager, failing effector
	{
		st, model := c.newModel(c.start(), [3]string{"r", "r", "x, y"}, [3]string{"p", "p", "a, b, c"}, [3]string{"g", "g", "_,_"}, [3]string{"e", "e", effects[0]})
		o := c.one(c.call(st, c.m("model", "Model", "SetRoleManager"), model, str("g"), c.faultyRoles()), "SetRoleManager")
		m := &mm{st: o.st, model: model, args: []string{"a", "b", "c"}, key: "p"}
		st, enf := c.enforcer(o.st, model)
		for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, rules) {
			for _, expr := range []string{`g(r.x, p.a)`, `g(r.x, p.a) && r.y == p.b`, `r.y == p.b && g(r.x, p.a)`} {
				c.decideAll(h.st, enf, m.model, expr, effects[0], req, h.desc)
			}
		}
		for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, rules) {
			c.updateFaults(h.st, enf, model)
		}
	}
	{
		m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, effects[0], nil)
		st, enf := c.enforcer(m.st, m.model)
		eff := c.faultyEffector()
		for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, rules) {
			for _, expr := range []string{"r.x == p.a", "r.y == p.b || r.x == p.a"} {
				c.scenario("%sevaluate %q with a failing effector", h.desc, expr)
				opts := func(st *State) (*State, []Val) {
					st, a := c.ctxOption(st, "SetMatcher", &Iface{tString, str(expr)})
					st, b := c.ctxOption(st, "SetEffector", eff)
					return st, []Val{a, b}
				}
				for _, api := range c.deciders(enf, m.model, opts, req)[:2] {
					mark := h.st.trace
					for _, d := range api.run(h.st) {
						c.checkFaults(d, api.name, mark, "failing effector")
					}
				}
			}
		}
	}
	c.undefinedValues(req, rules)
}

func (c *C) decideAll(st *State, enf, model Val, expr, effect string, req []Val, desc string) {
	c.scenario("%sevaluate %q with effect %q", desc, expr, effect)
	opts := func(st *State) (*State, []Val) {
		st, a := c.ctxOption(st, "SetMatcher", &Iface{tString, str(expr)})
		return st, []Val{a}
	}
	for _, api := range c.deciders(enf, model, opts, req) {
		mark := st.trace
		for _, d := range api.run(st) {
			c.checkFaults(d, api.name, mark, expr)
		}
	}
}

// updateFaults: errors of the role manager reach the caller of AddRule/RemoveRule.
func (c *C) updateFaults(st *State, enf, model Val) {
	rule := func(st *State) Val { return c.strs(st, str("g"), in("u"), in("v")) }
	rules := func(st *State) Val { return c.strss(st, rule(st)) }
	for _, op := range []string{"AddRule", "RemoveRule", "AddRules", "RemoveRules"} {
		for _, t := range []struct {
			name string
			typ  types.Type
			recv Val
		}{{"Model", c.ptr("model", "Model"), model}, {"Enforcer", c.ptr("", "Enforcer"), enf}} {
			many := op == "AddRules" || op == "RemoveRules"
			if many && t.name == "Model" {
				continue
			}
			c.scenario("%s.%s of a role rule with a failing role manager", t.name, op)
			s := st.clone()
			mark := s.trace
			var arg Val
			if many {
				arg = rules(s)
			} else {
				arg = rule(s)
			}
			for _, o := range c.call(s, c.meth(t.typ, op), t.recv, arg) {
				cons := t.name + "." + op
				if !c.noPanic("update", cons, o) {
					continue
				}
				fs := faults(o.st, mark)
				if len(fs) == 0 {
					c.ob("update", cons, negate(c.isErr(o.st, o.rets[len(o.rets)-1])), o.st, token.NoPos, "nothing failed but an error is returned")
					continue
				}
				ok := c.isErr(o.st, o.rets[len(o.rets)-1])
				if !many {
					ok = allOf(ok, negate(c.truth(o.st, o.rets[0])))
				}
				c.ob("update", cons, ok, o.st, fs[0].pos, "%s failed but %s returns %s", fs[0].name, cons, showVals(o.st, o.rets))
			}
		}
	}
}

// undefinedValues: values which do not exist are errors.
func (c *C) undefinedValues(req []Val, rules [][]Val) {
	type uc struct {
		expr string
		req  []Val
	}
	for _, u := range []uc{
		{`r.nope == p.a`, req},
		{`r.x == p.nope`, req},
		{`r.y == p.a`, req[:1]},
		{`q == p.a`, req},
		{`f(r.nope) || r.x == p.a`, req},
	} {
		m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
		st, enf := c.enforcer(m.st, m.model)
		opts := func(st *State) (*State, []Val) {
			st, a := c.ctxOption(st, "SetMatcher", &Iface{tString, str(u.expr)})
			return st, []Val{a}
		}
		for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, rules) {
			c.scenario("%sevaluate %q with %d request values", h.desc, u.expr, len(u.req))
			for _, api := range c.deciders(enf, m.model, opts, u.req) {
				for _, d := range api.run(h.st) {
					if !c.noPanic("undefined", api.name, d.o) {
						continue
					}
					r := c.isErr(d.o.st, d.err)
					if d.allowed != nil {
						r = allOf(r, negate(c.truth(d.o.st, d.allowed)))
					}
					c.ob("undefined", api.name, r, d.o.st, token.NoPos, "%q reads a value that does not exist (%d request values) but no error is returned", u.expr, len(u.req))
				}
			}
		}
	}
}

var _ = constant.MakeBool
