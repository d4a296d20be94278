package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: instances are independent. Everything observable of one instance is read before and after operations on another one.

type probeRes struct {
	st   *State
	vals []Val
	set  bool // the order of the values is not defined
}

type probe struct {
	name string
	run  func(st *State) []Outcome
	vals func(o Outcome, mark *Event) ([]Val, bool)
	once bool // asking changes the answer
}

type indepOp struct {
	name string
	run  func(st *State) []Outcome
}

func flagErr(c *C, st *State, v Val) Val { return boolean(c.isErr(st, v) == tYes) }

// results reads a value and an error.
func (c *C) results(o Outcome, mark *Event) ([]Val, bool) {
	var vs []Val
	for _, r := range o.rets {
		r = o.st.norm(r)
		if t := typeOf(r); t != nil && types.Identical(t, errType) || isNilConst(r) {
			vs = append(vs, boolean(!isNilConst(r)))
			continue
		}
		if i, ok := r.(*Iface); ok {
			vs = append(vs, flagErr(c, o.st, i))
			continue
		}
		vs = append(vs, o.st.snapDeep(r))
	}
	return vs, false
}

func (c *C) runProbe(rule string, p probe, st *State) []probeRes {
	var out []probeRes
	mark := st.trace
	for _, o := range p.run(st.clone()) {
		if !c.noPanic(rule, p.name, o) {
			continue
		}
		vs, set := p.vals(o, mark)
		out = append(out, probeRes{o.st, vs, set})
	}
	return out
}

// indep judges that operations do not change what the probes read; events with one of the labels must not happen.
func (c *C) indep(rule, what string, st *State, probes []probe, ops []indepOp, quiet []string, depth int) {
	var rec func(h []*State, p probe, first []probeRes, names []string, left int)
	rec = func(_ []*State, p probe, first []probeRes, names []string, left int) {
		for _, op := range ops {
			ns := append(append([]string{}, names...), op.name)
			c.scenario("%s: %s, %s, %s", what, p.name, strings.Join(ns, ", "), p.name)
			var next []probeRes
			for _, f := range first {
				mark := f.st.trace
				for _, o := range op.run(f.st.clone()) {
					if !c.noPanic(rule, op.name, o) {
						continue
					}
					bad := ""
					for _, e := range o.st.events(mark) {
						for _, q := range quiet {
							if e.kind == "notify" && strings.HasPrefix(e.name, q+" ") {
								bad = e.kind + " " + e.name
							}
						}
					}
					for _, a := range adapterCalls(o.st, mark) {
						for _, q := range quiet {
							if a.label == q {
								bad = "the adapter is called"
							}
						}
					}
					c.ob(rule, op.name, triOf(bad == ""), o.st, token.NoPos, "%s on one instance reaches the other one: %s", op.name, bad)
					for _, g := range c.runProbe(rule, p, o.st) {
						t := tYes
						if f.set {
							t = c.sameSet(g.st, g.vals, f.vals)
						} else if len(f.vals) != len(g.vals) {
							t = tNo
						} else {
							for i := range f.vals {
								t = allOf(t, c.same(g.st, f.vals[i], g.vals[i]))
							}
						}
						c.ob(rule, p.name, t, g.st, token.NoPos, "%s is %s, after %s on the other instance it is %s", p.name, showVals(g.st, f.vals), strings.Join(ns, ", "), showVals(g.st, g.vals))
						n := g.st
						if p.once {
							n = o.st.graft(g.st)
						}
						next = append(next, probeRes{n, f.vals, f.set})
					}
				}
			}
			if left > 1 {
				rec(nil, p, next, ns, left-1)
			}
		}
	}
	for _, p := range probes {
		c.scenario("%s: %s", what, p.name)
		first := c.runProbe(rule, p, st)
		if len(first) == 0 {
			panic(abort{"probe " + p.name + " has no result"})
		}
		if !p.once {
			rec(nil, p, first, nil, depth)
		}
		// the operations happen before anything was asked
		var cold []probeRes
		for _, f := range first {
			cold = append(cold, probeRes{st.graft(f.st), f.vals, f.set})
		}
		rec(nil, p, cold, []string{"(not asked before)"}, depth)
	}
}

// graft returns the state with the assumptions of a later one.
func (st *State) graft(f *State) *State {
	n, m := st.clone(), f.clone()
	n.facts, n.repr, n.neq, n.bound, n.nfresh = m.facts, m.repr, m.neq, m.bound, m.nfresh
	return n
}

// isys is a complete enforcer.
type isys struct {
	tag        string
	enf, model Val
	rms        map[string]Val
}

func (c *C) newSys(st *State, tag string, loads [][]Val) (*State, *isys) {
	s := &isys{tag: tag, rms: map[string]Val{}}
	st, s.model = c.newModel(st, [3]string{"r", "r", "x, y"}, [3]string{"p", "p", "a, b"}, [3]string{"p", "p2", "a, b, eft"}, [3]string{"g", "g", "_,_"}, [3]string{"g", "g2", "_,_,_"}, [3]string{"e", "e", "some(where (p.eft == allow))"}, [3]string{"m", "m", "f(r.x, p.a) && r.y == p.b"}, [3]string{"m", "m2", "g(r.x, p.a)"}, [3]string{"m", "m3", "g.user == r.x"})
	st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), s.model, str("f"), boolFn("f"+tag, false)), "SetFunction").st
	st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), s.model), "BuildMatchers").st
	st, s.enf = c.enforcerWith(st, s.model, c.adapter(tag, 0, loads, "SimpleAdapter"))
	for _, k := range []string{"g", "g2"} {
		o := c.one(c.call(st, c.m("model", "Model", "GetRoleManager"), s.model, str(k)), "GetRoleManager")
		st, s.rms[k] = o.st, o.rets[0]
	}
	return st, s
}

func (c *C) fill(st *State, s *isys, role string, vs []Val) *State {
	for _, r := range [][]Val{append([]Val{str("p")}, vs...), {str("g"), str("u"), str(role)}, {str("g2"), str("u"), str(role), str("d")}} {
		st = c.one(c.call(st, c.enf("AddRule"), s.enf, c.strs(st, r...)), "AddRule").st
	}
	for _, e := range []string{"RULE_ADDED", "RULE_REMOVED"} {
		st = c.listen(st, s.model, c.ptr("model", "Model"), c.konst("model", e), notifier(s.tag+" "+e))
	}
	for _, k := range []string{"p", "p2", "g", "g2"} {
		o := c.one(c.call(st, c.m("model", "Model", "GetPolicy"), s.model, str(k)), "GetPolicy")
		st = o.st
		for _, e := range []string{"EVT_RULE_ADDED", "EVT_RULE_REMOVED", "EVT_CLEARED"} {
			st = c.one(c.icall(st, o.rets[0], "AddListener", c.konst("model/policy", e), notifier(s.tag+" "+k+" "+e)), "AddListener").st
		}
	}
	return st
}

func (c *C) sysProbes(s *isys) []probe {
	mm := func(n string) *ssa.Function { return c.m("model", "Model", n) }
	req := []Val{in("rx"), in("ry")}
	simple := func(name string, f func(st *State) []Outcome) probe {
		return probe{name: name + " of " + s.tag, run: f, vals: c.results}
	}
	sec := func(k string) Val { return &Const{constant.MakeInt64(int64(k[0])), tByte} }
	ps := []probe{
		simple("Enforce", func(st *State) []Outcome { return c.call(st, c.enf("Enforce"), s.enf, c.anys(st, req...)) }),
		simple("Enforce(m2)", func(st *State) []Outcome {
			st, o := c.ctxOption(st, "SetMatcher", &Iface{tString, str("m2")})
			return c.call(st, c.enf("Enforce"), s.enf, c.anys(st, o, str("u"), req[1]))
		}),
		{"Filter(m3) of " + s.tag, func(st *State) []Outcome {
			st, o := c.ctxOption(st, "SetMatcher", &Iface{tString, str("m3")})
			return c.call(st, c.enf("Filter"), s.enf, c.anys(st, o, str("u"), req[1]))
		}, func(o Outcome, mark *Event) ([]Val, bool) {
			return append(c.listOf(o.st, o.rets[0]), flagErr(c, o.st, o.rets[1])), true
		}, false},
		{"Filter of " + s.tag, func(st *State) []Outcome { return c.call(st, c.enf("Filter"), s.enf, c.anys(st, req...)) }, func(o Outcome, mark *Event) ([]Val, bool) {
			return append(c.listOf(o.st, o.rets[0]), flagErr(c, o.st, o.rets[1])), true
		}, false},
		{"RangeRules of " + s.tag, func(st *State) []Outcome {
			return c.call(st, mm("RangeRules"), s.model, collector(boolean(true)))
		}, func(o Outcome, mark *Event) ([]Val, bool) { return callbackArgs(o.st, mark), true }, false},
		simple("String", func(st *State) []Outcome { return c.call(st, mm("String"), s.model) }),
		simple("Enforce with an expression", func(st *State) []Outcome {
			st, o := c.ctxOption(st, "SetMatcher", &Iface{tString, str("r.x == p.b")})
			return c.call(st, c.enf("Enforce"), s.enf, c.anys(st, o, req[0], req[1]))
		}),
		{"the rules stored by Flush of " + s.tag, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), s.enf) }, func(o Outcome, mark *Event) ([]Val, bool) {
			vs, _ := c.results(o, mark)
			for _, w := range adapterCalls(o.st, mark) {
				for _, op := range w.ops {
					vs = append(vs, str(fmt.Sprint(w.label, op.add)), op.rule)
				}
			}
			return vs, false
		}, true},
		simple("Flush", func(st *State) []Outcome { return c.call(st, c.enf("Flush"), s.enf) }),
		{"SavePolicy of " + s.tag, func(st *State) []Outcome { return c.call(st, c.enf("SavePolicy"), s.enf) }, func(o Outcome, mark *Event) ([]Val, bool) {
			vs, _ := c.results(o, mark)
			for _, w := range adapterCalls(o.st, mark) {
				vs = append(vs, str(w.label))
			}
			return vs, true
		}, false},
	}
	for _, k := range []string{"g", "g2"} {
		k := k
		var dom []Val
		if k == "g2" {
			dom = []Val{str("d")}
		}
		for _, role := range []string{"ra", "rb"} {
			role := role
			ps = append(ps, simple("HasLink("+k+", u, "+role+")", func(st *State) []Outcome {
				return c.icall(st, s.rms[k], "HasLink", str("u"), str(role), c.strs(st, dom...))
			}))
		}
		ps = append(ps, simple("GetRoles("+k+")", func(st *State) []Outcome { return c.icall(st, s.rms[k], "GetRoles", str("u"), c.strs(st, dom...)) }))
	}
	for _, d := range [][2]string{{"p", "p2"}, {"g", "g"}, {"m", "m2"}, {"m", "m9"}, {"e", "e2"}} {
		d := d
		ps = append(ps, probe{"GetDef(" + d[1] + ") of " + s.tag, func(st *State) []Outcome { return c.call(st, mm("GetDef"), s.model, sec(d[0]), str(d[1])) }, func(o Outcome, mark *Event) ([]Val, bool) { return []Val{o.rets[1]}, false }, false})
	}
	for _, n := range []string{"AutosaveEnabled", "Enabled"} {
		n := n
		ps = append(ps, simple(n, func(st *State) []Outcome {
			o := c.one(c.call(st, c.enf("GetStorageController"), s.enf), "GetStorageController")
			return c.call(o.st, c.m("storage", "StorageController", n), o.rets[0])
		}))
	}
	return ps
}

func (c *C) sysOps(s *isys, vs []Val) []indepOp {
	mm := func(n string) *ssa.Function { return c.m("model", "Model", n) }
	sec := func(k string) Val { return &Const{constant.MakeInt64(int64(k[0])), tByte} }
	var ops []indepOp
	add := func(name string, f func(st *State) []Outcome) {
		ops = append(ops, indepOp{name + " of " + s.tag, f})
	}
	for _, r := range [][]Val{append([]Val{str("p")}, vs...), {str("p"), in("n1"), in("n2")}, {str("g"), str("u"), str("ra")}, {str("g"), str("u"), str("rb")}, {str("g2"), str("u"), str("rb"), str("d")}} {
		r := r
		for _, v := range []string{"AddRule", "RemoveRule"} {
			v := v
			add(fmt.Sprintf("%s(%s)", v, c.x.base.show(listTerm(r...))), func(st *State) []Outcome { return c.call(st, c.enf(v), s.enf, c.strs(st, r...)) })
		}
	}
	for _, k := range []string{"p", "g", "g2"} {
		k := k
		add("ClearPolicy("+k+")", func(st *State) []Outcome { return c.call(st, mm("ClearPolicy"), s.model, str(k)) })
	}
	for _, n := range []string{"LoadPolicy", "SavePolicy", "Flush"} {
		n := n
		add(n, func(st *State) []Outcome { return c.call(st, c.enf(n), s.enf) })
	}
	for _, d := range [][3]string{{"p", "p2", ""}, {"m", "m2", ""}, {"g", "g", ""}, {"m", "m9", "r.x == p.a"}, {"e", "e2", "!some(where (p.eft == deny))"}, {"m", "m2", "r.y == p.a"}, {"r", "r", "y, x"}, {"e", "e", "!some(where (p.eft == deny))"}, {"p", "p3", "a"}} {
		d := d
		if d[2] == "" {
			add("RemoveDef("+d[1]+")", func(st *State) []Outcome { return c.call(st, mm("RemoveDef"), s.model, sec(d[0]), str(d[1])) })
		} else {
			add("SetDef("+d[1]+")", func(st *State) []Outcome {
				return c.call(st, mm("SetDef"), s.model, sec(d[0]), str(d[1]), str(d[2]))
			})
		}
	}
	add("BuildMatchers", func(st *State) []Outcome { return c.call(st, mm("BuildMatchers"), s.model) })
	add("SetFunction(f)", func(st *State) []Outcome {
		return c.call(st, mm("SetFunction"), s.model, str("f"), boolFn("fNew", false))
	})
	add("RemoveFunction(f)", func(st *State) []Outcome { return c.call(st, mm("RemoveFunction"), s.model, str("f")) })
	add("SetRoleManager(g)", func(st *State) []Outcome {
		return c.call(st, mm("SetRoleManager"), s.model, str("g"), c.recorder("R"))
	})
	add("role matcher", func(st *State) []Outcome { return c.icall(st, s.rms["g"], "SetMatcher", c.matchers("roleMatcher")) })
	add("domain matcher", func(st *State) []Outcome {
		return c.icall(st, s.rms["g2"], "SetDomainMatcher", c.matchers("domMatcher"))
	})
	add("DeleteLink", func(st *State) []Outcome {
		return c.icall(st, s.rms["g"], "DeleteLink", str("u"), str("ra"), c.nilStrs())
	})
	add("Clear", func(st *State) []Outcome { return c.icall(st, s.rms["g2"], "Clear") })
	add("SetAdapter", func(st *State) []Outcome {
		return c.call(st, c.enf("SetAdapter"), s.enf, c.adapter("other", 0, nil, "SimpleAdapter"))
	})
	for _, o := range []string{"OptionAutosave", "OptionStorage"} {
		for _, v := range []bool{true, false} {
			o, v := o, v
			add(fmt.Sprintf("%s(%v)", o, v), func(st *State) []Outcome {
				q := c.one(c.call(st, c.fn("", o), boolean(v)), o)
				return c.call(q.st, c.enf("SetOption"), s.enf, q.rets[0])
			})
		}
	}
	add("Enforce", func(st *State) []Outcome { return c.call(st, c.enf("Enforce"), s.enf, c.anys(st, in("ox"), in("oy"))) })
	add("Enforce of the same request", func(st *State) []Outcome { return c.call(st, c.enf("Enforce"), s.enf, c.anys(st, in("rx"), in("ry"))) })
	add("Filter of the same request", func(st *State) []Outcome { return c.call(st, c.enf("Filter"), s.enf, c.anys(st, in("rx"), in("ry"))) })
	add("Enforce(m2) of the same request", func(st *State) []Outcome {
		st, o := c.ctxOption(st, "SetMatcher", &Iface{tString, str("m2")})
		return c.call(st, c.enf("Enforce"), s.enf, c.anys(st, o, str("u"), in("ry")))
	})
	add("Enforce with a new matcher", func(st *State) []Outcome {
		st, o := c.ctxOption(st, "SetMatcher", &Iface{tString, str("r.x == p.b")})
		return c.call(st, c.enf("Enforce"), s.enf, c.anys(st, o, in("ox"), in("oy")))
	})
	return ops
}

// freshOps create further instances.
func (c *C) freshOps() []indepOp {
	return []indepOp{
		{"a third model", func(st *State) []Outcome {
			st, s := c.newSys(st, "C", nil)
			return ret(c.fill(st, s, "rc", inVals("z", 2)), nilErr)
		}},
		{"fm.SetFunction(f)", func(st *State) []Outcome {
			return c.call(st, c.fn("model/fm", "SetFunction"), str("f"), boolFn("fGlobal", false))
		}},
		{"a default function map", func(st *State) []Outcome {
			o := c.one(c.call(st, c.fn("model/fm", "DefaultFunctionMap")), "DefaultFunctionMap")
			return c.call(o.st, c.m("model/fm", "FunctionMap", "SetFunction"), o.rets[0], str("f"), boolFn("fMap", false))
		}},
	}
}

func (c *C) indepSystems() {
	depth := 1
	if c.thorough {
		depth = 2
	}
	for _, same := range []bool{true, false} {
		av, bv := inVals("x", 2), inVals("y", 2)
		if same {
			bv = av
		}
		load := [][]Val{append([]Val{str("p")}, inVals("l", 2)...), {str("g"), str("u"), str("rb")}}
		st := c.start()
		if !same { // a function for all models
			st = c.one(c.call(st, c.fn("model/fm", "SetFunction"), str("shared"), boolFn("shared", false)), "SetFunction").st
		}
		st, a := c.newSys(st, "A", load)
		st, b := c.newSys(st, "B", load)
		st = c.fill(st, a, "ra", av)
		st = c.fill(st, b, "rb", bv)
		for _, dir := range []bool{true, false} {
			x, y, vs := a, b, av
			if !dir {
				x, y, vs = b, a, bv
			}
			ops := append(c.sysOps(x, vs), c.freshOps()...)
			if !dir && !c.thorough {
				// the later instance is changed, the earlier one observed
				c.indep("enforcers", "two enforcers", st, c.sysProbes(y), ops, []string{y.tag}, 1)
				continue
			}
			c.indep("enforcers", "two enforcers", st, c.sysProbes(y), ops, []string{y.tag}, depth)
		}
	}
}

// indepRoles: role managers made by the constructors.
func (c *C) indepRoles() {
	for _, kind := range []string{"RoleManager", "DomainManager"} {
		c.indepPatterns(kind)
		mk := c.newRM
		if kind == "DomainManager" {
			mk = c.newDM
		}
		t := c.ptr("rbac", kind)
		st, a := mk(c.start())
		st, b := mk(st)
		m := func(n string) *ssa.Function { return c.meth(t, n) }
		dom := func(st *State) Val {
			if kind == "DomainManager" {
				return c.strs(st, str("d"))
			}
			return c.nilStrs()
		}
		for i, rm := range []Val{a, b} {
			st = c.one(c.call(st, m("AddLink"), rm, str("u"), str([]string{"ra", "rb"}[i]), dom(st)), "AddLink").st
		}
		for i, rm := range []Val{a, b} {
			other := []Val{b, a}[i]
			var ps []probe
			for _, r := range []string{"ra", "rb"} {
				r := r
				ps = append(ps, probe{kind + ".HasLink(u, " + r + ")", func(st *State) []Outcome { return c.call(st, m("HasLink"), other, str("u"), str(r), dom(st)) }, c.results, false})
			}
			for _, n := range []string{"GetRoles", "GetDomains"} {
				n := n
				ps = append(ps, probe{kind + "." + n, func(st *State) []Outcome {
					as := []Val{other, str("u")}
					if n == "GetRoles" {
						as = append(as, dom(st))
					}
					return c.call(st, m(n), as...)
				}, c.results, false})
			}
			ops := []indepOp{
				{kind + ".DeleteLink", func(st *State) []Outcome { return c.call(st, m("DeleteLink"), rm, str("u"), str("ra"), dom(st)) }},
				{kind + ".DeleteLink", func(st *State) []Outcome { return c.call(st, m("DeleteLink"), rm, str("u"), str("rb"), dom(st)) }},
				{kind + ".AddLink", func(st *State) []Outcome { return c.call(st, m("AddLink"), rm, str("rb"), str("ra"), dom(st)) }},
				{kind + ".AddLink", func(st *State) []Outcome { return c.call(st, m("AddLink"), rm, str("ra"), str("rb"), dom(st)) }},
				{kind + ".Clear", func(st *State) []Outcome { return c.call(st, m("Clear"), rm) }},
				{kind + ".SetMatcher", func(st *State) []Outcome { return c.call(st, m("SetMatcher"), rm, c.matchers("roleMatcher")) }},
				{kind + ".SetDomainMatcher", func(st *State) []Outcome { return c.call(st, m("SetDomainMatcher"), rm, c.matchers("domMatcher")) }},
			}
			c.indep("roles", "two "+kind+"s", st, ps, ops, nil, 2)
		}
	}
}

// indepPatterns: role managers with different matchers.
func (c *C) indepPatterns(kind string) {
	mk := c.newRM
	dom := func(st *State, d string) Val { return c.nilStrs() }
	if kind == "DomainManager" {
		mk = c.newDM
		dom = func(st *State, d string) Val { return c.strs(st, str(d)) }
	}
	t := c.ptr("rbac", kind)
	st, a := mk(c.start())
	st, b := mk(st)
	m := func(n string) *ssa.Function { return c.meth(t, n) }
	rms := []Val{a, b}
	for i, rm := range rms {
		st = c.one(c.call(st, m("SetMatcher"), rm, c.matchers("role"+string(rune('A'+i)))), "SetMatcher").st
		if kind == "DomainManager" {
			st = c.one(c.call(st, m("SetDomainMatcher"), rm, c.matchers("dom"+string(rune('A'+i)))), "SetDomainMatcher").st
		}
	}
	link := func(name string, rm Val, u, r string) func(st *State) []Outcome {
		return func(st *State) []Outcome { return c.call(st, m(name), rm, str(u), str(r), dom(st, "d*")) }
	}
	ask := func(rm Val, u, r string) func(st *State) []Outcome {
		return func(st *State) []Outcome { return c.call(st, m("HasLink"), rm, str(u), str(r), dom(st, "d1")) }
	}
	for _, rm := range rms {
		var ok []*State
		for _, o := range link("AddLink", rm, "u*", "r")(st) {
			ok = append(ok, o.st)
		}
		if len(ok) == 0 {
			panic(abort{"AddLink does not return"})
		}
		st = ok[0]
	}
	for i, rm := range rms {
		other := rms[1-i]
		ps := []probe{{kind + ".HasLink(u1, r) with a matcher", ask(other, "u1", "r"), c.results, false}}
		ops := []indepOp{
			{kind + ".HasLink(u1, r)", ask(rm, "u1", "r")},
			{kind + ".AddLink(u1, r)", link("AddLink", rm, "u1", "r")},
			{kind + ".DeleteLink(u*, r)", link("DeleteLink", rm, "u*", "r")},
			{kind + ".SetMatcher", func(st *State) []Outcome { return c.call(st, m("SetMatcher"), rm, c.matchers("roleC")) }},
		}
		c.indep("roles", "two "+kind+"s with different matchers", st, ps, ops, nil, 2)
	}
}

// indepPolicies: policies and role policies made by the constructors.
func (c *C) indepPolicies() {
	type pol struct {
		name string
		mk   func(st *State) (*State, Val)
		t    types.Type
	}
	for _, p := range []pol{
		{"Policy", func(st *State) (*State, Val) { return c.newPolicy(st, "p", "a, b") }, c.ptr("model/policy", "Policy")},
		{"RolePolicy", func(st *State) (*State, Val) {
			st, rm := c.newRM(st)
			o := c.one(c.call(st, c.fn("rbac", "NewRolePolicy"), &Iface{c.ptr("rbac", "RoleManager"), rm}), "NewRolePolicy")
			return o.st, o.rets[0]
		}, c.ptr("rbac", "RolePolicy")},
	} {
		m := func(n string) *ssa.Function { return c.meth(p.t, n) }
		st, a := p.mk(c.start())
		st, b := p.mk(st)
		ps := []Val{a, b}
		for i, q := range ps {
			st = c.one(c.call(st, m("AddRule"), q, c.strs(st, str("u"), str([]string{"ra", "rb"}[i]))), "AddRule").st
			for _, e := range []string{"EVT_RULE_ADDED", "EVT_RULE_REMOVED", "EVT_CLEARED"} {
				st = c.listen(st, q, p.t, c.konst("model/policy", e), notifier([]string{"A", "B"}[i]+" "+e))
			}
		}
		for i, q := range ps {
			other := ps[1-i]
			probes := []probe{{p.name + ".Range", func(st *State) []Outcome { return c.call(st, m("Range"), other, collector(boolean(true))) }, func(o Outcome, mark *Event) ([]Val, bool) { return callbackArgs(o.st, mark), true }, false},
				{p.name + ".GetDistinct", func(st *State) []Outcome {
					return c.call(st, m("GetDistinct"), other, st.newSlice(types.NewSlice(types.Typ[types.Int]), []Val{num(1)}))
				}, func(o Outcome, mark *Event) ([]Val, bool) {
					return append(c.listOf(o.st, o.rets[0]), flagErr(c, o.st, o.rets[1])), true
				}, false}}
			for _, r := range []string{"ra", "rb", "rc"} {
				r := r
				probes = append(probes, probe{p.name + ".AddRule(u, " + r + ")", func(st *State) []Outcome {
					return c.call(st, m("AddRule"), other, c.strs(st, str("u"), str(r)))
				}, c.results, true}, probe{p.name + ".RemoveRule(u, " + r + ")", func(st *State) []Outcome {
					return c.call(st, m("RemoveRule"), other, c.strs(st, str("u"), str(r)))
				}, c.results, true})
			}
			var ops []indepOp
			for _, r := range []string{"ra", "rb", "rc"} {
				for _, n := range []string{"AddRule", "RemoveRule"} {
					r, n := r, n
					ops = append(ops, indepOp{p.name + "." + n + "(u, " + r + ")", func(st *State) []Outcome {
						return c.call(st, m(n), q, c.strs(st, str("u"), str(r)))
					}})
				}
			}
			ops = append(ops, indepOp{p.name + ".Clear", func(st *State) []Outcome { return c.call(st, m("Clear"), q) }})
			c.indep("components", "two "+p.name, st, probes, ops, []string{[]string{"B", "A"}[i]}, 2)
		}
	}
}

// indepCaches: caches and function maps.
func (c *C) indepCaches() {
	for _, tn := range []string{"LRUCache", "SyncLRUCache"} {
		o := c.one(c.call(c.start(), c.fn("util", "New"+tn), num(1)), "New"+tn)
		a := o.rets[0]
		o = c.one(c.call(o.st, c.fn("util", "New"+tn), num(1)), "New"+tn)
		b := o.rets[0]
		m := func(n string) *ssa.Function { return c.m("util", tn, n) }
		st := c.one(c.call(o.st, m("Put"), b, &Iface{tString, str("k")}, &Iface{tString, str("v")}), "Put").st
		ps := []probe{{tn + ".Get", func(st *State) []Outcome { return c.call(st, m("Get"), b, &Iface{tString, str("k")}) }, func(o Outcome, mark *Event) ([]Val, bool) { return o.rets, false }, false}}
		var ops []indepOp
		for _, k := range []string{"k", "l"} {
			k := k
			ops = append(ops, indepOp{tn + ".Put", func(st *State) []Outcome {
				return c.call(st, m("Put"), a, &Iface{tString, str(k)}, &Iface{tString, str("w")})
			}}, indepOp{tn + ".Get", func(st *State) []Outcome { return c.call(st, m("Get"), a, &Iface{tString, str(k)}) }})
		}
		c.indep("components", "two caches", st, ps, ops, nil, 3)
	}
}

func runC32(c *C) {
	c.indepSystems()
	c.indepRoles()
	c.indepPolicies()
	c.indepCaches()
}

func init() {
	register(&Check{
		id:        "C32",
		technique: "abstract interpretation of interleaved operations on two instances; everything observable of one is compared before and after operations on the other",
		rules: map[string]string{
			"enforcers":  "operations on an enforcer, its model, role managers and adapter do not change another enforcer",
			"roles":      "role managers are independent",
			"components": "policies, role policies and caches are independent",
		},
		run: runC32,
	})
}
