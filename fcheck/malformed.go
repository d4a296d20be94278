package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: malformed input and unresolved names are errors, never panics.

// msys is an enforcer with a model, rules, listeners and an adapter.
type msys struct {
	st         *State
	enf, model Val
	rules      []Val // rules of the model
}

func (c *C) msys(withMatcher bool) *msys {
	defs := [][3]string{{"r", "r", "x, y"}, {"p", "p", "a, b"}, {"p", "p2", "a, b"}, {"g", "g", "_,_"}, {"g", "g2", "_,_,_"}, {"e", "e", "some(where (p.eft == allow))"}, {"m", "m", "r.x == p.a && r.y == p.b"}}
	st, m := c.newModel(c.start(), defs...)
	st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), m, str("f"), boolFn("f", false)), "SetFunction").st
	st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers").st
	ad := c.adapter("A", 0, nil, "SimpleAdapter")
	st, enf := c.enforcerWith(st, m, ad)
	s := &msys{st: st, enf: enf, model: m}
	for _, r := range [][]Val{append([]Val{str("p")}, inVals("x", 2)...), strVals([]string{"g", "u1", "g1"}), strVals([]string{"g2", "u1", "g1", "d1"})} {
		o := c.one(c.call(s.st, c.enf("AddRule"), enf, c.strs(s.st, r...)), "AddRule")
		s.st = o.st
		s.rules = append(s.rules, s.st.snap(c.strs(s.st, r...)))
	}
	for _, e := range []string{"RULE_ADDED", "RULE_REMOVED"} {
		s.st = c.listen(s.st, m, c.ptr("model", "Model"), c.konst("model", e), notifier(e))
	}
	return s
}

// unchanged: the rules are the same and nobody was notified.
func (c *C) unchanged(s *msys, rule, cons string, st *State) {
	if st == nil {
		return
	}
	c.ob(rule, cons, triOf(len(eventsOf(st, s.st.trace, "notify")) == 0), st, token.NoPos, "listeners are notified although the call fails")
	for _, r := range c.modelRules(st, s.model) {
		c.ob(rule, cons, c.sameSet(r.st, r.set, s.rules), r.st, token.NoPos, "the call fails but the rules are %s, before they were %s", showVals(r.st, r.set), showVals(r.st, s.rules))
	}
}

// refused: the call fails with an error; no value tells otherwise.
func (c *C) refused(rule, cons string, o Outcome, what string) bool {
	if !c.noPanic("panic", cons, o) {
		return false
	}
	e := o.rets[len(o.rets)-1]
	r := c.isErr(o.st, e)
	c.ob(rule, cons, r, o.st, token.NoPos, "%s: no error is returned", what)
	if len(o.rets) > 1 {
		if t := typeOf(o.st.norm(o.rets[0])); t != nil {
			if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Bool {
				c.ob(rule, cons, negate(c.truth(o.st, o.rets[0])), o.st, token.NoPos, "%s: true is returned", what)
			}
		}
	}
	return r == tYes
}

func (c *C) badRules() {
	s := c.msys(true)
	type br struct {
		name string
		r    []Val
	}
	any := in("v")
	bad := []br{{"nil", nil}, {"no values", []Val{}}, {"an empty key", []Val{str("")}}, {"an empty key and values", []Val{str(""), any, any}},
		{"an unknown section", []Val{str("x"), any, any}}, {"an unknown policy", []Val{str("p9"), any, any}}, {"an unknown role", []Val{str("g9"), any, any}},
		{"a request key", []Val{str("r"), any, any}}, {"a matcher key", []Val{str("m"), any}}, {"a longer key", []Val{str("px"), any, any}},
		{"a role rule without names", []Val{str("g")}}, {"a role rule with one name", []Val{str("g"), any}}, {"a role rule with domains without names", []Val{str("g2")}}, {"a role rule with domains with one name", []Val{str("g2"), any}}}
	for _, b := range bad {
		mk := func(st *State) Val {
			if b.r == nil {
				return c.nilStrs()
			}
			return c.strs(st, b.r...)
		}
		for _, verb := range []string{"AddRule", "RemoveRule"} {
			for _, api := range []string{"Enforcer", "Model"} {
				cons := api + "." + verb
				c.scenario("%s of %s", cons, b.name)
				st := s.st.clone()
				f, recv := c.enf(verb), s.enf
				if api == "Model" {
					f, recv = c.m("model", "Model", verb), s.model
				}
				for _, o := range c.call(st, f, recv, mk(st)) {
					if c.refused("rules", cons, o, cons+" of "+b.name) {
						c.unchanged(s, "rules", cons, o.st)
					}
				}
			}
			cons := "Enforcer." + verb + "s"
			c.scenario("%s with %s", cons, b.name)
			st := s.st.clone()
			for _, o := range c.call(st, c.enf(verb+"s"), s.enf, c.strss(st, mk(st))) {
				if c.refused("rules", cons, o, cons+" with "+b.name) {
					c.unchanged(s, "rules", cons, o.st)
				}
			}
		}
		// the role policy itself
		if len(b.r) <= 2 && !strings.Contains(b.name, "key") && !strings.Contains(b.name, "longer") {
			for _, verb := range []string{"AddRule", "RemoveRule"} {
				for _, dm := range []bool{false, true} {
					cons := "RolePolicy." + verb
					c.scenario("%s with %d values", cons, len(b.r)-1)
					st, rm := c.newRM(c.start())
					t := c.ptr("rbac", "RoleManager")
					if dm {
						st, rm = c.newDM(c.start())
						t = c.ptr("rbac", "DomainManager")
					}
					o := c.one(c.call(st, c.fn("rbac", "NewRolePolicy"), &Iface{t, rm}), "NewRolePolicy")
					st = o.st
					var arg Val = c.nilStrs()
					if len(b.r) > 0 {
						arg = c.strs(st, b.r[1:]...)
					}
					for _, q := range c.call(st, c.m("rbac", "RolePolicy", verb), o.rets[0], arg) {
						c.refused("rules", cons, q, fmt.Sprintf("%s with %d values", cons, len(b.r)-1))
					}
				}
			}
		}
	}
	// an arbitrary key: an error unless it is the key of a policy
	for _, verb := range []string{"AddRule", "RemoveRule"} {
		cons := "Enforcer." + verb
		c.scenario("%s of a rule with an arbitrary key", cons)
		st := s.st.clone()
		key := in("key")
		for _, o := range c.call(st, c.enf(verb), s.enf, c.strs(st, key, any, in("v1"), in("v2"))) {
			if !c.noPanic("panic", cons, o) {
				continue
			}
			c.forks(o.st, func(st *State, ask func(Val) bool) {
				known := false
				for _, k := range []string{"p", "p2", "g", "g2"} {
					known = known || ask(eqTerm(st, key, str(k)))
				}
				t := c.isErr(st, o.rets[1])
				if known {
					t = negate(t)
				}
				c.ob("rules", cons, t, st, token.NoPos, "%s of a rule of the policy %s returns the error %s", cons, st.show(key), st.show(o.rets[1]))
			})
		}
	}
	// a batch is refused at the rule that is not valid, the order of the others does not matter
	for _, verb := range []string{"AddRules", "RemoveRules"} {
		cons := "Enforcer." + verb
		c.scenario("%s with an unknown policy between valid rules", cons)
		st := s.st.clone()
		l := c.strss(st, c.strs(st, str("p"), in("n0"), in("n1")), c.strs(st, str("p9"), any), c.strs(st, str("p"), in("n2"), in("n3")))
		for _, o := range c.call(st, c.enf(verb), s.enf, l) {
			c.refused("rules", cons, o, cons+" with an unknown policy")
		}
	}
	// rules that are too short or too long for their definition never panic, later queries do not either
	for _, b := range []br{{"a policy rule without values", []Val{str("p")}}, {"a policy rule with one value", []Val{str("p"), any}}, {"a policy rule with too many values", []Val{str("p"), any, in("v1"), in("v2"), in("v3")}},
		{"a role rule with three values", []Val{str("g"), any, in("v1"), in("v2")}}, {"a role rule with domains without a domain", []Val{str("g2"), any, in("v1")}}, {"a role rule with two domains", []Val{str("g2"), any, in("v1"), in("v2"), in("v3")}},
		{"a role rule with empty names", []Val{str("g"), str(""), str("")}}, {"a rule with empty values", []Val{str("p"), str(""), str("")}}} {
		c.scenario("AddRule of %s, all queries, RemoveRule", b.name)
		st := s.st.clone()
		for _, o := range c.call(st, c.enf("AddRule"), s.enf, c.strs(st, b.r...)) {
			if !c.noPanic("panic", "Enforcer.AddRule", o) {
				continue
			}
			for _, e := range []string{"r.x == p.a && r.y == p.b", "g(r.x, p.a)", "g2(r.x, p.a, r.y)", "r.x == g.user && r.y == g.role", "r.x == g2.user && g2.domain == r.y"} {
				for _, api := range c.deciders(s.enf, s.model, c.options([2]string{"SetMatcher", e}), []Val{str("u1"), str("d1")}) {
					for _, d := range api.run(o.st) {
						c.noPanic("panic", api.name, d.o)
					}
				}
			}
			s2 := o.st.clone()
			for _, q := range c.call(s2, c.enf("RemoveRule"), s.enf, c.strs(s2, b.r...)) {
				c.noPanic("panic", "Enforcer.RemoveRule", q)
			}
		}
	}
}

func (c *C) badQueries(thorough bool) {
	s := c.msys(true)
	none := []struct{ opt, v string }{{"SetMatcher", "("}, {"SetMatcher", ")"}, {"SetMatcher", "r.x =="}, {"SetMatcher", "r.x == p.a &&"}, {"SetMatcher", "&& r.x == p.a"}, {"SetMatcher", "r.x == p.a || (p.b == r.y"},
		{"SetMatcher", "r.x == p.a)"}, {"SetMatcher", "nofn(p.a)"}, {"SetMatcher", "r.x == p9.a"}, {"SetMatcher", "r.x == g9.user"}, {"SetMatcher", "r.x = p.a"}, {"SetMatcher", "r.x == \"p.a"},
		{"SetRequestDef", "r9"}, {"SetRequestDef", "p"}, {"SetRequestDef", "m"}}
	req := []Val{in("rx"), in("ry")}
	for _, n := range none {
		c.scenario("%s(%q)", n.opt, n.v)
		opts := c.options([2]string{n.opt, n.v})
		for _, api := range c.deciders(s.enf, s.model, opts, req) {
			if strings.HasSuffix(api.name, "WithContext") {
				continue
			}
			for _, d := range api.run(s.st) {
				if c.refused("queries", api.name, d.o, fmt.Sprintf("%s(%q)", n.opt, n.v)) {
					c.unchanged(s, "queries", api.name, d.o.st)
				}
			}
		}
		st, os := opts(s.st.clone())
		var es []Val
		for _, o := range os {
			es = append(es, o.(*Iface).val)
		}
		for _, o := range c.call(st, c.fn("", "NewContext"), &Iface{c.ptr("model", "Model"), s.model}, st.newSlice(types.NewSlice(c.typ("", "ContextOption")), es)) {
			c.refused("queries", "NewContext", o, fmt.Sprintf("%s(%q)", n.opt, n.v))
		}
	}
	// values that are not strings, too few and too many values
	anyReq := [][]Val{{}, req[:1], append(append([]Val{}, req...), in("rz")), {nilOf(anyT), nilOf(anyT)}, {&Iface{tInt, num(1)}, &Iface{tBool, boolean(true)}}, {&Iface{tString, in("rx")}, nilOf(anyT)}}
	for _, r := range anyReq {
		for _, e := range []string{"r.x == p.a && r.y == p.b", "f(r.x) && r.y == p.b", "p.a == p.b", "r.x in (p.a, p.b)"} {
			if !thorough && e != "r.x == p.a && r.y == p.b" && len(r) > 1 {
				continue
			}
			c.scenario("%q with the request values %s", e, showVals(s.st, r))
			for _, api := range c.deciders(s.enf, s.model, c.options([2]string{"SetMatcher", e}), r) {
				for _, d := range api.run(s.st) {
					c.noPanic("panic", api.name, d.o)
				}
			}
		}
	}
	// arguments of g and of the functions that come with fastac
	bad := []string{"g()", "g(r.x)", "g(1, r.x)", "g(r.x, true)", "g2(r.x, p.a, 5)", "g2(1, p.a, r.y)",
		"pathMatch()", "pathMatch(r.x)", "pathMatch(r.x, p.a, p.b)", "pathMatch(1, p.a)", "pathMatch(r.x, true)", "pathMatch2(r.x)", "pathMatch2(1, 2)",
		"regexMatch(r.x)", "regexMatch(1, p.a)", "regexMatch(r.x, \"(\")", "ipMatch(r.x)", "ipMatch(\"x\", p.a)", "ipMatch(\"10.0.0.1\", \"x\")", "globMatch(r.x)", "globMatch(r.x, 1)", "globMatch(r.x, p.a, p.b)"}
	for _, e := range bad {
		e2 := e + " && p.a == p.a"
		c.scenario("%q", e2)
		for i, api := range c.deciders(s.enf, s.model, c.options([2]string{"SetMatcher", e2}), req) {
			if i > 0 && !thorough && i != 2 {
				continue
			}
			for _, d := range api.run(s.st) {
				c.refused("arguments", api.name, d.o, fmt.Sprintf("%q", e2))
			}
		}
	}
	for _, name := range []string{"RoleManager", "DomainManager"} {
		for _, links := range [][]rlink{nil, {L("a", "b")}, {L("a", "b", "d")}, {L("a", "b", "d", "e")}} {
			rs, st := c.newRoleSys(roleScen{name: name})
			h := roleState{st: st, desc: name}
			hs := []roleState{h}
			for _, l := range links {
				hs = c.toggle(rs, h, l)
			}
			for _, h := range hs {
				for _, n := range [][2]string{{"", ""}, {"a", ""}, {"a", "b"}, {"x", "y"}} {
					for _, d := range [][]string{nil, {""}, {"d"}, {"d", ""}, {"d", "e", "f"}} {
						for _, f := range []string{"HasLink", "GetRoles", "GetUsers", "DeleteLink", "AddLink", "GetDomains", "GetAllDomains"} {
							st := h.st.clone()
							var args []Val
							var dv Val = c.nilStrs()
							if d != nil {
								dv = c.strs(st, strVals(d)...)
							}
							switch f {
							case "GetRoles", "GetUsers":
								args = []Val{str(n[0]), dv}
							case "GetDomains":
								args = []Val{str(n[0])}
							case "GetAllDomains":
							default:
								args = []Val{str(n[0]), str(n[1]), dv}
							}
							c.scenario("%s; %s(%q, %q, %q)", h.desc, f, n[0], n[1], d)
							for _, o := range c.roleCall(rs, "panic", st, f, args...) {
								_ = o
							}
						}
					}
				}
			}
		}
	}
}

func (c *C) badDefs() {
	type step struct {
		name string
		run  func(st *State, m Val) []Outcome
	}
	mm := func(n string) *ssa.Function { return c.m("model", "Model", n) }
	setDef := func(sec byte, k, v string) step {
		return step{fmt.Sprintf("Model.SetDef(%q, %q, %q)", sec, k, v), func(st *State, m Val) []Outcome { return c.call(st, mm("SetDef"), m, byteVal(sec), str(k), str(v)) }}
	}
	build := func(k, expr string) step {
		return step{fmt.Sprintf("Model.BuildMatcher(%q) of %q", k, expr), func(st *State, m Val) []Outcome {
			var out []Outcome
			for _, o := range c.call(st, mm("SetDef"), m, byteVal('m'), str("m9"), str(expr)) {
				if o.kind != oRet || c.isErr(o.st, o.rets[0]) != tNo {
					out = append(out, o)
					continue
				}
				out = append(out, c.call(o.st, mm("BuildMatcher"), m, str(k))...)
			}
			return out
		}}
	}
	steps := []step{setDef('x', "x", "a"), setDef('x', "r", "a"), setDef(0, "r", "a"), setDef('r', "", "a"), setDef('r', "p", "a"), setDef('p', "r", "a"), setDef('p', "", "a"), setDef('g', "p", "_,_"), setDef('g', "", "_,_"), setDef('e', "m", "some(where (p.eft == allow))"), setDef('e', "", "x"), setDef('m', "e", "r.x == p.a"), setDef('m', "", "r.x == p.a"),
		build("m8", "r.x == p.a"), build("", "r.x == p.a"), build("m9", "("), build("m9", "r.x =="), build("m9", "r.x == p9.a"), build("m9", "r.x == g9.user"), build("m9", "nofn(p.a)"), build("m9", "r.x == p.a && && r.y == p.b"),
		{"Model.RemoveDef of an unknown section", func(st *State, m Val) []Outcome { return c.call(st, mm("RemoveDef"), m, byteVal('x'), str("x")) }},
		{"Model.ClearPolicy of an unknown policy", func(st *State, m Val) []Outcome { return c.call(st, mm("ClearPolicy"), m, str("p9")) }},
		{"Model.ClearPolicy of an empty key", func(st *State, m Val) []Outcome { return c.call(st, mm("ClearPolicy"), m, str("")) }}}
	for _, e := range []string{"(", "r.x ==", "nofn(p.a)", "r.x == p9.a"} {
		e := e
		steps = append(steps, step{fmt.Sprintf("Model.BuildMatchers with %q", e), func(st *State, m Val) []Outcome {
			var out []Outcome
			for _, o := range c.call(st, mm("SetDef"), m, byteVal('m'), str("m9"), str(e)) {
				if o.kind != oRet || c.isErr(o.st, o.rets[0]) != tNo {
					out = append(out, o)
					continue
				}
				out = append(out, c.call(o.st, mm("BuildMatchers"), m)...)
			}
			return out
		}})
	}
	s := c.msys(true)
	for _, t := range steps {
		cons := strings.SplitN(t.name, "(", 2)[0]
		cons = strings.SplitN(cons, " ", 2)[0]
		c.scenario("%s", t.name)
		for _, o := range t.run(s.st, s.model) {
			if c.refused("definitions", cons, o, t.name) {
				c.unchanged(s, "definitions", cons, o.st)
			}
		}
	}
	// accessors of names that do not exist
	for _, a := range []struct {
		name string
		args []Val
	}{{"GetDef", []Val{byteVal('x'), str("r")}}, {"GetDef", []Val{byteVal('r'), str("r9")}}, {"GetDef", []Val{byteVal('r'), str("")}}, {"GetDef", []Val{byteVal('p'), str("")}}, {"GetDef", []Val{byteVal(0), str("")}}, {"GetDef", []Val{byteVal('g'), str("r")}}, {"GetRoleManager", []Val{str("")}}, {"GetMatcher", []Val{str("")}}, {"GetRequestDef", []Val{str("")}}, {"GetEffector", []Val{str("")}}, {"GetEffector", []Val{str("m")}}, {"RemoveFunction", []Val{str("")}}, {"GetPolicy", []Val{str("p9")}}, {"GetPolicy", []Val{str("r")}}, {"GetPolicy", []Val{str("")}}, {"GetRoleManager", []Val{str("g9")}}, {"GetRoleManager", []Val{str("p")}},
		{"GetMatcher", []Val{str("m9")}}, {"GetMatcher", []Val{str("p")}}, {"GetRequestDef", []Val{str("r9")}}, {"GetRequestDef", []Val{str("p")}}, {"GetEffector", []Val{str("e9")}}, {"RemoveFunction", []Val{str("nofn")}}} {
		cons := "Model." + a.name
		c.scenario("%s%s", cons, showVals(s.st, a.args))
		for _, o := range c.call(s.st, mm(a.name), append([]Val{s.model}, a.args...)...) {
			if c.noPanic("panic", cons, o) {
				c.ob("names", cons, negate(c.truth(o.st, o.rets[len(o.rets)-1])), o.st, token.NoPos, "%s%s reports ok", cons, showVals(s.st, a.args))
			}
		}
	}
	// columns
	for _, p := range []string{"Policy", "RolePolicy"} {
		for _, cols := range [][]int{{2}, {-1}, {0, 5}, {1, -2}} {
			cons := p + ".GetDistinct"
			c.scenario("%s of the columns %v", cons, cols)
			var st *State
			var recv Val
			rel := "model/policy"
			if p == "Policy" {
				st, recv = c.newPolicy(c.start(), "p", "a, b")
			} else {
				var rm Val
				rel = "rbac"
				st, rm = c.newRM(c.start())
				o := c.one(c.call(st, c.fn("rbac", "NewRolePolicy"), &Iface{c.ptr("rbac", "RoleManager"), rm}), "NewRolePolicy")
				st, recv = o.st, o.rets[0]
			}
			st = c.one(c.call(st, c.m(rel, p, "AddRule"), recv, c.strs(st, str("u1"), str("g1"))), "AddRule").st
			var vs []Val
			for _, n := range cols {
				vs = append(vs, num(n))
			}
			for _, o := range c.call(st, c.m(rel, p, "GetDistinct"), recv, st.newSlice(types.NewSlice(tInt), vs)) {
				c.refused("columns", cons, o, fmt.Sprintf("%s of the columns %v of a rule with two values", cons, cols))
			}
		}
	}
	// a column that only some of the rules have
	for _, order := range [][][]string{{{"a", "b", "c"}, {"a", "b"}}, {{"a", "b"}, {"a", "b", "c"}}, {{"a", "b", "c"}, {"d", "e", "f"}, {"a"}}, {{"a", "b", "c"}, {"a", "b"}, {"d", "e", "f"}}} {
		for _, cols := range [][]int{{2}, {0, 2}, {2, 0}} {
			c.scenario("Policy.GetDistinct of the columns %v of the rules %v", cols, order)
			st, recv := c.newPolicy(c.start(), "p", "a, b, c")
			for _, r := range order {
				st = c.one(c.call(st, c.m("model/policy", "Policy", "AddRule"), recv, c.strs(st, strVals(r)...)), "AddRule").st
			}
			var vs []Val
			for _, n := range cols {
				vs = append(vs, num(n))
			}
			for _, o := range c.call(st, c.m("model/policy", "Policy", "GetDistinct"), recv, st.newSlice(types.NewSlice(tInt), vs)) {
				c.refused("columns", "Policy.GetDistinct", o, fmt.Sprintf("Policy.GetDistinct of the columns %v of the rules %v", cols, order))
			}
		}
	}
	// a model without one of the default definitions
	for _, miss := range []string{"r", "m", "e", "p", ""} {
		var ds [][3]string
		if miss != "" {
			for _, d := range c.modelDefs() {
				if d[0] != miss && !(miss == "p" && d[0] == "m") {
					ds = append(ds, d)
				}
			}
		}
		st, m := c.newModel(c.start(), ds...)
		st = c.one(c.call(st, mm("BuildMatchers"), m), "BuildMatchers").st
		st, enf := c.enforcer(st, m)
		c.scenario("a model without %q, all queries", miss)
		for _, api := range c.deciders(enf, m, noOptions, []Val{in("rx"), in("ry")}) {
			if strings.HasSuffix(api.name, "WithContext") {
				continue
			}
			for _, d := range api.run(st) {
				if miss == "e" && api.name != "Enforcer.Enforce" {
					c.noPanic("panic", api.name, d.o) // the effect is not needed
				} else {
					c.refused("queries", api.name, d.o, fmt.Sprintf("a model without %q", miss))
				}
			}
		}
		for _, o := range c.call(st, c.fn("", "NewContext"), &Iface{c.ptr("model", "Model"), m}, &Slice{typ: types.NewSlice(c.typ("", "ContextOption")), obj: -1, isNil: true}) {
			if miss == "r" {
				c.refused("queries", "NewContext", o, fmt.Sprintf("a model without %q", miss))
			} else {
				c.noPanic("panic", "NewContext", o) // the query may report it
			}
		}
	}
	// an enforcer of something that is not a model
	for _, v := range []Val{nilOf(anyT), &Iface{tInt, num(5)}, &Iface{tBool, boolean(true)}} {
		c.scenario("NewEnforcer(%s)", K(v))
		for _, o := range c.call(c.start(), c.fn("", "NewEnforcer"), v, nilOf(anyT), &Slice{typ: types.NewSlice(c.typ("", "Option")), obj: -1, isNil: true}) {
			c.refused("definitions", "NewEnforcer", o, "NewEnforcer of something that is not a model")
		}
	}
}

func (c *C) badFiles() {
	for _, f := range []struct{ name, text string }{{"an unknown policy", "p9, a, b\n"}, {"an unknown section", "x, a\n"}, {"a role rule with one name", "g, a\n"}, {"a quote inside of a value", "p, a\"b, c\n"}, {"an open quote", "p, \"a, b\n"}} {
		c.scenario("FileAdapter.LoadPolicy of a file with %s", f.name)
		fs := c.fileAdapter(str(f.text))
		st, m := c.newModel(fs.st, c.modelDefs()...)
		for _, o := range fs.call(st, "LoadPolicy", &Iface{c.ptr("model", "Model"), m}) {
			c.refused("files", "FileAdapter.LoadPolicy", o, "LoadPolicy of a file with "+f.name)
		}
		c.scenario("LoadPolicyLine, %s", f.name)
		for _, o := range c.call(st.clone(), c.fn("storage/adapter", "LoadPolicyLine"), str(strings.TrimSpace(f.text)), &Iface{c.ptr("model", "Model"), m}) {
			c.refused("files", "LoadPolicyLine", o, "LoadPolicyLine of "+f.name)
		}
		// lines before and after it are not to blame
		c.scenario("FileAdapter.LoadPolicy of a file with %s between rules", f.name)
		fs = c.fileAdapter(str("p, alice, data1\n" + f.text + "g, alice, admin\n"))
		st, m = c.newModel(fs.st, c.modelDefs()...)
		for _, o := range fs.call(st, "LoadPolicy", &Iface{c.ptr("model", "Model"), m}) {
			c.refused("files", "FileAdapter.LoadPolicy", o, "LoadPolicy of a file with "+f.name+" between rules")
		}
	}
	c.scenario("FileAdapter.LoadPolicy of a missing file")
	fs := c.fileAdapter(nil)
	st, m := c.newModel(fs.st, c.modelDefs()...)
	for _, o := range fs.call(st, "LoadPolicy", &Iface{c.ptr("model", "Model"), m}) {
		c.refused("files", "FileAdapter.LoadPolicy", o, "LoadPolicy of a missing file")
	}
	for _, text := range []string{"", "\n", "\n\n  \n"} {
		c.scenario("FileAdapter.LoadPolicy of %q", text)
		fs := c.fileAdapter(str(text))
		st, m := c.newModel(fs.st, c.modelDefs()...)
		for _, o := range fs.call(st, "LoadPolicy", &Iface{c.ptr("model", "Model"), m}) {
			c.noPanic("panic", "FileAdapter.LoadPolicy", o)
		}
	}
}

func runC23(c *C) {
	c.badRules()
	c.badQueries(c.thorough)
	c.badDefs()
	c.badFiles()
}

func init() {
	register(&Check{
		id:        "C23",
		technique: "abstract interpretation of calls with malformed arguments; every path must end with an error, none with a panic, and leave the rules unchanged",
		rules: map[string]string{
			"panic":       "no call panics",
			"rules":       "rules of unknown policies and role rules without two names are refused and change nothing",
			"queries":     "unresolved names and expressions that do not parse are errors of the query",
			"arguments":   "wrong numbers and types of arguments of g and of the built in functions are errors",
			"definitions": "definitions in the wrong section and matchers that cannot be built are refused",
			"names":       "accessors report that a name does not exist",
			"columns":     "columns a rule does not have are errors",
			"files":       "lines of a policy file that are no rules are errors",
		},
		run:    runC23,
		shared: map[string]bool{"explicit": true, "closure": true},
	})
}
