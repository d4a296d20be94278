package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (c *C) konst(rel, name string) Val {
	o, ok := c.pkg(rel).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(unresolved{"constant " + rel + "." + name})
	}
	v := o.Val()
	if v.Kind() == constant.Int {
		v = constant.ToInt(v)
	}
	return &Const{v, o.Type()}
}

// splitEq forks a path on the equality of two values.
func (c *C) splitEq(st *State, a, b Val) []splitRes {
	switch c.same(st, a, b) {
	case tYes:
		return []splitRes{{st, true}}
	case tNo:
		return []splitRes{{st, false}}
	}
	cj := st.eq(st.snap(a), st.snap(b))
	var r []splitRes
	cond := T("and", tBool, cj.atoms...)
	p := st.clone()
	if p.assume(cond, true) {
		r = append(r, splitRes{p, true})
	}
	n := st.clone()
	if c.x.assumeNot(n, cj.atoms) {
		r = append(r, splitRes{n, false})
	}
	return r
}

type setState struct {
	st  *State
	set []Val // rules present according to the history
}

// member forks a path on the membership of rule in set; idx is its position or -1.
func (c *C) member(s setState, rule Val) []struct {
	setState
	idx int
} {
	type res = struct {
		setState
		idx int
	}
	cur := []*State{s.st}
	var out []res
	for i, e := range s.set {
		var nxt []*State
		for _, st := range cur {
			for _, b := range c.splitEq(st, e, rule) {
				if b.v {
					out = append(out, res{setState{b.st, s.set}, i})
				} else {
					nxt = append(nxt, b.st)
				}
			}
		}
		cur = nxt
	}
	for _, st := range cur {
		out = append(out, res{setState{st, s.set}, -1})
	}
	return out
}

func without(s []Val, i int) []Val {
	return append(append([]Val{}, s[:i]...), s[i+1:]...)
}

// notifier is a listener that records the event.
func notifier(name string) *Native {
	return &Native{name: "listener " + name, fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		var as []Val
		for _, e := range elemsOf(st, args[0]) {
			if i, ok := e.(*Iface); ok {
				e = i.val
			}
			as = append(as, st.snap(e))
		}
		st.event(&Event{kind: "notify", name: name, args: as, pos: posOf(site)})
		return ret(st)
	}}
}

// ruleSet is an implementation of a set of rules with notifications.
type ruleSet struct {
	warm        bool // enumerate before each operation
	name        string
	st          *State
	add, remove func(st *State, rule Val) []Outcome
	clear       func(st *State) []Outcome
	rang        func(st *State, fn Val) []Outcome
	prefix      []Val // constant leading values of every rule
	n           int   // number of further values
	recv        Val
	typ         types.Type
}

func (c *C) one(os []Outcome, what string) Outcome {
	var r []Outcome
	for _, o := range os {
		if o.kind == oRet {
			r = append(r, o)
		}
	}
	if len(r) != 1 {
		panic(abort{fmt.Sprintf("%s: %d outcomes", what, len(r))})
	}
	return r[0]
}

func (c *C) listen(st *State, recv Val, t types.Type, evt Val, n *Native) *State {
	return c.one(c.call(st, c.meth(t, "AddListener"), recv, evt, n), "AddListener").st
}

func (c *C) newPolicy(st *State, key, args string) (*State, Val) {
	o := c.one(c.call(st, c.fn("model/defs", "NewPolicyDef"), str(key), str(args)), "NewPolicyDef")
	o = c.one(c.call(o.st, c.fn("model/policy", "NewPolicy"), o.rets[0]), "NewPolicy")
	return o.st, o.rets[0]
}

func (c *C) newRM(st *State) (*State, Val) {
	o := c.one(c.call(st, c.fn("rbac", "NewRoleManager"), num(10)), "NewRoleManager")
	return o.st, o.rets[0]
}

func (c *C) newDM(st *State) (*State, Val) {
	o := c.one(c.call(st, c.fn("rbac", "NewDomainManager"), num(10)), "NewDomainManager")
	return o.st, o.rets[0]
}

// model with the given definitions {section, key, value}
func (c *C) newModel(st *State, defs ...[3]string) (*State, Val) {
	o := c.one(c.call(st, c.fn("model", "NewModel")), "NewModel")
	m := o.rets[0]
	for _, d := range defs {
		o = c.one(c.call(o.st, c.m("model", "Model", "SetDef"), m, &Const{constant.MakeInt64(int64(d[0][0])), tByte}, str(d[1]), str(d[2])), "SetDef")
		if c.isErr(o.st, o.rets[0]) == tYes {
			panic(abort{"SetDef " + d[1] + " failed: " + o.st.show(o.rets[0])})
		}
	}
	return o.st, m
}

func (c *C) ruleSets() []*ruleSet {
	var r []*ruleSet
	meths := func(rs *ruleSet, recv Val, t types.Type) *ruleSet {
		rs.recv, rs.typ = recv, t
		rs.add = func(st *State, rule Val) []Outcome { return c.call(st, c.meth(t, "AddRule"), recv, rule) }
		rs.remove = func(st *State, rule Val) []Outcome { return c.call(st, c.meth(t, "RemoveRule"), recv, rule) }
		return rs
	}
	pol := func(rs *ruleSet, recv Val, t types.Type) *ruleSet {
		meths(rs, recv, t)
		rs.clear = func(st *State) []Outcome { return c.call(st, c.meth(t, "Clear"), recv) }
		rs.rang = func(st *State, fn Val) []Outcome { return c.call(st, c.meth(t, "Range"), recv, fn) }
		rs.st = c.listen(rs.st, recv, t, c.konst("model/policy", "EVT_RULE_ADDED"), notifier("added"))
		rs.st = c.listen(rs.st, recv, t, c.konst("model/policy", "EVT_RULE_REMOVED"), notifier("removed"))
		rs.st = c.listen(rs.st, recv, t, c.konst("model/policy", "EVT_CLEARED"), notifier("cleared"))
		return rs
	}
	for n := 1; n <= 3; n++ {
		st, p := c.newPolicy(c.start(), "p", "a,b,c")
		r = append(r, pol(&ruleSet{name: "policy.Policy", st: st, n: n}, p, c.ptr("model/policy", "Policy")))
	}
	rp := func(name string, st *State, rm Val, rt types.Type, n int) {
		o := c.one(c.call(st, c.fn("rbac", "NewRolePolicy"), &Iface{rt, rm}), "NewRolePolicy")
		r = append(r, pol(&ruleSet{name: name, st: o.st, n: n}, o.rets[0], c.ptr("rbac", "RolePolicy")))
	}
	st, rm := c.newRM(c.start())
	rp("rbac.RolePolicy/RoleManager", st, rm, c.ptr("rbac", "RoleManager"), 2)
	st, dm := c.newDM(c.start())
	rp("rbac.RolePolicy/DomainManager", st, dm, c.ptr("rbac", "DomainManager"), 3)
	st, dm = c.newDM(c.start())
	rp("rbac.RolePolicy/two domains", st, dm, c.ptr("rbac", "DomainManager"), 4)

	mdl := func(name, key string, n int) {
		st, m := c.newModel(c.start(), [3]string{"p", "p", "a,b"}, [3]string{"g", "g", "_,_"}, [3]string{"g", "g2", "_,_,_"}, [3]string{"g", "g3", "_,_,_,_"})
		t := c.ptr("model", "Model")
		rs := meths(&ruleSet{name: name, st: st, n: n, prefix: []Val{str(key)}}, m, t)
		rs.rang = func(st *State, fn Val) []Outcome { return c.call(st, c.meth(t, "RangeRules"), m, fn) }
		rs.clear = func(st *State) []Outcome { return c.call(st, c.meth(t, "ClearPolicy"), m, str(key)) }
		rs.st = c.listen(rs.st, m, t, c.konst("model", "RULE_ADDED"), notifier("added"))
		rs.st = c.listen(rs.st, m, t, c.konst("model", "RULE_REMOVED"), notifier("removed"))
		r = append(r, rs)
	}
	mdl("model.Model/p", "p", 2)
	mdl("model.Model/g", "g", 2)
	mdl("model.Model/g2", "g2", 3)
	mdl("model.Model/g3", "g3", 4)
	return r
}

func init() {
	register(&Check{
		id:        "C07",
		technique: "abstract interpretation of rule histories (exploded graph over SSA, rules are opaque strings, path-sensitive equality facts)",
		rules: map[string]string{
			"truthful":  "AddRule/RemoveRule report true exactly if the rule was absent/present according to the preceding operations, and no error for well-formed rules",
			"notify":    "a successful mutation notifies its listeners exactly once, with the rule; an unsuccessful one notifies nobody",
			"enumerate": "after any history Range/RangeRules passes each present rule exactly once and nothing else",
		},
		run: runC07,
	})
}

func runC07(c *C) {
	depth := 3
	if c.thorough {
		depth = 4
	}
	for _, rs := range c.ruleSets() {
		d := depth
		if c.thorough && rs.n >= 3 && rs.name != "policy.Policy" {
			d = 3
		}
		c.historyRuleSet(rs, d)
		// the same with an enumeration before each change
		warm := *rs
		warm.warm = true
		warm.name += ", enumerated before"
		c.historyRuleSet(&warm, d-1)
	}
	// rules of different lengths and similar values
	c.mixedLengths("truthful")
}

type histState struct {
	setState
	desc string
}

func (c *C) historyRuleSet(rs *ruleSet, depth int) {
	rules := map[string][]Val{}
	for _, n := range []string{"x", "y"} {
		rules[n] = append(append([]Val{}, rs.prefix...), inVals(n, rs.n)...)
	}
	cur := []histState{{setState{rs.st.clone(), nil}, rs.name + ":"}}
	ops := []string{"add x", "add y", "remove x", "remove y"}
	seen := map[string]bool{}
	for d := 0; d < depth; d++ {
		var nxt []histState
		for _, h := range cur {
			for _, op := range ops {
				if d == 0 && (op == "add y" || op == "remove y") {
					continue // symmetric
				}
				nxt = append(nxt, c.histStep(rs, h, op, rules)...)
			}
		}
		cur = nxt
		// enumerate at the end of each history
		for _, h := range cur {
			c.scenario("%s; range", h.desc)
			c.checkRange(rs, h)
		}
		_ = seen
	}
}

func verbKind(op string) (string, string) {
	for i := range op {
		if op[i] == ' ' {
			return op[:i], op[i+1:]
		}
	}
	return op, ""
}

func (c *C) histStep(rs *ruleSet, h histState, op string, rules map[string][]Val) []histState {
	verb, arg := verbKind(op)
	var out []histState
	desc := h.desc + " " + op
	c.scen = desc
	st := h.st.clone()
	if rs.warm {
		st = c.warmRange(rs, st)
	}
	rule := c.strs(st, rules[arg]...)
	content := st.snap(rule)
	mark := st.trace
	f, method, evt := rs.add, "AddRule", "added"
	if verb == "remove" {
		f, method, evt = rs.remove, "RemoveRule", "removed"
	}
	for _, o := range f(st, rule) {
		if !c.noPanic("truthful", rs.name+"."+method, o) {
			continue
		}
		for _, mb := range c.member(setState{o.st, h.set}, content) {
			present := mb.idx >= 0
			cons := rs.name + "." + method
			want := present == (verb == "remove")
			got := c.truth(mb.st, o.rets[0])
			if !want {
				got = negate(got)
			}
			c.ob("truthful", cons, allOf(got, negate(c.isErr(mb.st, o.rets[1]))), mb.st, token.NoPos,
				"%s(%s) returns %s, %s although the history %q makes the rule %s", method, mb.st.show(content), mb.st.show(o.rets[0]), mb.st.show(o.rets[1]), desc, map[bool]string{true: "present", false: "absent"}[present])
			var ns []*Event
			for _, e := range mb.st.events(mark) {
				if e.kind == "notify" {
					ns = append(ns, e)
				}
			}
			ok := tYes
			if want {
				if len(ns) != 1 || ns[0].name != evt || len(ns[0].args) != 1 {
					ok = tNo
				} else {
					ok = c.same(mb.st, ns[0].args[0], content)
				}
			} else if len(ns) != 0 {
				ok = tNo
			}
			c.ob("notify", cons, ok, mb.st, token.NoPos, "%s (effective: %v) leads to %d notifications %s", method, want, len(ns), showEvents(mb.st, ns))
			set := h.set
			if verb == "add" && !present {
				set = append(append([]Val{}, set...), content)
			}
			if verb == "remove" && present {
				set = without(set, mb.idx)
			}
			out = append(out, histState{setState{mb.st, set}, desc})
		}
	}
	return out
}

// warmRange enumerates the rules and continues.
func (c *C) warmRange(rs *ruleSet, st *State) *State {
	for _, o := range rs.rang(st, collector(boolean(true))) {
		if o.kind == oRet {
			return o.st
		}
	}
	return st
}

func showEvents(st *State, es []*Event) string {
	s := ""
	for _, e := range es {
		s += " " + e.name + "("
		for i, a := range e.args {
			if i > 0 {
				s += ", "
			}
			s += st.show(a)
		}
		s += ")"
	}
	return s
}

// collector records the rules passed to a callback; it continues while result is true.
func collector(result Val) *Native {
	return &Native{name: "callback", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		var as []Val
		for _, a := range args {
			as = append(as, st.snap(a))
		}
		st.event(&Event{kind: "callback", name: "fn", args: as, pos: posOf(site)})
		return ret(st, result)
	}}
}

func eventsOf(st *State, mark *Event, kind string) []*Event {
	var r []*Event
	for _, e := range st.events(mark) {
		if e.kind == kind {
			r = append(r, e)
		}
	}
	return r
}

func (c *C) checkRange(rs *ruleSet, h histState) {
	mark := h.st.trace
	for _, o := range rs.rang(h.st, collector(boolean(true))) {
		if !c.noPanic("enumerate", rs.name, o) {
			continue
		}
		var got []Val
		for _, e := range eventsOf(o.st, mark, "callback") {
			got = append(got, e.args[0])
		}
		cons := rs.name
		c.ob("enumerate", cons, c.sameSet(o.st, got, h.set), o.st, token.NoPos, "the history %q leaves the rules %s but %s are enumerated", h.desc, showVals(o.st, h.set), showVals(o.st, got))
	}
}

func showVals(st *State, vs []Val) string {
	s := "{"
	for i, v := range vs {
		if i > 0 {
			s += "; "
		}
		s += st.show(v)
	}
	return s + "}"
}

// sameSet: both lists contain the same values, each once (values of b are pairwise distinct)
func (c *C) sameSet(st *State, a, b []Val) tri {
	if len(a) != len(b) {
		return tNo
	}
	res := tYes
	for _, w := range b {
		best := tNo
		for _, g := range a {
			switch t := c.same(st, g, w); t {
			case tYes:
				best = tYes
			case tMaybe, tUnknown:
				if best == tNo {
					best = t
				}
			}
		}
		res = allOf(res, best)
	}
	return res
}
