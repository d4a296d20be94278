package main

import (
	"fmt"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C24: definitions can be set and removed, each affects its own key only.

type mdef struct{ key, val string }

var mdefs = []mdef{{"r", "x, y"}, {"r2", "y, x"}, {"p", "a, b"}, {"p2", "a"}, {"g", "_,_"}, {"g2", "_,_,_"}, {"e", "some(where(p.eft==allow))"}, {"e2", "!some(where(p.eft==deny))"},
	{"m", "r.x == p.a && r.y == p.b"}, {"m2", "g(r.x, p.a)"}, {"m3", "r.x == p2.a"}}

// wideDefs have longer keys or more arguments.
var wideDefs = []mdef{{"r10", "x, y, z"}, {"p10", "a, b, c, d"}, {"g10", "_,_,_,_"}, {"e10", "some(where(p.eft==allow))&&!some(where(p.eft==deny))"}, {"m10", "r10.z == p10.c && g10(r10.y, p10.d, p10.a, p10.b)"}, {"p_x", "a"}, {"rule", "x"}}

var mneeds = map[string][]string{"m": {"p"}, "m2": {"p", "g"}, "m3": {"p2"}}

var secNames = []struct {
	sec  byte
	name string
}{{'r', "request_definition"}, {'p', "policy_definition"}, {'g', "role_definition"}, {'e', "policy_effect"}, {'m', "matchers"}}

// defState is a model with the definitions and rules it should have.
type defState struct {
	st    *State
	defs  map[string]string
	rules map[string][][]string
	built map[string]bool
	stale map[string]bool // matchers of a policy that was removed
	desc  string
}

func (d *defState) copy() *defState {
	n := &defState{st: d.st.clone(), defs: map[string]string{}, rules: map[string][][]string{}, built: map[string]bool{}, stale: map[string]bool{}, desc: d.desc}
	for k, v := range d.defs {
		n.defs[k] = v
	}
	for k, v := range d.rules {
		n.rules[k] = append([][]string{}, v...)
	}
	for k, v := range d.built {
		n.built[k] = v
	}
	for k, v := range d.stale {
		n.stale[k] = v
	}
	return n
}

type defSys struct {
	c          *C
	model, enf Val
}

func (s *defSys) m(n string) *ssa.Function { return s.c.m("model", "Model", n) }

// do calls a method of the model that must succeed.
func (s *defSys) do(d *defState, name string, args ...Val) *defState {
	var out *defState
	for _, o := range s.c.call(d.st, s.m(name), append([]Val{s.model}, args...)...) {
		if !s.c.noPanic("definitions", "Model."+name, o) {
			continue
		}
		if n := len(o.rets); n > 0 {
			s.c.ob("definitions", "Model."+name, negate(s.c.isErr(o.st, o.rets[n-1])), o.st, token.NoPos, "%s: Model.%s%s fails: %s", d.desc, name, showVals(o.st, args), o.st.show(o.rets[n-1]))
		}
		d.st = o.st
		out = d
	}
	if out == nil {
		panic(abort{"no outcome of Model." + name})
	}
	return d
}

func (s *defSys) set(d *defState, k, v string) *defState {
	d = d.copy()
	d.desc += fmt.Sprintf("SetDef(%s); ", k)
	s.c.scen = d.desc
	d = s.do(d, "SetDef", byteVal(k[0]), str(k), str(v))
	d.defs[k] = v
	if k[0] == 'm' {
		d.stale[k] = d.built[k]
	}
	return s.build(d)
}

// build builds the matchers that can be built.
func (s *defSys) build(d *defState) *defState {
	for _, m := range []string{"m", "m2", "m3"} {
		ok := d.defs[m] != ""
		for _, n := range mneeds[m] {
			ok = ok && d.defs[n] != ""
		}
		if ok && (!d.built[m] || d.stale[m]) {
			d = s.do(d, "BuildMatcher", str(m))
			d.built[m], d.stale[m] = true, false
		}
	}
	return d
}

func (s *defSys) add(d *defState, r ...string) *defState {
	d = d.copy()
	o := s.c.one(s.c.call(d.st, s.c.enf("AddRule"), s.enf, s.c.strs(d.st, strVals(r)...)), "AddRule")
	s.c.ob("others", "Enforcer.AddRule", allOf(s.c.truth(o.st, o.rets[0]), negate(s.c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%sAddRule%v returns %s, %s", d.desc, r, o.st.show(o.rets[0]), o.st.show(o.rets[1]))
	d.st = o.st
	d.rules[r[0]] = append(d.rules[r[0]], r)
	return d
}

func (s *defSys) remove(d *defState, sec byte, k string) *defState {
	d = d.copy()
	d.desc += fmt.Sprintf("RemoveDef('%c', %s); ", sec, k)
	s.c.scen = d.desc
	d = s.do(d, "RemoveDef", byteVal(sec), str(k))
	if sec != k[0] {
		return d
	}
	delete(d.defs, k)
	delete(d.rules, k)
	if sec == 'm' {
		d.built[k] = false
	}
	for m, ns := range mneeds {
		if sec == 'p' && hasStr(ns, k) {
			d.stale[m] = true
		}
	}
	return d
}

// view compares everything that can be observed with the expected definitions.
func (s *defSys) view(d *defState) {
	c := s.c
	c.scenario("%s", d.desc)
	has := func(rule, cons string, st *State, key string, got Val, want bool) {
		t := c.truth(st, got)
		if !want {
			t = negate(t)
		}
		c.ob(rule, cons, t, st, token.NoPos, "%s%s(%s) reports %s", d.desc, cons, key, st.show(got))
	}
	for _, md := range append(append([]mdef{}, mdefs...), wideDefs...) {
		k := md.key
		_, present := d.defs[k]
		acc := map[byte][]string{'r': {"GetRequestDef"}, 'p': {"GetPolicy"}, 'g': {"GetPolicy", "GetRoleManager"}, 'e': {"GetEffector"}, 'm': {"GetMatcher"}}[k[0]]
		for _, f := range acc {
			want := present
			if f == "GetMatcher" {
				want = d.built[k]
				if present && d.stale[k] {
					continue
				}
			}
			for _, o := range c.call(d.st.clone(), s.m(f), s.model, str(k)) {
				if c.noPanic("definitions", "Model."+f, o) {
					has("definitions", "Model."+f, o.st, k, o.rets[1], want)
				}
			}
		}
		for _, o := range c.call(d.st.clone(), s.m("GetDef"), s.model, byteVal(k[0]), str(k)) {
			if !c.noPanic("definitions", "Model.GetDef", o) {
				continue
			}
			has("definitions", "Model.GetDef", o.st, k, o.rets[1], present)
			if present && c.truth(o.st, o.rets[1]) == tYes {
				for _, f := range []string{"GetKey", "String"} {
					want := k
					if f == "String" {
						want = k + " = " + d.defs[k]
					}
					for _, q := range c.icall(o.st, o.rets[0], f) {
						if c.noPanic("definitions", "definition."+f, q) {
							c.ob("definitions", "definition."+f, c.same(q.st, q.rets[0], str(want)), q.st, token.NoPos, "%sthe definition %s is %s, set was %q", d.desc, k, q.st.show(q.rets[0]), want)
						}
					}
				}
			}
		}
		if k[0] != 'p' && k[0] != 'g' {
			continue
		}
		st := d.st.clone()
		vals := []string{k, "n1", "n2"}
		if k == "g2" {
			vals = append(vals, "d")
		}
		if k == "g10" {
			vals = append(vals, "d", "d2")
		}
		for _, o := range c.call(st, s.m("AddRule"), s.model, c.strs(st, strVals(vals)...)) {
			if c.noPanic("definitions", "Model.AddRule", o) {
				e := c.isErr(o.st, o.rets[1])
				if present {
					e = negate(e)
				}
				has("definitions", "Model.AddRule", o.st, k, o.rets[0], present)
				c.ob("definitions", "Model.AddRule", e, o.st, token.NoPos, "%sAddRule of a rule of %s returns the error %s", d.desc, k, o.st.show(o.rets[1]))
			}
		}
	}
	// text
	text := ""
	for _, sec := range secNames {
		var ks []string
		for k := range d.defs {
			if k[0] == sec.sec {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			continue
		}
		sort.Strings(ks)
		text += "[" + sec.name + "]\n"
		for _, k := range ks {
			text += k + " = " + d.defs[k] + "\n"
		}
		text += "\n"
	}
	for _, o := range c.call(d.st.clone(), s.m("String"), s.model) {
		if c.noPanic("definitions", "Model.String", o) {
			c.ob("definitions", "Model.String", c.same(o.st, o.rets[0], str(text)), o.st, token.NoPos, "%sString returns %s, expected is %q", d.desc, o.st.show(o.rets[0]), text)
		}
	}
	// rules
	var want []Val
	for _, rs := range d.rules {
		for _, r := range rs {
			want = append(want, d.st.snap(c.strs(d.st, strVals(r)...)))
		}
	}
	mark := d.st.trace
	for _, o := range c.call(d.st.clone(), s.m("RangeRules"), s.model, collector(boolean(true))) {
		if c.noPanic("others", "Model.RangeRules", o) {
			got := callbackArgs(o.st, mark)
			c.ob("others", "Model.RangeRules", c.sameSet(o.st, got, want), o.st, token.NoPos, "%sthe rules are %s, expected are %s", d.desc, showVals(o.st, got), showVals(o.st, want))
		}
	}
	// matchers built now know the functions that are there
	if d.defs["p"] != "" {
		for _, x := range []struct {
			expr string
			ok   bool
		}{{"f(r.x) && p.a == r.x", true}, {"pathMatch(r.x, p.a)", true}, {"g(r.x, p.a)", d.defs["g"] != ""}, {"g2(r.x, p.a, r.y)", d.defs["g2"] != ""}} {
			st := d.st.clone()
			o := c.one(c.call(st, c.fn("model/defs", "NewMatcherDef"), str("mx"), str(x.expr)), "NewMatcherDef")
			for _, q := range c.call(o.st, s.m("BuildMatcherFromDef"), s.model, o.rets[0]) {
				if c.noPanic("others", "Model.BuildMatcherFromDef", q) {
					t := c.isErr(q.st, q.rets[1])
					if x.ok {
						t = negate(t)
					}
					c.ob("others", "Model.BuildMatcherFromDef", t, q.st, token.NoPos, "%sbuilding %q returns the error %s", d.desc, x.expr, q.st.show(q.rets[1]))
				}
			}
		}
	}
	// decisions
	link := func(u, r string) bool {
		for _, l := range d.rules["g"] {
			if l[1] == u && l[2] == r {
				return true
			}
		}
		return u == r
	}
	if d.built["m10"] && d.defs["p10"] != "" && d.defs["g10"] != "" && d.defs["r10"] != "" && d.defs["e10"] != "" && len(d.rules["p10"]) > 0 && !d.stale["m10"] {
		for _, rq := range [][]string{{"q", "u", "c2"}, {"q", "c3", "c2"}, {"u", "c1", "c2"}, {"c2", "u", "c1"}} {
			want := false
			for _, p := range d.rules["p10"] {
				for _, g := range append([][]string{{"g10", p[4], p[4], p[1], p[2]}}, d.rules["g10"]...) {
					want = want || rq[2] == p[3] && rq[1] == g[1] && p[4] == g[2] && p[1] == g[3] && p[2] == g[4]
				}
			}
			st, os := c.options([2]string{"SetMatcher", "m10"}, [2]string{"SetRequestDef", "r10"}, [2]string{"SetEffector", "e10"})(d.st.clone())
			for _, o := range c.call(st, c.enf("Enforce"), s.enf, c.anys(st, append(append([]Val{}, os...), strVals(rq)...)...)) {
				if !c.noPanic("others", "Enforcer.Enforce", o) {
					continue
				}
				t := c.truth(o.st, o.rets[0])
				if !want {
					t = negate(t)
				}
				c.ob("others", "Enforcer.Enforce", allOf(t, negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%sEnforce%v with m10, r10, e10 returns %s, %s", d.desc, rq, o.st.show(o.rets[0]), o.st.show(o.rets[1]))
			}
		}
	}
	for _, mk := range []string{"m", "m2", "m3"} {
		pk := mneeds[mk][0]
		missing := ""
		for _, n := range append([]string{"r", "e", mk}, mneeds[mk]...) {
			if d.defs[n] == "" {
				missing = n
			}
		}
		if missing == "" && (d.stale[mk] || len(d.rules[pk]) == 0) {
			continue
		}
		for _, rq := range [][]string{{"c0", "c1"}, {"u", "c1"}, {"z", "z"}} {
			want := false
			for _, p := range d.rules[pk] {
				switch expr := d.defs[mk]; {
				case expr == "true":
					want = true
				case expr == "r.x == p.b":
					want = want || p[2] == rq[0]
				case mk == "m3", expr == "r.x == p.a":
					want = want || p[1] == rq[0]
				case mk == "m":
					want = want || p[1] == rq[0] && p[2] == rq[1]
				case mk == "m2":
					want = want || link(rq[0], p[1])
				}
			}
			if d.defs["e"] == mdefs[7].val { // no rule denies
				want = true
			}
			vals := append([]string{}, rq...)
			switch d.defs["r"] {
			case "y, x":
				vals[0], vals[1] = rq[1], rq[0]
			case "y, x, z":
				vals = []string{rq[1], rq[0], "c"}
			}
			opts := noOptions
			if mk != "m" {
				opts = c.options([2]string{"SetMatcher", mk})
			}
			st, os := opts(d.st.clone())
			for _, o := range c.call(st, c.enf("Enforce"), s.enf, c.anys(st, append(append([]Val{}, os...), strVals(vals)...)...)) {
				if !c.noPanic("others", "Enforcer.Enforce", o) {
					continue
				}
				if missing != "" {
					c.ob("others", "Enforcer.Enforce", allOf(c.isErr(o.st, o.rets[1]), negate(c.truth(o.st, o.rets[0]))), o.st, token.NoPos, "%sEnforce with %s returns %s, %s although %s is not defined", d.desc, mk, o.st.show(o.rets[0]), o.st.show(o.rets[1]), missing)
					continue
				}
				t := c.truth(o.st, o.rets[0])
				if !want {
					t = negate(t)
				}
				c.ob("others", "Enforcer.Enforce", allOf(t, negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%sEnforce%v with %s returns %s, %s", d.desc, rq, mk, o.st.show(o.rets[0]), o.st.show(o.rets[1]))
			}
		}
	}
}

// warm continues after decisions with every matcher.
func (s *defSys) warm(d *defState) *defState {
	c := s.c
	d = d.copy()
	d.desc += "queries; "
	c.scen = d.desc
	for _, mk := range []string{"m", "m2", "m3"} {
		for _, api := range []string{"Enforce", "Filter"} {
			for _, rq := range [][]string{{"c0", "c1"}, {"u", "c1"}, {"z", "z"}} {
				st, os := c.options([2]string{"SetMatcher", mk})(d.st.clone())
				for _, o := range c.call(st, c.enf(api), s.enf, c.anys(st, append(append([]Val{}, os...), strVals(rq)...)...)) {
					if o.kind == oRet {
						d.st = o.st
						break
					}
				}
			}
		}
	}
	return d
}

func (c *C) defStart(order []int) (*defSys, *defState) {
	s := &defSys{c: c}
	st, m := c.newModel(c.start())
	s.model = m
	st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), m, str("f"), boolFn("f", false)), "SetFunction").st
	st, s.enf = c.enforcer(st, m)
	d := &defState{st: st, defs: map[string]string{}, rules: map[string][][]string{}, built: map[string]bool{}, stale: map[string]bool{}}
	for _, i := range order {
		d = s.set(d, mdefs[i].key, mdefs[i].val)
	}
	d.desc = "all definitions; "
	if len(order) < len(mdefs) {
		d.desc = fmt.Sprintf("the definitions %v; ", order)
	}
	for _, r := range [][]string{{"p", "c0", "c1"}, {"p", "c2", "c1"}, {"p2", "c0"}, {"g", "u", "c0"}, {"g2", "u", "c0", "d"}} {
		if _, ok := d.defs[r[0]]; ok {
			d = s.add(d, r...)
		}
	}
	return s, d
}

func runC24(c *C) {
	n := len(mdefs)
	fwd, bwd := make([]int, n), make([]int, n)
	for i := range fwd {
		fwd[i], bwd[i] = i, n-1-i
	}
	for _, o := range [][]int{fwd, bwd} {
		s, d := c.defStart(o)
		s.view(d)
	}
	// the definitions one after another
	{
		s := &defSys{c: c}
		st, m := c.newModel(c.start())
		s.model = m
		st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), m, str("f"), boolFn("f", false)), "SetFunction").st
		st, s.enf = c.enforcer(st, m)
		d := &defState{st: st, defs: map[string]string{}, rules: map[string][][]string{}, built: map[string]bool{}, stale: map[string]bool{}, desc: "new model; "}
		s.view(d)
		for _, i := range bwd {
			d = s.set(d, mdefs[i].key, mdefs[i].val)
			s.view(d)
		}
	}
	s, d := c.defStart(fwd)
	again := func(d *defState, k, v string) *defState {
		d = s.set(d, k, v)
		if k[0] == 'p' {
			d = s.add(d, k, "c0", "c1")
		}
		return d
	}
	asked := s.warm(d)
	for _, a := range mdefs {
		d1 := s.remove(asked, a.key[0], a.key)
		s.view(d1)
		if c.thorough {
			d1 = s.warm(d1)
		}
		s.view(s.set(d1, a.key, a.val))
		s.view(again(d1, a.key, a.val))
	}
	for i, a := range mdefs {
		d1 := s.remove(d, a.key[0], a.key)
		s.view(d1)
		s.view(s.remove(d1, a.key[0], a.key))
		d2 := s.set(d1, a.key, a.val)
		s.view(d2)
		s.view(again(d1, a.key, a.val))
		for j, b := range mdefs {
			if i == j || !c.thorough && a.key[0] != b.key[0] && (i+j)%4 != 0 {
				continue
			}
			d3 := s.remove(d1, b.key[0], b.key)
			s.view(d3)
			if c.thorough {
				s.view(s.set(d3, a.key, a.val))
			}
		}
	}
	// models with a single definition in a section
	for _, skip := range [][]int{fwd, bwd} {
		var order []int
		for _, i := range skip {
			if len(mdefs[i].key) == 1 {
				order = append(order, i)
			}
		}
		s, d := c.defStart(order)
		for _, d := range []*defState{d, s.warm(d)} {
			for i, a := range mdefs {
				if len(a.key) > 1 {
					continue
				}
				d1 := s.remove(d, a.key[0], a.key)
				s.view(d1)
				s.view(again(d1, a.key, a.val))
				if d1 = s.remove(d1, a.key[0], a.key); c.thorough {
					s.view(d1)
				}
				for j := i + 1; j < n; j++ {
					if b := mdefs[j]; len(b.key) == 1 {
						s.view(s.remove(d1, b.key[0], b.key))
					}
				}
			}
		}
	}
	// longer keys next to the short ones
	{
		wd := d
		for _, x := range wideDefs {
			wd = s.set(wd, x.key, x.val)
			s.view(wd)
		}
		wd = s.do(wd.copy(), "BuildMatcher", str("m10"))
		wd.built["m10"] = true
		wd = s.add(s.add(wd, "p10", "c0", "c1", "c2", "c3"), "g10", "u", "c3", "c0", "c1")
		s.view(wd)
		for _, x := range wideDefs {
			s.view(s.remove(wd, x.key[0], x.key))
		}
		for _, k := range []string{"r", "p", "g", "e", "m", "m2", "g2"} {
			s.view(s.remove(wd, k[0], k))
		}
	}
	// keys of other sections and unknown keys
	for _, x := range []struct {
		sec byte
		key string
	}{{'p', "g"}, {'g', "p"}, {'g', "f"}, {'g', "pathMatch"}, {'m', "p"}, {'e', "m"}, {'r', "e"}, {'g', "g3"}, {'p', "p3"}, {'m', "m9"}, {'e', "e9"}, {'r', "r9"}, {'g', "m"}} {
		nd := d.copy()
		nd.desc += fmt.Sprintf("RemoveDef('%c', %s); ", x.sec, x.key)
		c.scen = nd.desc
		for _, o := range c.call(nd.st, s.m("RemoveDef"), s.model, byteVal(x.sec), str(x.key)) {
			if c.noPanic("others", "Model.RemoveDef", o) {
				nd2 := nd.copy()
				nd2.st = o.st
				s.view(nd2)
			}
		}
	}
	// definitions of the same key with another value
	for _, d := range []*defState{d, asked} {
		for _, x := range []mdef{{"r", "y, x"}, {"r", "y, x, z"}, {"e", "!some(where(p.eft==deny))"}, {"m", "r.x == p.b"}, {"m2", "r.x == p.a"}} {
			nd := s.set(d, x.key, x.val)
			s.view(nd)
			for _, y := range mdefs {
				if y.key == x.key {
					s.view(s.set(nd, y.key, y.val))
				}
			}
			if c.thorough {
				s.view(s.set(s.warm(nd), x.key, x.val))
			}
		}
	}
}

func init() {
	register(&Check{
		id:        "C24",
		technique: "abstract interpretation of histories of SetDef and RemoveDef, everything observable of the model compared with the definitions that are set",
		rules: map[string]string{
			"definitions": "accessors, text and rules of a key follow SetDef and RemoveDef",
			"others":      "all other definitions, rules, functions and decisions stay as they are",
		},
		run: runC24,
	})
}
