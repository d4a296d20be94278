package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// C31: a model that is read from a text or file is the model its definitions make.

const modelPath = "model.conf"

// mtext is a text and the definitions it contains.
type mtext struct {
	name string
	text string
	defs map[string]string
}

func defSet(keys ...string) map[string]string {
	m := map[string]string{}
	for _, d := range mdefs {
		if len(keys) == 0 || hasStr(keys, d.key) {
			m[d.key] = d.val
		}
	}
	return m
}

// textOf writes definitions in an order of sections; line formats a definition.
func textOf(defs map[string]string, order []int, rev bool, line func(k, v string) string) string {
	t := ""
	for _, i := range order {
		var ks []string
		for k := range defs {
			if k[0] == secNames[i].sec {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			continue
		}
		sort.Strings(ks)
		if rev {
			sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		}
		t += "[" + secNames[i].name + "]\n"
		for _, k := range ks {
			t += line(k, defs[k])
		}
	}
	return t
}

func modelTexts(thorough bool) []mtext {
	plain := func(k, v string) string { return k + " = " + v + "\n" }
	fwd := []int{0, 1, 2, 3, 4}
	all := defSet()
	ts := []mtext{
		{"all definitions", textOf(all, fwd, false, plain), all},
		{"keys in reverse order", textOf(all, fwd, true, plain), all},
		{"no spaces", textOf(all, fwd, false, func(k, v string) string { return k + "=" + v + "\n" }), all},
		{"wide", textOf(all, fwd, false, func(k, v string) string { return "\n  " + k + "\t =   " + v + "  \n\n" }), all},
		{"comments", "# head\n" + textOf(all, fwd, true, func(k, v string) string { return "# " + k + " = zzz\n" + k + " = " + v + "\n; c\n" }), all},
		{"line ends \\r\\n", strings.ReplaceAll(textOf(all, fwd, false, plain), "\n", "\r\n"), all},
		{"no line end at the end", strings.TrimSuffix(textOf(all, fwd, false, plain), "\n"), all},
		{"unknown sections", "top = 1\n[other]\nm = x\np = x, y\n" + textOf(all, fwd, false, plain) + "[matcher]\nm = y\n[request_definitions]\nr = q\n", all},
		{"sections with similar names", "[Policy_Definition]\np9 = a\np = z\n[MATCHERS]\nm = y\nm9 = true\n[Request_definition]\nr9 = x\n[role_Definition]\ng9 = _,_\n[POLICY_EFFECT]\ne9 = q\n" + textOf(all, fwd, false, plain) + "[matchers2]\nm9 = true\n[xpolicy_definition]\np9 = a\n[policy definition]\np9 = a\n[r]\nr9 = x\n[p]\np9 = x\n[g]\ng9 = _,_\n[e]\ne9 = q\n[m]\nm9 = y\n[roles]\ng9 = _,_\n[policy_effects]\ne9 = q\n[request-definition]\nr9 = x\n", all},
		{"continued lines", textOf(all, fwd, false, func(k, v string) string {
			return k + " = " + strings.ReplaceAll(strings.ReplaceAll(v, ", ", ", \\\n  "), "&& ", "&& \\\n ") + "\n"
		}), all},
		{"sections in two parts", textOf(defSet("r", "p", "g", "e", "m"), fwd, false, plain) + textOf(defSet("r2", "p2", "g2", "e2", "m2", "m3"), []int{4, 2, 0, 1, 3}, false, plain), all},
	}
	orders := permsOf(5)
	for i, o := range orders {
		if !thorough && i%12 != 5 && i != len(orders)-1 {
			continue
		}
		ts = append(ts, mtext{fmt.Sprintf("sections in the order %v", o), textOf(all, o, i%2 == 1, plain), all})
	}
	for _, ks := range [][]string{{}, {"r", "p", "e", "m"}, {"r", "p", "g", "e", "m2"}, {"r", "p2", "e", "m3"}, {"r", "r2", "e"}, {"p", "p2", "g2"}, {"e2"}, {"r2", "p", "g", "e", "e2", "m", "m2"}} {
		d := map[string]string{}
		if len(ks) > 0 {
			d = defSet(ks...)
		}
		ts = append(ts, mtext{fmt.Sprintf("only %v", ks), textOf(d, []int{4, 3, 2, 1, 0}, false, plain), d})
	}
	wide := defSet()
	for _, d := range wideDefs {
		wide[d.key] = d.val
	}
	ts = append(ts, mtext{"long keys", textOf(wide, fwd, false, plain), wide}, mtext{"long keys in reverse order", textOf(wide, []int{4, 3, 2, 1, 0}, true, plain), wide})
	for _, d := range []map[string]string{
		{"p": "a, b", "m": "true"}, {"r": "x, y", "p": "a", "m": "true"}, {"r": "x, y", "p": "a, b", "e": "some(where(p.eft==allow))", "m": "true"},
		{"r": "x, y", "p": "a, b", "e": "some(where(p.eft==allow))", "m": "r.x == p.a"}, {"p": "a", "e": "!some(where(p.eft==deny))"}, {"g": "_,_", "g2": "_,_,_"},
	} {
		ts = append(ts, mtext{fmt.Sprintf("only %v", d), textOf(d, fwd, false, plain), d})
	}
	return ts
}

func permsOf(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permsOf(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

var textWays = []string{"LoadModelFromText", "LoadModel", "NewModelFromFile", "NewEnforcer"}

// loaded is an outcome of loading; the model is nil if there was an error.
type loaded struct {
	st         *State
	model, enf Val
	err        Val
}

// loadText loads a text in one of the ways into a new model.
func (c *C) loadText(st *State, way, text string) []loaded {
	st = st.clone()
	st.fsPut(str(modelPath), str(text))
	return c.loadFrom(st, way, str(text))
}

func (c *C) loadFrom(st *State, way string, text Val) []loaded {
	var outs []loaded
	rule := "load"
	switch way {
	case "LoadModelFromText", "LoadModel":
		st, m := c.newModel(st)
		arg := text
		if way == "LoadModel" {
			arg = str(modelPath)
		}
		for _, o := range c.call(st, c.m("model", "Model", way), m, arg) {
			if c.noPanic(rule, "Model."+way, o) {
				outs = append(outs, loaded{o.st, m, nil, o.rets[0]})
			}
		}
	case "NewModelFromFile":
		for _, o := range c.call(st, c.fn("model", way), str(modelPath)) {
			if c.noPanic(rule, way, o) {
				outs = append(outs, loaded{o.st, o.rets[0], nil, o.rets[1]})
			}
		}
	case "NewEnforcer":
		for _, o := range c.call(st, c.fn("", way), &Iface{tString, str(modelPath)}, nilOf(anyT), c.optSlice(st)) {
			if !c.noPanic(rule, way, o) {
				continue
			}
			if c.isErr(o.st, o.rets[1]) != tNo {
				outs = append(outs, loaded{o.st, nil, nil, o.rets[1]})
				continue
			}
			q := c.one(c.call(o.st, c.enf("GetModel"), o.rets[0]), "GetModel")
			m := q.st.norm(q.rets[0])
			if i, ok := m.(*Iface); ok {
				m = q.st.norm(i.val)
			}
			outs = append(outs, loaded{q.st, m, o.rets[0], o.rets[1]})
		}
	}
	return outs
}

// viewOf prepares a loaded model for the comparison with its definitions.
func (c *C) viewOf(l loaded, t mtext, desc string) (*defSys, *defState) {
	s := &defSys{c: c, model: l.model, enf: l.enf}
	st := c.one(c.call(l.st, c.m("model", "Model", "SetFunction"), l.model, str("f"), boolFn("f", false)), "SetFunction").st
	if s.enf == nil {
		st, s.enf = c.enforcer(st, l.model)
	}
	d := &defState{st: st, defs: map[string]string{}, rules: map[string][][]string{}, built: map[string]bool{}, stale: map[string]bool{}, desc: desc + "; "}
	for k, v := range t.defs {
		d.defs[k] = v
		if k[0] == 'm' {
			d.built[k] = true
		}
	}
	return s, d
}

func (s *defSys) someRules(d *defState) *defState {
	for _, r := range [][]string{{"p", "c0", "c1"}, {"p", "c2", "c1"}, {"p2", "c0"}, {"g", "u", "c0"}, {"g2", "u", "c0", "d"}, {"p10", "c0", "c1", "c2", "c3"}, {"g10", "u", "c3", "c0", "c1"}} {
		if d.defs[r[0]] != "" {
			d = s.add(d, r...)
		}
	}
	return d
}

func (c *C) textString(s *defSys, d *defState) (string, bool) {
	for _, o := range c.call(d.st.clone(), s.m("String"), s.model) {
		if c.noPanic("load", "Model.String", o) {
			return constStr(o.st.norm(o.rets[0]))
		}
	}
	return "", false
}

func runC31(c *C) {
	texts := modelTexts(c.thorough)
	for i, t := range texts {
		for j, way := range textWays {
			if !c.thorough && i >= 4 && (i+j)%2 == 1 {
				continue
			}
			c.scenario("%s of a text (%s)", way, t.name)
			for _, l := range c.loadText(c.start(), way, t.text) {
				e := c.isErr(l.st, l.err)
				c.ob("load", way, negate(e), l.st, token.NoPos, "%s of a text (%s) fails: %s\n%s", way, t.name, l.st.show(l.err), t.text)
				if e != tNo {
					continue
				}
				s, d := c.viewOf(l, t, way+" ("+t.name+")")
				if i%3 == 0 || c.thorough {
					s.view(d)
				}
				d = s.someRules(d)
				s.view(d)
				if i > 1 && !strings.HasPrefix(t.name, "long") && !c.thorough {
					continue
				}
				// the text of the model, loaded again
				d = s.warm(d)
				if text, ok := c.textString(s, d); ok {
					c.scenario("%s of the text of a loaded model (%s)", way, t.name)
					for _, l2 := range c.loadText(d.st, way, text) {
						e := c.isErr(l2.st, l2.err)
						c.ob("again", way, negate(e), l2.st, token.NoPos, "%s of the text of a model (%s) fails: %s\n%s", way, t.name, l2.st.show(l2.err), text)
						if e == tNo {
							s2, d2 := c.viewOf(l2, t, way+" of the text of a model ("+t.name+")")
							s2.view(s2.someRules(d2))
						}
						// the first model is what it was
						d1 := d.copy()
						d1.st = l2.st
						s.view(d1)
					}
				} else {
					c.ob("again", "Model.String", tNo, d.st, token.NoPos, "the text of a model with constant definitions is not determined")
				}
			}
		}
	}
	c.textHistory()
	c.textErrors()
}

// textHistory loads texts into models that have definitions and rules already.
func (c *C) textHistory() {
	plain := func(k, v string) string { return k + " = " + v + "\n" }
	fwd := []int{0, 1, 2, 3, 4}
	first := []string{"r", "p", "g", "e", "m", "m2"}
	second := []string{"r2", "p2", "g2", "e2", "m3"}
	for _, way := range []string{"LoadModelFromText", "LoadModel"} {
		load := func(s *defSys, d *defState, name, text string) *defState {
			d = d.copy()
			d.desc += way + " (" + name + "); "
			c.scen = d.desc
			d.st.fsPut(str(modelPath), str(text))
			arg := str(modelPath)
			if way == "LoadModelFromText" {
				arg = str(text)
			}
			return s.do(d, way, arg)
		}
		start := func(keys []string) (*defSys, *defState) {
			s := &defSys{c: c}
			st, m := c.newModel(c.start())
			s.model = m
			st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), m, str("f"), boolFn("f", false)), "SetFunction").st
			st, s.enf = c.enforcer(st, m)
			d := &defState{st: st, defs: map[string]string{}, rules: map[string][][]string{}, built: map[string]bool{}, stale: map[string]bool{}, desc: "new model; "}
			for _, k := range keys {
				d = s.set(d, k, defSet(k)[k])
			}
			return s, d
		}
		has := func(d *defState, keys []string) *defState {
			for k, v := range defSet(keys...) {
				d.defs[k] = v
				if k[0] == 'm' {
					d.built[k], d.stale[k] = true, false
				}
			}
			return d
		}
		text := textOf(defSet(second...), fwd, false, plain)
		for _, warm := range []bool{false, true} {
			// definitions set before and after
			s, d := start(first)
			d = s.someRules(d)
			if warm {
				d = s.warm(d)
			}
			d = has(load(s, d, "other definitions", text), second)
			s.view(d)
			for _, r := range [][]string{{"p2", "c0"}, {"g2", "u", "c0", "d"}} {
				d = s.add(d, r...)
			}
			s.view(d)
			if warm {
				d = s.warm(d)
			}
			d = s.remove(d, 'm', "m3")
			s.view(d)
			// and loaded again
			d = has(load(s, d, "a matcher", "[matchers]\nm3 = "+defSet("m3")["m3"]+"\n"), []string{"m3"})
			s.view(d)
			if warm {
				d = s.warm(d)
			}
			d = load(s, d, "an unknown section", "[x]\nm3 = y\nr = z\n")
			s.view(d)
		}
		// values that replace former ones
		for _, r := range []struct{ key, sec, val string }{{"r", "request_definition", "y, x, z"}, {"e", "policy_effect", "!some(where(p.eft==deny))"}, {"m", "matchers", "r.x == p.b"}, {"m2", "matchers", "r.x == p.a || r.y == p.a"}} {
			s, d := start(first)
			d = s.someRules(d)
			d = s.warm(d)
			d = load(s, d, "another value of "+r.key, "["+r.sec+"]\n"+r.key+" = "+r.val+"\n")
			d.defs[r.key] = r.val
			// decisions with other values are judged below
			for _, m := range []string{"m", "m2", "m3"} {
				d.stale[m] = d.defs[m] != ""
			}
			s.view(d)
			for _, rq := range [][]string{{"c0", "c1"}, {"c1", "c1"}, {"c1", "c0"}, {"z", "c2"}, {"z", "z"}} {
				for _, mk := range []string{"m", "m2"} {
					if mk == "m2" && r.key != "m2" || mk == "m" && r.key == "m2" {
						continue
					}
					x, y := rq[0], rq[1]
					vals := strVals(rq)
					want := false
					switch r.key {
					case "r":
						x, y = y, x
						vals = append(vals, str("q"))
						want = (x == "c0" || x == "c2") && y == "c1"
					case "e":
						want = true
					case "m":
						want = x == "c1"
					case "m2":
						want = x == "c0" || x == "c2" || y == "c0" || y == "c2"
					}
					st, os := c.options([2]string{"SetMatcher", mk})(d.st.clone())
					for _, o := range c.call(st, c.enf("Enforce"), s.enf, c.anys(st, append(append([]Val{}, os...), vals...)...)) {
						if !c.noPanic("load", "Enforcer.Enforce", o) {
							continue
						}
						t := c.truth(o.st, o.rets[0])
						if !want {
							t = negate(t)
						}
						c.ob("load", "Enforcer.Enforce", allOf(t, negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%sEnforce%v with %s returns %s, %s", d.desc, rq, mk, o.st.show(o.rets[0]), o.st.show(o.rets[1]))
					}
				}
			}
		}
	}
}

func (c *C) textErrors() {
	plain := func(k, v string) string { return k + " = " + v + "\n" }
	fwd := []int{0, 1, 2, 3, 4}
	base := textOf(defSet("r", "p", "g", "e", "m"), fwd, false, plain)
	bad := []struct{ name, text string }{
		{"an open section", "[request_definition\nr = x\n"},
		{"a line without =", base + "[matchers]\nm2\n"},
		{"a line without = before", "r x, y\n" + base},
		{"a key without a name", base + "= x\n"},
		{"a key of another section", base + "[policy_definition]\nq = a\n"},
		{"a matcher among the policies", base + "[policy_definition]\nm2 = r.x == p.a\n"},
		{"a role among the requests", base + "[request_definition]\ng2 = _,_\n"},
		{"a matcher that does not parse", base + "[matchers]\nm2 = (r.x == p.a\n"},
		{"a first matcher that does not parse", "[matchers]\nm1 = r.x == == p.a\n" + base},
		{"a matcher of an unknown policy", base + "[matchers]\nm2 = r.x == p9.a\n"},
		{"a matcher that calls an unknown function", base + "[matchers]\nm2 = nosuch(r.x, p.a)\n"},
		{"a matcher that calls an unknown role function", base + "[matchers]\nm2 = g7(r.x, p.a)\n"},
	}
	for _, b := range bad {
		for _, way := range textWays {
			c.scenario("%s of a text with %s", way, b.name)
			for _, l := range c.loadText(c.start(), way, b.text) {
				c.ob("errors", way, c.isErr(l.st, l.err), l.st, token.NoPos, "%s of a text with %s returns no error\n%s", way, b.name, b.text)
			}
		}
	}
	for _, way := range textWays[1:] {
		c.scenario("%s of a missing file", way)
		for _, l := range c.loadFrom(c.start(), way, nil) {
			c.ob("errors", way, c.isErr(l.st, l.err), l.st, token.NoPos, "%s of a missing file returns no error", way)
		}
		c.scenario("%s with a failing read", way)
		c.x.fsFaults = 1
		n := 0
		for _, l := range c.loadText(c.start(), way, base) {
			e := c.isErr(l.st, l.err)
			if len(eventsOf(l.st, nil, "fault")) == 0 {
				e = negate(e)
			} else {
				n++
			}
			c.ob("errors", way, e, l.st, token.NoPos, "%s returns the error %s; faults: %d", way, l.st.show(l.err), len(eventsOf(l.st, nil, "fault")))
		}
		c.x.fsFaults = 0
		if n == 0 {
			panic(abort{way + ": no read of the file"})
		}
	}
}

func init() {
	register(&Check{
		id:        "C31",
		technique: "abstract interpretation of the ways to load a model, everything observable compared with the definitions of the text",
		rules: map[string]string{
			"definitions": "a definition of the text is found by every accessor, no other one is",
			"others":      "rules, functions and decisions are those of a model with the same definitions",
			"load":        "a loaded model has exactly the definitions of the text, its matchers are built",
			"again":       "the text of a model, loaded again, gives the same model",
			"errors":      "texts and files that cannot be used are errors, others are not",
		},
		run: runC31,
	})
}
