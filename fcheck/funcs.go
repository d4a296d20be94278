package main

import (
	"fmt"
	"go/token"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: functions of matchers. The functions are arbitrary, their identity and the order of their arguments is visible in the results.

// valFn is a matcher function that returns an arbitrary string.
func valFn(name string) *Native {
	return &Native{name: name, fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		var as []Val
		for _, a := range elemsOf(st, args[0]) {
			as = append(as, st.snap(a))
		}
		return ret(st, &Iface{tString, T("in:"+name, tString, as...)}, nilErr)
	}}
}

// funState is a model with the functions that are known to it.
type funState struct {
	st  *State
	fns map[string]string // name -> label
}

type funSys struct {
	c          *C
	model, enf Val
	mms        map[string]*mm // matcher key -> specification
	exprs      map[string]string
	rules      [][]Val
	hist       ruleHist
}

func funVal(label string) Val {
	if strings.HasPrefix(label, "s:") {
		return valFn(label)
	}
	return boolFn(label, false)
}

func (s *funSys) uses(key string) []string {
	var r []string
	for _, n := range []string{"f", "h", "k", "regexMatch"} {
		if regexp.MustCompile(`\b` + n + `\(`).MatchString(s.exprs[key]) {
			r = append(r, n)
		}
	}
	return r
}

func (c *C) newFunSys(st *State, exprs map[string]string, order []string, fns map[string]string) (*funSys, funState) {
	s := &funSys{c: c, exprs: exprs}
	ds := [][3]string{{"r", "r", "x, y"}, {"p", "p", "a, b"}, {"e", "e", "some(where (p.eft == allow))"}}
	for _, k := range order {
		ds = append(ds, [3]string{"m", k, exprs[k]})
	}
	st, s.model = c.newModel(st, ds...)
	return s, funState{st, map[string]string{}}
}

func (s *funSys) with(h funState, st *State) funState {
	n := funState{st, map[string]string{}}
	for k, v := range h.fns {
		n.fns[k] = v
	}
	return n
}

func (s *funSys) set(h funState, name, label string) funState {
	c := s.c
	st := c.one(c.call(h.st, c.m("model", "Model", "SetFunction"), s.model, str(name), funVal(label)), "SetFunction").st
	n := s.with(h, st)
	n.fns[name] = label
	return n
}

func (s *funSys) remove(h funState, name string) funState {
	c := s.c
	c.scenario("RemoveFunction(%s), functions: %v", name, h.fns)
	o := c.one(c.call(h.st, c.m("model", "Model", "RemoveFunction"), s.model, str(name)), "RemoveFunction")
	_, was := h.fns[name]
	t := c.truth(o.st, o.rets[0])
	if !was {
		t = negate(t)
	}
	c.ob("removed", "Model.RemoveFunction", t, o.st, token.NoPos, "RemoveFunction(%q) returns %s, the function was known: %v", name, o.st.show(o.rets[0]), was)
	n := s.with(h, o.st)
	delete(n.fns, name)
	return n
}

// build builds all matchers; it fails exactly if a function is missing.
func (s *funSys) build(h funState, key string, desc string) funState {
	c := s.c
	missing := false
	for _, f := range s.uses(key) {
		if _, ok := h.fns[f]; !ok {
			missing = true
		}
	}
	c.scenario("%s; BuildMatcher(%s) %q", desc, key, s.exprs[key])
	o := c.one(c.call(h.st, c.m("model", "Model", "BuildMatcher"), s.model, str(key)), "BuildMatcher")
	e := c.isErr(o.st, o.rets[0])
	if !missing {
		e = negate(e)
	}
	c.ob("unknown", "Model.BuildMatcher", e, o.st, token.NoPos, "BuildMatcher(%s) of %q returns %s with the functions %v", key, s.exprs[key], o.st.show(o.rets[0]), h.fns)
	return s.with(h, o.st)
}

func (s *funSys) start(h funState, rules [][]Val) funState {
	c := s.c
	s.rules = rules
	for _, r := range rules {
		st := h.st.clone()
		var next *State
		for _, o := range c.call(st, c.m("model", "Model", "AddRule"), s.model, c.strs(st, append([]Val{str("p")}, r...)...)) {
			// the rules are different
			if o.kind == oRet && c.truth(o.st, o.rets[0]) == tYes {
				next = o.st
			}
		}
		if next == nil {
			panic(abort{"AddRule does not add a rule"})
		}
		h.st = next
	}
	var st *State
	st, s.enf = c.enforcer(h.st, s.model)
	return s.with(h, st)
}

// judge compares the decisions with the functions that are known.
func (s *funSys) judge(h funState, key, desc string, all bool) {
	c := s.c
	req := []Val{in("rx"), in("ry")}
	expr := s.exprs[key]
	missing := ""
	fns := map[string]Val{}
	for _, f := range s.uses(key) {
		if l, ok := h.fns[f]; ok {
			fns[f] = funVal(l)
		} else {
			missing = f
		}
	}
	mt := &mm{model: s.model, args: []string{"a", "b"}, rargs: []string{"x", "y"}, key: "p", fns: fns}
	var rq []Val
	for _, r := range req {
		rq = append(rq, &Iface{tString, r})
	}
	for i, api := range c.deciders(s.enf, s.model, c.options([2]string{"SetMatcher", key}), req) {
		if !all && i != 0 && i != 2 {
			continue
		}
		c.scenario("%s; %s with %s = %q", desc, api.name, key, expr)
		for _, d := range api.run(h.st) {
			if !c.noPanic("called", api.name, d.o) {
				continue
			}
			if missing != "" {
				t := c.isErr(d.o.st, d.err)
				if d.allowed != nil {
					deny := negate(c.truth(d.o.st, d.allowed))
					if strings.Contains(expr, "&&") {
						// an operand before the call may decide
						t = anyOf(t, deny)
					}
					t = allOf(t, deny)
				} else if strings.Contains(expr, "&&") {
					t = anyOf(t, triOf(len(d.rules) == 0))
				}
				c.ob("unknown", api.name, t, d.o.st, token.NoPos, "the matcher %q needs the unknown function %s, %s returns the error %s", expr, missing, api.name, d.o.st.show(d.err))
				continue
			}
			c.ob("called", api.name, negate(c.isErr(d.o.st, d.err)), d.o.st, token.NoPos, "%s with %q fails: %s", api.name, expr, d.o.st.show(d.err))
			if d.allowed == nil {
				c.checkMatches("called", api.name, d.o, d.rules, matchCase{expr, 1}, mt, ruleHist{st: d.o.st, vals: s.rules, desc: desc}, req)
				continue
			}
			for _, sp := range c.specAll(d.o.st, expr, mt, s.rules, rq) {
				any := false
				for _, b := range sp.mask {
					any = any || b
				}
				t := c.truth(sp.st, d.allowed)
				if !any {
					t = negate(t)
				}
				c.ob("called", api.name, t, sp.st, token.NoPos, "%s with %q returns %s, the functions %v say %v", api.name, expr, sp.st.show(d.allowed), h.fns, any)
			}
		}
	}
}

// ask decides a request and continues with the case in which it is allowed.
func (s *funSys) ask(h funState, key string) funState {
	c := s.c
	c.scenario("Enforce with %s = %q", key, s.exprs[key])
	st, os := c.options([2]string{"SetMatcher", key})(h.st.clone())
	var next *State
	for _, o := range c.call(st, c.enf("Enforce"), s.enf, c.anys(st, append(append([]Val{}, os...), in("rx"), in("ry"))...)) {
		if o.kind == oRet && (next == nil || c.truth(o.st, o.rets[0]) == tYes) {
			next = o.st
		}
	}
	if next == nil {
		panic(abort{"Enforce does not return"})
	}
	return s.with(h, next)
}

var funExprs = []string{
	`f(r.x, p.a)`, `f(p.a, r.x)`, `f(r.x, p.a, r.y, p.b)`, `f(p.b, p.a)`, `f(r.y, r.x)`, `f(r.x, "c", p.a)`, `f("p.a", r.x)`, `f(p.a) && h(r.x)`, `f(r.x, p.a) && r.y == p.b`,
	`h(p.a, r.x) && f(p.a, r.x)`, `!f(r.x, p.b)`, `f(k(p.a), r.x)`, `k(r.x) == p.a`, `k(p.a) == k(r.x)`, `f(r.x, k(k(p.b)))`, `h(r.x, r.x) && f(p.a, p.a)`, `regexMatch(r.x, p.a) && f(r.y, p.b)`,
}

// funHistories explores histories of SetFunction and RemoveFunction.
func (c *C) funHistories() {
	exprs := map[string]string{"m": `f(r.x, p.a) && r.y == p.b`, "m2": `h(p.b, r.x) && f(r.y, p.a)`, "m3": `r.x == p.a`, "m4": `k(p.a) == r.x`}
	order := []string{"m", "m2", "m3", "m4"}
	depth := 2
	if c.thorough {
		depth = 3
	}
	type op struct{ name, label string }
	ops := []op{{"f", "F2"}, {"f", ""}, {"h", "H2"}, {"h", ""}, {"k", "s:K2"}, {"k", ""}, {"f", "F1"}, {"other", "O"}, {"other", ""}}
	for _, late := range []bool{false, true} {
		s, h := c.newFunSys(c.start(), exprs, order, nil)
		for _, p := range [][2]string{{"f", "F1"}, {"h", "H1"}, {"k", "s:K1"}} {
			h = s.set(h, p[0], p[1])
		}
		desc := "matchers built, rule added"
		if late {
			h = s.start(h, [][]Val{inVals("p", 2)})
			desc = "rule added, matchers built"
		}
		for _, k := range order {
			h = s.build(h, k, desc)
		}
		if !late {
			h = s.start(h, [][]Val{inVals("p", 2)})
		}
		var rec func(h funState, desc string, left int)
		warm := false
		rec = func(h funState, desc string, left int) {
			for _, k := range order {
				s.judge(h, k, desc, left == depth)
			}
			if left == 0 {
				return
			}
			if warm {
				for _, k := range order {
					h = s.ask(h, k)
				}
				desc += "; queries"
			}
			for _, o := range ops {
				n, d := h, ""
				if o.label == "" {
					n, d = s.remove(h, o.name), "RemoveFunction("+o.name+")"
				} else {
					n, d = s.set(h, o.name, o.label), "SetFunction("+o.name+", "+o.label+")"
				}
				rec(n, desc+"; "+d, left-1)
				if left == depth {
					// building again
					for _, k := range order {
						b := s.build(n, k, desc+"; "+d)
						ok := true
						for _, f := range s.uses(k) {
							_, has := n.fns[f]
							ok = ok && has
						}
						if ok {
							s.judge(b, k, desc+"; "+d+"; BuildMatcher", false)
						}
					}
				}
			}
		}
		rec(h, desc, depth)
		warm = true
		rec(h, desc, depth)
		if late && !c.thorough {
			break
		}
	}
}

// funCalls: every form of call, with the name of a built-in function replaced too.
func (c *C) funCalls() {
	n := 1
	if c.thorough {
		n = 2
	}
	for _, e := range funExprs {
		s, h := c.newFunSys(c.start(), map[string]string{"m": e}, []string{"m"}, nil)
		for _, p := range [][2]string{{"f", "F1"}, {"h", "H1"}, {"k", "s:K1"}, {"regexMatch", "R1"}} {
			h = s.set(h, p[0], p[1])
		}
		h = s.build(h, "m", "functions set")
		h = s.start(h, [][]Val{inVals("p", 2), inVals("q", 2)}[:n])
		s.judge(h, "m", "functions set, matcher built", true)
	}
}

// funModels: functions belong to a model, global functions to the models created later.
func (c *C) funModels() {
	exprs := map[string]string{"m": `f(r.x, p.a) && h(r.y, p.b)`}
	global := func(st *State, name, label string) *State {
		return c.one(c.call(st, c.fn("model/fm", "SetFunction"), str(name), funVal(label)), "fm.SetFunction").st
	}
	rules := [][]Val{inVals("p", 2)}
	type gh struct {
		name string
		run  func(st *State) (*State, []*funSys, []funState)
	}
	sys := func(st *State, fns ...[2]string) (*funSys, funState) {
		s, h := c.newFunSys(st, exprs, []string{"m"}, nil)
		for _, p := range fns {
			h = s.set(h, p[0], p[1])
		}
		return s, h
	}
	known := func(h funState, fns ...[2]string) funState {
		n := funState{h.st, map[string]string{}}
		for k, v := range h.fns {
			n.fns[k] = v
		}
		for _, p := range fns {
			if _, ok := n.fns[p[0]]; !ok {
				n.fns[p[0]] = p[1]
			}
		}
		return n
	}
	gen := []gh{
		{"two models with different functions", func(st *State) (*State, []*funSys, []funState) {
			a, ha := sys(st, [2]string{"f", "FA"}, [2]string{"h", "HA"})
			b, hb := sys(ha.st, [2]string{"f", "FB"}, [2]string{"h", "HB"})
			return hb.st, []*funSys{a, b}, []funState{ha, hb}
		}},
		{"fm.SetFunction(f, G) between two models", func(st *State) (*State, []*funSys, []funState) {
			a, ha := sys(st, [2]string{"f", "FA"}, [2]string{"h", "HA"})
			st = global(ha.st, "f", "G")
			b, hb := sys(st, [2]string{"h", "HB"})
			return hb.st, []*funSys{a, b}, []funState{ha, known(hb, [2]string{"f", "G"})}
		}},
		{"fm.SetFunction(f, G), one of two models replaces it", func(st *State) (*State, []*funSys, []funState) {
			st = global(st, "f", "G")
			a, ha := sys(st, [2]string{"h", "HA"})
			b, hb := sys(ha.st, [2]string{"f", "FB"}, [2]string{"h", "HB"})
			return hb.st, []*funSys{a, b}, []funState{known(ha, [2]string{"f", "G"}), hb}
		}},
		{"fm.SetFunction(f, G), fm.SetFunction(h, G2), fm.SetFunction(f, G3) around three models", func(st *State) (*State, []*funSys, []funState) {
			st = global(st, "f", "G")
			st = global(st, "h", "G2")
			a, ha := sys(st)
			st = global(ha.st, "f", "G3")
			b, hb := sys(st)
			d, hd := sys(hb.st, [2]string{"f", "FD"})
			g, g2 := [2]string{"f", "G"}, [2]string{"h", "G2"}
			return hd.st, []*funSys{a, b, d}, []funState{known(ha, g, g2), known(hb, [2]string{"f", "G3"}, g2), known(hd, g2)}
		}},
		{"fm.SetFunction(f, G), one of two models removes it", func(st *State) (*State, []*funSys, []funState) {
			st = global(st, "f", "G")
			a, ha := sys(st, [2]string{"h", "HA"})
			ha = known(ha, [2]string{"f", "G"})
			b, hb := sys(ha.st, [2]string{"h", "HB"})
			hb = known(hb, [2]string{"f", "G"})
			ha.st = hb.st
			ha = a.build(ha, "m", "two models")
			ha = a.remove(ha, "f")
			return ha.st, []*funSys{a, b}, []funState{ha, hb}
		}},
		{"fm.SetFunction(f, G) after the model was created", func(st *State) (*State, []*funSys, []funState) {
			a, ha := sys(st, [2]string{"h", "HA"}, [2]string{"f", "FA"})
			st = global(ha.st, "f", "G")
			st = global(st, "h", "G2")
			b, hb := sys(st)
			hb = known(hb, [2]string{"f", "G"}, [2]string{"h", "G2"})
			return hb.st, []*funSys{a, b}, []funState{ha, hb}
		}},
	}
	for _, g := range gen {
		st, ss, hs := g.run(c.start())
		for i, s := range ss {
			hs[i].st = st
			complete := len(hs[i].fns) == 2
			if complete {
				hs[i] = s.build(hs[i], "m", g.name)
			}
			hs[i] = s.start(hs[i], rules)
			st = hs[i].st
		}
		// decisions of all models, one after the other, in both orders
		for _, rev := range []bool{false, true} {
			for i := range ss {
				j := (i + 1) % len(ss)
				a, b := i, j
				if rev {
					a, b = j, i
				}
				h := hs[b]
				h.st = st
				desc := fmt.Sprintf("%s; model %d decides before model %d", g.name, a+1, b+1)
				c.scenario("%s", desc)
				mid := st.clone()
				mid, os := c.options([2]string{"SetMatcher", "m"})(mid)
				for _, o := range c.call(mid, c.enf("Enforce"), ss[a].enf, c.anys(mid, append(append([]Val{}, os...), in("rx"), in("ry"))...)) {
					if o.kind == oRet {
						h.st = o.st
						ss[b].judge(h, "m", desc, false)
					}
				}
			}
		}
	}
	// a global function replaces a built-in one in models created later
	c.scenario("fm.SetFunction(regexMatch, G)")
	ex := map[string]string{"m": `regexMatch(r.x, p.a)`}
	a, ha := c.newFunSys(c.start(), ex, []string{"m"}, nil)
	st := global(ha.st, "regexMatch", "G")
	b, hb := c.newFunSys(st, ex, []string{"m"}, nil)
	hb = known(hb, [2]string{"regexMatch", "G"})
	hb = b.build(hb, "m", "fm.SetFunction(regexMatch, G)")
	hb = b.start(hb, rules)
	b.judge(hb, "m", "fm.SetFunction(regexMatch, G)", true)
	hb = b.remove(hb, "regexMatch")
	b.judge(hb, "m", "fm.SetFunction(regexMatch, G), RemoveFunction(regexMatch)", true)
	ha.fns["regexMatch"] = "built in"
	ha.st = hb.st
	ha = a.build(ha, "m", "the first model")
	ha = a.remove(ha, "regexMatch")
	a.build(ha, "m", "the first model, RemoveFunction(regexMatch)")
}

func runC27(c *C) {
	c.funCalls()
	c.funHistories()
	c.funModels()
}

func init() {
	register(&Check{
		id:        "C27",
		technique: "abstract interpretation of histories of SetFunction and RemoveFunction with arbitrary functions; decisions compared with the functions that are known",
		rules: map[string]string{
			"called":  "a matcher calls the function that is registered last under the name in its model, with the arguments in order, and uses its result",
			"unknown": "matchers that need an unknown function cannot be built and queries with them fail",
			"removed": "RemoveFunction tells whether the function was known",
		},
		run: runC27,
	})
}
