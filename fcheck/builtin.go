package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C29: built-in functions of matchers and the matchers of role managers. Regular expressions, globs and addresses are uninterpreted predicates of the two arguments.

type builtinFn struct {
	name, variable string
	// spec: does the call fail, its value if it does not
	spec func(st *State, ask func(Val) bool, a, b Val) (bool, Val)
}

var builtinFns = []builtinFn{
	{"regexMatch", "RegexMatchFunc", func(st *State, ask func(Val) bool, a, b Val) (bool, Val) {
		return !ask(T("in:regexp.valid", tBool, b)), T("in:regexp.match", tBool, b, a)
	}},
	{"globMatch", "", func(st *State, ask func(Val) bool, a, b Val) (bool, Val) {
		return !ask(T("in:glob.valid", tBool, b, a)), T("in:glob.match", tBool, b, a)
	}},
	{"ipMatch", "IPMatchFunc", func(st *State, ask func(Val) bool, a, b Val) (bool, Val) {
		if !ask(T("in:net.isIP", tBool, a)) {
			return true, nil
		}
		// an address is no CIDR, a CIDR has a slash
		known := func(t Val) (bool, bool) { return st.decide(st.norm(t)) }
		isIP, v1 := known(T("in:net.isIP", tBool, b))
		slash, v2 := known(T("contains", tBool, b, str("/")))
		if !(isIP && v1) && !(slash && !v2) && ask(T("in:net.isCIDR", tBool, b)) {
			return false, T("in:net.contains", tBool, T("nn:ipnet", nil, b), T("nn:ip", nil, a))
		}
		if slash && v2 || !ask(T("in:net.isIP", tBool, b)) {
			return true, nil
		}
		p, q := st.norm(T("nn:ip", nil, a)), st.norm(T("nn:ip", nil, b))
		if K(p) == K(q) {
			return false, boolean(true)
		}
		if K(p) > K(q) {
			p, q = q, p
		}
		return false, T("in:net.equal", tBool, p, q)
	}},
}

// impossibleIP: an address with a slash.
func impossibleIP(st *State, v Val) bool {
	is := func(t Val) bool {
		k, b := st.decide(st.norm(t))
		return k && b
	}
	return is(T("in:net.isIP", tBool, v)) && (is(T("in:net.isCIDR", tBool, v)) || is(T("contains", tBool, v, str("/"))))
}

// defaultFn is a function of the default function map.
func (c *C) defaultFn(st *State, name string) Val {
	o := c.one(c.call(st.clone(), c.fn("model/fm", "DefaultFunctionMap")), "DefaultFunctionMap")
	o = c.one(c.call(o.st, c.m("model/fm", "FunctionMap", "GetFunctions"), o.rets[0]), "GetFunctions")
	for _, r := range c.x.mapLookup(o.st, c.x.asMap(o.st, o.st.norm(o.rets[0])), str(name)) {
		if r.ok {
			return r.v
		}
	}
	panic(abort{"no function " + name})
}

func (c *C) builtinCalls() {
	for _, b := range builtinFns {
		vars := []string{"", b.variable}
		for i, v := range vars {
			if i > 0 && v == "" {
				continue
			}
			for _, args := range [][]Val{{in("a"), in("b")}, {in("a"), in("a")}} {
				c.scenario("%s of two strings", b.name)
				st := c.start()
				fv := Val(nil)
				if v == "" {
					fv = c.defaultFn(st, b.name)
				} else {
					fv = c.gvar(st, "util", v)
				}
				for _, o := range c.callv(st, fv, c.anys(st, &Iface{tString, args[0]}, &Iface{tString, args[1]})) {
					if !c.noPanic("value", b.name, o) {
						continue
					}
					c.forks(o.st, func(st *State, ask func(Val) bool) {
						if impossibleIP(st, args[0]) || impossibleIP(st, args[1]) {
							return
						}
						fails, want := b.spec(st, ask, args[0], args[1])
						e := c.isErr(st, o.rets[1])
						if fails {
							c.ob("fails", b.name, e, st, token.NoPos, "%s(%s, %s) has an invalid argument, it returns %s, %s", b.name, st.show(args[0]), st.show(args[1]), st.show(o.rets[0]), st.show(o.rets[1]))
							return
						}
						c.ob("fails", b.name, negate(e), st, token.NoPos, "%s(%s, %s) returns the error %s for valid arguments", b.name, st.show(args[0]), st.show(args[1]), st.show(o.rets[1]))
						t := c.truth(st, o.rets[0])
						if !ask(want) {
							t = negate(t)
						}
						c.ob("value", b.name, t, st, token.NoPos, "%s(%s, %s) returns %s, expected %s", b.name, st.show(args[0]), st.show(args[1]), st.show(o.rets[0]), st.show(want))
					})
				}
			}
		}
	}
	// wrong arguments
	s := &Iface{tString, in("a")}
	odd := func(st *State) []Val {
		return []Val{&Iface{tInt, num(1)}, &Iface{tBool, boolean(true)}, nilOf(types.NewInterfaceType(nil, nil)), &Iface{types.NewSlice(tString), c.strs(st, str("a"))}, &Iface{types.Typ[types.Float64], T("$float", types.Typ[types.Float64])}, &Iface{types.NewSlice(tByte), st.newSlice(types.NewSlice(tByte), []Val{num(97)})}}
	}
	for _, name := range []string{"regexMatch", "globMatch", "ipMatch", "pathMatch", "pathMatch2"} {
		st := c.start()
		fv := c.defaultFn(st, name)
		lists := [][]Val{{}, {s}, {s, s, s}, {s, s, s, s}}
		for _, v := range odd(st) {
			lists = append(lists, []Val{v, s}, []Val{s, v}, []Val{v, v}, []Val{v}, []Val{s, s, v})
		}
		for _, l := range lists {
			c.scenario("%s with %d arguments", name, len(l))
			for _, o := range c.callv(st, fv, c.anys(st, l...)) {
				if !c.noPanic("arguments", name, o) {
					continue
				}
				var shown []string
				for _, v := range l {
					shown = append(shown, o.st.show(v))
				}
				c.ob("arguments", name, c.isErr(o.st, o.rets[1]), o.st, token.NoPos, "%s%v is called with wrong arguments, it returns %s, %s", name, shown, o.st.show(o.rets[0]), o.st.show(o.rets[1]))
			}
		}
	}
}

// builtinWrap: custom matching functions become functions of matchers.
func (c *C) builtinWrap() {
	for _, panics := range []bool{false, true} {
		c.scenario("WrapMatchingFunc of a function that panics: %v", panics)
		fn := &Native{name: "custom", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
			if panics {
				return []Outcome{{st: st, kind: oPanic, pv: rtPanic("custom")}}
			}
			return ret(st, T("in:custom", tBool, st.norm(args[0]), st.norm(args[1])))
		}}
		st := c.start()
		for _, o := range c.call(st, c.fn("util", "WrapMatchingFunc"), fn) {
			if !c.noPanic("value", "WrapMatchingFunc", o) {
				continue
			}
			for _, q := range c.callv(o.st, o.st.norm(o.rets[0]), c.anys(o.st, &Iface{tString, in("a")}, &Iface{tString, in("b")})) {
				if !c.noPanic("fails", "WrapMatchingFunc", q) {
					continue
				}
				e := c.isErr(q.st, q.rets[1])
				if panics {
					c.ob("fails", "WrapMatchingFunc", e, q.st, token.NoPos, "the wrapped function panics, the result is %s, %s", q.st.show(q.rets[0]), q.st.show(q.rets[1]))
					continue
				}
				c.ob("value", "WrapMatchingFunc", allOf(negate(e), c.same(q.st, q.rets[0], &Iface{tBool, T("in:custom", tBool, in("a"), in("b"))})), q.st, token.NoPos, "the wrapped function returns %s, %s", q.st.show(q.rets[0]), q.st.show(q.rets[1]))
			}
		}
	}
}

// builtinMatchers: Matcher, PrefixMatcher and RegexMatcher.
func (c *C) builtinMatchers() {
	pred := func(name string) *Native {
		return &Native{name: name, fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
			var as []Val
			for _, a := range args {
				as = append(as, st.norm(a))
			}
			return ret(st, T("in:"+name, tBool, as...))
		}}
	}
	judge := func(name string, o Outcome, want func(st *State, ask func(Val) bool) bool, args ...Val) {
		if !c.noPanic("matcher", name, o) {
			return
		}
		c.forks(o.st, func(st *State, ask func(Val) bool) {
			w := want(st, ask)
			t := c.truth(st, o.rets[0])
			if !w {
				t = negate(t)
			}
			var shown []string
			for _, v := range args {
				shown = append(shown, st.show(v))
			}
			c.ob("matcher", name, t, st, token.NoPos, "%s%v returns %s, expected %v", name, shown, st.show(o.rets[0]), w)
		})
	}
	c.scenario("NewMatcher")
	st := c.start()
	o := c.one(c.call(st, c.fn("util", "NewMatcher"), pred("isPattern"), pred("match")), "NewMatcher")
	for _, q := range c.call(o.st, c.m("util", "Matcher", "IsPattern"), o.rets[0], in("a")) {
		judge("Matcher.IsPattern", q, func(st *State, ask func(Val) bool) bool { return ask(T("in:isPattern", tBool, in("a"))) }, in("a"))
	}
	for _, q := range c.call(o.st, c.m("util", "Matcher", "Match"), o.rets[0], in("a"), in("b")) {
		judge("Matcher.Match", q, func(st *State, ask func(Val) bool) bool { return ask(T("in:match", tBool, in("a"), in("b"))) }, in("a"), in("b"))
	}
	pm := func(n string) *ssa.Function { return c.m("util", "PrefixMatcher", n) }
	for _, prefix := range []string{"p'", "re:", "x"} {
		regex := prefix == "p'"
		name := fmt.Sprintf("PrefixMatcher(%q)", prefix)
		st := c.start()
		var m Val
		if regex {
			name = "RegexMatcher"
			m = c.gvar(st, "util", "RegexMatcher")
		} else {
			o := c.one(c.call(st, c.fn("util", "NewPrefixMatcher"), str(prefix), pred("match")), "NewPrefixMatcher")
			st, m = o.st, o.rets[0]
		}
		matches := func(st *State, ask func(Val) bool, s, p Val) bool {
			p = st.norm(p)
			if regex {
				if ps, ok := constStr(p); ok && !validRegexp([]string{ps}) {
					return false
				} else if !ok && !ask(T("in:regexp.valid", tBool, p)) {
					return false
				}
				return ask(T("in:regexp.match", tBool, p, s))
			}
			return ask(T("in:match", tBool, s, p))
		}
		for n := 0; n <= len(prefix)+2; n++ {
			var bs []Val
			for i := 0; i < n; i++ {
				bs = append(bs, inByte(fmt.Sprintf("p%d", i)))
			}
			p := ofBytes(bs)
			has := func(st *State, ask func(Val) bool) bool {
				for i := 0; i < len(prefix); i++ {
					if i >= n || !ask(T("eq", tBool, bs[i], num(int(prefix[i])))) {
						return false
					}
				}
				return true
			}
			c.scenario("%s: names of %d bytes", name, n)
			for _, q := range c.call(st, pm("IsPattern"), m, p) {
				judge(name+".IsPattern", q, has, p)
			}
			for _, q := range c.call(st, pm("Match"), m, in("a"), p) {
				judge(name+".Match", q, func(st *State, ask func(Val) bool) bool {
					return has(st, ask) && matches(st, ask, in("a"), ofBytes(bs[len(prefix):]))
				}, in("a"), p)
			}
		}
		c.scenario("%s: the prefix and any pattern", name)
		p := cat(str(prefix), in("pattern"))
		for _, q := range c.call(st, pm("IsPattern"), m, p) {
			judge(name+".IsPattern", q, func(st *State, ask func(Val) bool) bool { return true }, p)
		}
		for _, q := range c.call(st, pm("Match"), m, in("a"), p) {
			judge(name+".Match", q, func(st *State, ask func(Val) bool) bool { return matches(st, ask, in("a"), in("pattern")) }, in("a"), p)
		}
	}
}

// builtinDecisions: the functions in matchers, with an arbitrary rule and request.
func (c *C) builtinDecisions() {
	req := []Val{in("rx"), in("ry")}
	rule := inVals("p", 2)
	get := map[string]Val{"r.x": req[0], "r.y": req[1], "p.a": rule[0], "p.b": rule[1]}
	for _, b := range builtinFns {
		for _, e := range []struct {
			expr   string
			a, b   string
			negate bool
		}{{b.name + "(r.x, p.a)", "r.x", "p.a", false}, {b.name + "(p.b, r.y)", "p.b", "r.y", false}, {"!" + b.name + "(r.x, p.b)", "r.x", "p.b", true}, {b.name + "(r.y, r.x)", "r.y", "r.x", false}} {
			st, m := c.newModel(c.start(), [3]string{"r", "r", "x, y"}, [3]string{"p", "p", "a, b"}, [3]string{"e", "e", "some(where (p.eft == allow))"}, [3]string{"m", "m", e.expr})
			o := c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers")
			mt := &mm{model: m, args: []string{"a", "b"}, rargs: []string{"x", "y"}, key: "p"}
			h := c.apply(ruleHist{st: o.st}, mt, "add 0", [][]Val{rule})[0]
			st, enf := c.enforcer(h.st, m)
			for _, api := range c.deciders(enf, m, noOptions, req) {
				c.scenario("%s with %q", api.name, e.expr)
				for _, d := range api.run(st) {
					if !c.noPanic("decision", api.name, d.o) {
						continue
					}
					c.forks(d.o.st, func(st *State, ask func(Val) bool) {
						if impossibleIP(st, get[e.a]) || impossibleIP(st, get[e.b]) {
							return
						}
						fails, want := b.spec(st, ask, get[e.a], get[e.b])
						er := c.isErr(st, d.err)
						w := !fails && ask(want) != e.negate
						if fails {
							c.ob("decision", api.name, er, st, token.NoPos, "%s with %q: the arguments are invalid, no error is returned", api.name, e.expr)
						} else {
							c.ob("decision", api.name, negate(er), st, token.NoPos, "%s with %q returns the error %s for valid arguments", api.name, e.expr, st.show(d.err))
						}
						var t tri
						if d.allowed != nil {
							t = c.truth(st, d.allowed)
						} else {
							t = triOf(len(d.rules) > 0)
						}
						if !w {
							t = negate(t)
						}
						c.ob("decision", api.name, t, st, token.NoPos, "%s with %q: the request %s and the rule %s, expected %v (invalid arguments: %v)", api.name, e.expr, st.show(c.strs(st, req...)), st.show(c.strs(st, rule...)), w, fails)
					})
				}
			}
		}
	}
}

func runC29(c *C) {
	c.builtinCalls()
	c.builtinWrap()
	c.builtinMatchers()
	c.builtinDecisions()
}

func init() {
	register(&Check{
		id:        "C29",
		technique: "abstract interpretation of the built-in functions over arbitrary arguments; regular expressions, globs and addresses are uninterpreted predicates",
		rules: map[string]string{
			"value":     "a built-in function returns whether its first argument matches the second",
			"fails":     "it fails exactly if an argument is invalid",
			"arguments": "wrong numbers and types of arguments are errors",
			"matcher":   "the matchers of role managers recognise and match patterns",
			"decision":  "decisions of matchers with the functions follow",
		},
		run: runC29,
	})
}
