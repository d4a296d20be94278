package main

import (
	"fmt"
	"go/token"
	"strings"
)

// specExpr rewrites the arguments p.a, r.x of an expression to the variables p_a, r_x; literals are kept.
func specExpr(expr string) string {
	var sb strings.Builder
	i := 0
	for i < len(expr) {
		ch := expr[i]
		if ch == '"' || ch == '\'' {
			j := i + 1
			for j < len(expr) && expr[j] != '"' && expr[j] != '\'' {
				if expr[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(expr) {
				j = len(expr) - 1
			}
			sb.WriteString(expr[i : j+1])
			i = j + 1
			continue
		}
		if isLetter(ch) {
			j := i
			for j < len(expr) && (isLetter(expr[j]) || expr[j] >= '0' && expr[j] <= '9' || expr[j] == '.') {
				j++
			}
			w := expr[i:j]
			if d := strings.IndexByte(w, '.'); d > 0 && strings.ContainsRune("prg", rune(w[0])) && allDigits(w[1:d]) {
				w = w[:d] + "_" + w[d+1:]
			}
			sb.WriteString(w)
			i = j
			continue
		}
		sb.WriteByte(ch)
		i++
	}
	return sb.String()
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func pow(k, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= k
	}
	return r
}

func allDigits(s string) bool {
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}
	return true
}

func isLetter(b byte) bool { return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }

// boolTrees generates all expressions over the given leaves (in order) with && and ||,
// every pair of parentheses which changes the meaning and the redundant ones at the top of operands.
func boolTrees(leaves []string) []string {
	type e struct {
		s  string
		op string // top operator
	}
	var gen func(l []string) []e
	gen = func(l []string) []e {
		if len(l) == 1 {
			return []e{{l[0], ""}}
		}
		var out []e
		for k := 1; k < len(l); k++ {
			for _, a := range gen(l[:k]) {
				for _, b := range gen(l[k:]) {
					for _, op := range []string{"&&", "||"} {
						x, y := a.s, b.s
						if a.op != "" {
							x = "(" + x + ")"
						}
						if b.op != "" {
							y = "(" + y + ")"
						}
						out = append(out, e{x + " " + op + " " + y, op})
					}
				}
			}
		}
		return out
	}
	seen := map[string]bool{}
	var res []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	for _, x := range gen(leaves) {
		add(x.s)
	}
	// without parentheses
	for m := 0; m < 1<<(len(leaves)-1); m++ {
		s := leaves[0]
		for i := 1; i < len(leaves); i++ {
			op := " && "
			if m>>(i-1)&1 == 1 {
				op = " || "
			}
			s += op + leaves[i]
		}
		add(s)
	}
	return res
}

// textCases are expressions whose text is easily mistaken.
var textCases = []string{
	`r.x == "p.a || p.b"`,
	`r.x == "a && b" && r.y == p.b`,
	`r.x == ")" || r.y == "("`,
	`r.x == 'it' && f("r.x == p.a")`,
	`r.x == p.a&&r.y==p.b`,
	`((r.x == p.a)) && ((r.y == p.b))`,
	`(((r.x == p.a || r.y == p.b)))`,
	`f((p.a)) && h((r.x), p.b)`,
	`!(r.x == p.a || r.y == p.b) && f(p.c)`,
	`!(r.x == p.a && f(p.b))`,
	`!f(p.a) || !f(p.b)`,
	`r.x != p.a && r.y != p.b`,
	`r.x == p.a ? f(p.b) : h(r.y, p.c)`,
	`r.x == p.a && f(p.b) ? f(p.c) : h(r.y, p.c)`,
	`r.x == p.a ? f(p.b) || f(p.c) : r.y == p.c`,
	`(r.x == p.a ? f(p.b) : f(p.c)) && r.y == p.b`,
	`r.y == p.b && (r.x == p.a ? f(p.b) : f(p.c))`,
	`r.x in ("a", "b", p.c)`,
	`r.x in ("a", p.b) && r.y == p.c`,
	`r.x in (p.a, p.b) || f(p.c)`,
	`h(r.x == p.a && r.y == p.b, p.c)`,
	`h(r.x == p.a || f(p.b), p.c) && r.y == p.b`,
	`r.x =~ "^a.*" && r.y == p.b`,
	`f(1.5) && r.x == p.a`,
	`f(-1) && r.x == p.a`,
	`f(100000000000000000000000) && r.x == p.a`,
	`f(0.1) || r.x == p.a`,
	`f(true) && (r.x == p.a || f(false))`,
	`f("2021-01-02") && r.x == p.a`,
	`f("a\"b") && r.x == p.a`,
	`f("a\\b") && r.x == p.a`,
	`r.x == "" && r.y == p.b`,
	`r.x == p.a && true`,
	`false || r.x == p.a`,
	`r.x == p.a && (r.x == p.b || r.y == p.c) && f(p.a)`,
	`f(p.a) && f(p.b) && f(p.c) && r.x == p.a`,
	`(f(p.a) || f(p.b)) && (h(r.x, p.a) || h(r.y, p.b))`,
	`(f(p.a) || f(p.b)) && (h(r.x, p.a) || h(r.y, p.b)) && r.x == p.c`,
	`r.x == p.a && (f(p.b) && (r.y == p.c || f(p.a)))`,
	`(r.x == p.a && f(p.b)) || (r.y == p.c && f(p.a)) || f(p.c)`,
	`p.a == p.b && p.b == p.c`,
	`f(p.a) && f(p.a) || h(p.a, p.a)`,
}

func init() {
	register(&Check{
		id:        "C05",
		technique: "exhaustive enumeration of matcher expressions, each compiled and evaluated by abstract interpretation and compared with the unsplit expression",
		rules: map[string]string{
			"meaning": "a compiled matcher reports a rule exactly if the expression as written is true for it (for expressions whose conditions are boolean)",
			"ways":    "the matchers built from a definition of the model, by key, from a definition object and from an expression agree",
		},
		run: runC05,
	})
}

func runC05(c *C) {
	var exprs []string
	leaves := []string{`r.x == p.a`, `f(p.b)`, `h(r.y, p.c)`, `r.y == "k"`}
	exprs = append(exprs, leaves...)
	for n := 2; n <= 4; n++ {
		exprs = append(exprs, boolTrees(leaves[:n])...)
	}
	// negated operands
	for _, e := range boolTrees([]string{"A", "B", "C"}) {
		for _, s := range [][3]string{{"!(r.x == p.a)", "f(p.b)", "!h(r.y, p.c)"}, {"r.x == p.a", "!(f(p.b) || r.y == p.b)", "h(r.y, p.c)"}} {
			exprs = append(exprs, strings.NewReplacer("A", s[0], "B", s[1], "C", s[2]).Replace(e))
		}
	}
	// operands of a single token, redundant parentheses
	for _, ls := range [][]string{
		{"true", "f(p.b)", "r.x == p.a"}, {"f(p.b)", "true", "r.x == p.a"}, {"f(p.b)", "r.x == p.a", "true"},
		{"false", "f(p.b)", "r.x == p.a"}, {"f(p.b)", "false", "r.x == p.a"}, {"f(p.b)", "r.x == p.a", "false"},
		{"(f(p.b))", "r.x == p.a", "((h(r.y, p.c)))"}, {"r.x == p.a", "(f(p.b))", "(h(r.y, p.c))"},
		{"f(p.b)", "r.x == p.a", "!true"}, {"!false", "r.x == p.a", "f(p.b)"},
	} {
		exprs = append(exprs, boolTrees(ls)...)
		exprs = append(exprs, boolTrees(ls[:2])...)
		exprs = append(exprs, boolTrees(ls[1:])...)
	}
	exprs = uniq(exprs)
	// repeated conditions
	rep := func(n, k int) {
		for code := 0; code < pow(k, n); code++ {
			var ls []string
			used := map[int]bool{}
			for i, x := 0, code; i < n; i, x = i+1, x/k {
				ls = append(ls, leaves[x%k])
				used[x%k] = true
			}
			if len(used) < n {
				exprs = append(exprs, boolTrees(ls)...)
			}
		}
	}
	rep(2, 1)
	rep(3, 2)
	exprs = append(exprs, boolTrees([]string{leaves[0], leaves[1], leaves[0], leaves[2]})...)
	if c.thorough {
		rep(3, 3)
		rep(4, 2)
		l5 := append(append([]string{}, leaves...), `f(p.a)`)
		exprs = append(exprs, boolTrees(l5)...)
	}
	exprs = append(exprs, textCases...)
	rules := [][]Val{inVals("x", 3), inVals("y", 3)}
	m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
	st, enf := c.enforcer(m.st, m.model)
	m.enf = enf
	c.extra["expressions"] = len(exprs)
	skipped := []string{}
	for i, e := range exprs {
		n := 1
		if i%7 == 0 || c.thorough && i%2 == 0 {
			n = 2
		}
		mc := matchCase{e, 99}
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if a, isAbort := r.(abort); isAbort {
						skipped = append(skipped, e+": "+a.msg)
						return
					}
					panic(r)
				}
			}()
			if _, _, err := parseEx(specExpr(e), m.fns); err != nil {
				skipped = append(skipped, e+": "+err.Error())
				return false
			}
			for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}[:n], rules) {
				c.scenario("%smatch %q", h.desc, e)
				os := c.call(h.st, c.fn("model/defs", "NewMatcherDef"), str("m"), str(e))
				o := c.one(os, "NewMatcherDef")
				for _, o := range c.call(o.st, c.m("model", "Model", "BuildMatcherFromDef"), m.model, o.rets[0]) {
					if !c.noPanic("meaning", "Model.BuildMatcherFromDef", o) {
						continue
					}
					if !c.ob("meaning", "Model.BuildMatcherFromDef", negate(c.isErr(o.st, o.rets[1])), o.st, token.NoPos, "the matcher %q cannot be built: %s", e, o.st.show(o.rets[1])) {
						continue
					}
					mark := o.st.trace
					s := o.st.clone()
					rd := c.rDef(s, m.model)
					for _, q := range c.call(s, c.m("model", "Model", "RangeMatches"), m.model, o.rets[0], rd, c.anys(s, c.reqVals()...), collector(boolean(true))) {
						if !c.noPanic("meaning", "matcher evaluation", q) {
							continue
						}
						if c.isErr(q.st, q.rets[0]) == tYes {
							if c.specFails(q.st, e, m, h) {
								continue
							}
							c.ob("meaning", "matcher evaluation", tNo, q.st, token.NoPos, "the matcher %q fails: %s", e, q.st.show(q.rets[0]))
							continue
						}
						c.checkMatches("meaning", "matcher evaluation", q, callbackArgs(q.st, mark), mc, m, h, c.reqVals())
					}
				}
			}
			return true
		}()
		_ = ok
	}
	c.extra["expressions_not_decided"] = skipped
	if len(skipped) > 6 {
		panic(abort{fmt.Sprintf("%d of %d expressions are not understood, e.g. %s", len(skipped), len(exprs), skipped[0])})
	}
	c.matcherWays(rules)
}

// specFails: the expression itself may fail on this path (an operator which is not modelled).
func (c *C) specFails(st *State, e string, m *mm, h ruleHist) bool {
	for _, op := range []string{"=~", "!~", "+", "-", "*", "/", "%", "<", ">", "in"} {
		if strings.Contains(specExpr(e), op) {
			return true
		}
	}
	return false
}

// matcherWays: the different ways to build a matcher agree.
func (c *C) matcherWays(rules [][]Val) {
	for _, e := range []string{`r.x == p.a && (r.y == p.b || f(p.c))`, `(f(p.a) || r.x == p.b) && r.y == p.c`, `r.x == p.a || h(r.y, p.b) && f(p.c)`} {
		m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
		st := m.st
		for _, k := range []string{"m", "m2"} {
			x := e
			if k == "m2" {
				x = "f(p.a)"
			}
			st = c.one(c.call(st, c.m("model", "Model", "SetDef"), m.model, byteVal('m'), str(k), str(x)), "SetDef").st
		}
		st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m.model), "BuildMatchers").st
		st, enf := c.enforcer(st, m.model)
		type way struct {
			name string
			opts func(st *State) (*State, []Val)
			expr string
		}
		opt := func(v func(st *State) (*State, Val)) func(st *State) (*State, []Val) {
			return func(st *State) (*State, []Val) {
				st, a := v(st)
				st, o := c.ctxOption(st, "SetMatcher", a)
				return st, []Val{o}
			}
		}
		ways := []way{
			{"default matcher", noOptions, e},
			{"SetMatcher(key)", opt(func(st *State) (*State, Val) { return st, &Iface{tString, str("m")} }), e},
			{"SetMatcher(other key)", opt(func(st *State) (*State, Val) { return st, &Iface{tString, str("m2")} }), "f(p.a)"},
			{"SetMatcher(expression)", opt(func(st *State) (*State, Val) { return st, &Iface{tString, str(e)} }), e},
			{"SetMatcher(definition)", opt(func(st *State) (*State, Val) {
				o := c.one(c.call(st, c.fn("model/defs", "NewMatcherDef"), str("x"), str(e)), "NewMatcherDef")
				return o.st, &Iface{c.ptr("model/defs", "MatcherDef"), o.rets[0]}
			}), e},
			{"SetMatcher(matcher)", opt(func(st *State) (*State, Val) {
				st, mt := c.matcherFor(st, m.model, e)
				return st, mt
			}), e},
		}
		for _, w := range ways {
			for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, rules) {
				c.scenario("%sFilter with the %s for %q", h.desc, w.name, w.expr)
				s, os := w.opts(h.st.clone())
				for _, o := range c.call(s, c.m("", "Enforcer", "Filter"), enf, c.anys(s, append(os, c.reqVals()...)...)) {
					if c.noPanic("ways", w.name, o) && c.ob("ways", w.name, negate(c.isErr(o.st, o.rets[1])), o.st, token.NoPos, "unexpected error %s", o.st.show(o.rets[1])) {
						c.checkMatches("ways", w.name, o, c.listOf(o.st, o.rets[0]), matchCase{w.expr, 99}, m, h, c.reqVals())
					}
				}
			}
		}
	}
}
