package main

import (
	"go/token"
	"regexp"
	"strings"
)

// C34: eval(x) in a matcher stands for the expression that is the value of x.

var evalCall = regexp.MustCompile(`eval *\( *([a-z0-9]+)_([a-z]+) *\)`)
var evalText = regexp.MustCompile(`eval\("([^"]*)"\)`)

// expandEval replaces the calls of eval by the expressions a rule stores.
func expandEval(expr string, m *mm, rule, req []Val) string {
	for i := 0; i < 3; i++ {
		expr = evalCall.ReplaceAllStringFunc(expr, func(s string) string {
			p := evalCall.FindStringSubmatch(s)
			names, vals := m.args, rule
			if p[1] == "r" {
				names, vals = m.rargs, req
			} else if p[1] != m.key && p[1] != "p" {
				panic(abort{"eval of " + s})
			}
			for i, a := range names {
				if a == p[2] {
					v := vals[i]
					if f, ok := v.(*Iface); ok {
						v = f.val
					}
					if t, ok := constStr(v); ok {
						return "(" + specExpr(t) + ")"
					}
				}
			}
			panic(abort{"eval of " + s})
		})
		expr = evalText.ReplaceAllStringFunc(expr, func(s string) string {
			return "(" + specExpr(evalText.FindStringSubmatch(s)[1]) + ")"
		})
	}
	return expr
}

// texts a rule may store; the request has the values x and y, the rule a, b and c (the text).
var storedExprs = []string{
	`r.x == p.a`,
	`r.y == p.b`,
	`r.x == p.a && h(r.y, p.b)`,
	`f(r.x)`,
	`true`,
	`r.x == "root" || r.y == p.b`,
	`!(r.x == p.a)`,
	`r.y in (p.a, p.b)`,
	`f(p.a) ? r.x == p.b : r.y == p.a`,
	`r.x == 'p.a'`,
	`eval("r.x == p.b")`,
	`false`,
	`f(r.x) && !f(p.b) || r.y == p.a && p.a != p.b`,
	`r.x`, // from here: not boolean
	`p.b`,
	`"k"`,
}

const boolExprs = 13 // number of boolean ones

// matchers that use the value of a stored expression
var valueCases = []matchCase{
	{`eval(p.c) == p.a`, 1},
	{`r.y == eval(p.c) && f(p.b)`, 1},
	{`f(eval(p.c)) || r.x == p.a`, 2},
	{`h(p.a, eval(p.c)) && r.y == p.b`, 1},
}

var evalCases = []matchCase{
	{`eval(p.c)`, 1},
	{`r.x == p.a && eval(p.c)`, 1},
	{`eval(p.c) && r.x == p.a`, 1},
	{`eval(p.c) && f(p.b)`, 1},
	{`r.y == p.b && (eval(p.c) || f(p.a))`, 2},
	{`!eval(p.c) && r.x == p.a`, 1},
	{`eval(p.c) || r.x == p.a`, 2},
	{`f(r.y) && eval(p.c) && r.x == p.a`, 1},
	{`eval("r.x == p.a") && eval(p.c)`, 1},
	{`eval(p.c) == f(r.x)`, 1},
	{`eval( p.c ) && r.y == p.b`, 1},
	{`eval (p.c)`, 1},
}

// storedPair: two rules with the given expressions, and the same after a removal.
func (c *C) storedPair(rule, changeRule string, mc matchCase, p [2]int, modelOnly, change bool) {
	req := c.reqVals()
	rules := [][]Val{{in("x0"), in("x1"), str(storedExprs[p[0]])}, {in("y0"), in("y1"), str(storedExprs[p[1]])}}
	m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
	st, enf := c.enforcer(m.st, m.model)
	m.enf = enf
	st, mt := c.matcherFor(st, m.model, mc.expr)
	hs := c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, rules)
	for _, h := range hs {
		c.queryAPIs(rule, h, m, mt, mc, req, modelOnly)
		if !change {
			continue
		}
		for _, h2 := range c.applyAll(h, m, []string{"remove 0"}, rules) {
			if len(h2.vals) > 0 {
				c.queryAPIs(changeRule, h2, m, mt, mc, req, true)
			}
		}
	}
}

func runC34(c *C) {
	req := c.reqVals()
	cases := evalCases
	pairs := [][2]int{{0, 0}, {0, 1}, {1, 1}, {2, 2}, {2, 3}, {4, 0}, {5, 5}, {6, 0}, {7, 1}, {8, 8}, {9, 0}, {10, 10}, {11, 4}}
	if c.thorough {
		pairs = nil
		for i := range storedExprs[:boolExprs] {
			for j := 0; j <= i; j++ {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	for _, mc := range cases {
		for _, p := range pairs {
			c.storedPair("stored", "change", mc, p, !c.thorough && p[0] != p[1], c.thorough || p[0] <= 2)
		}
	}
	for _, mc := range valueCases {
		for _, p := range [][2]int{{13, 14}, {14, 14}, {15, 13}} {
			c.storedPair("stored", "change", mc, p, true, p[0] == 14)
		}
	}
	// decisions with the matcher of the model
	for _, mc := range cases[:6] {
		for _, t := range [][2]int{{0, 0}, {1, 0}, {2, 2}} {
			m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
			rules := [][]Val{{in("x0"), in("x1"), str(storedExprs[t[0]])}, {in("y0"), in("y1"), str(storedExprs[t[1]])}}
			st := c.one(c.call(m.st, c.m("model", "Model", "SetDef"), m.model, byteVal('m'), str("m"), str(mc.expr)), "SetDef").st
			for _, o := range c.call(st, c.m("model", "Model", "BuildMatchers"), m.model) {
				if c.isErr(o.st, o.rets[0]) != tNo {
					panic(abort{"BuildMatchers fails"})
				}
				st, enf := c.enforcer(o.st, m.model)
				m.enf = enf
				for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, rules) {
					c.judgeDecision("decision", h, m, mc, req)
				}
			}
		}
	}
	c.evalRequests()
	c.evalFunctions()
	c.evalFaults()
	c.evalNoText()
}

// evalFaults: an expression that cannot be parsed or that names unknown arguments is an error of the query that needs it.
func (c *C) evalFaults() {
	req := c.reqVals()
	for _, t := range []string{`r.x ==`, `p.a == p.q`, `r.z`, `(r.x == p.a`, `nofn(r.x)`, `r.x == p.a)`, `r.x p.a`, `f(r.x, `, `'p.a`, ``, ` `} {
		for _, expr := range []string{`eval(p.c)`, `r.x == p.a && eval(p.c)`, `f(r.x) && eval(p.c)`} {
			m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
			st, mt := c.matcherFor(m.st, m.model, expr)
			st = c.one(c.call(st, c.m("model", "Model", "AddRule"), m.model, c.strs(st, str("p"), in("x0"), in("x1"), str(t))), "AddRule").st
			rd := c.rDef(st, m.model)
			c.scenario("a rule with the expression %s, matcher %s", t, expr)
			mark := st.trace
			for _, o := range c.call(st, c.m("model", "Model", "RangeMatches"), m.model, mt, rd, c.anys(st, req...), collector(boolean(true))) {
				if !c.noPanic("faults", "Model.RangeMatches", o) {
					continue
				}
				n := len(callbackArgs(o.st, mark))
				c.ob("faults", "Model.RangeMatches", triOf(n == 0), o.st, token.NoPos, "a rule is reported although its expression cannot be evaluated")
				if strings.TrimSpace(t) == "" {
					continue // whether a missing expression is an error is not judged
				}
				e := c.isErr(o.st, o.rets[0])
				switch expr {
				case `r.x == p.a && eval(p.c)`:
					for _, b := range c.splitEq(o.st, req[0], in("x0")) {
						c.ob("faults", "Model.RangeMatches", triOf((c.isErr(b.st, o.rets[0]) == tYes) == b.v), b.st, token.NoPos, "the expression of the rule is needed: %v, the error returned is %s", b.v, b.st.show(o.rets[0]))
					}
				case `eval(p.c)`:
					c.ob("faults", "Model.RangeMatches", e, o.st, token.NoPos, "no error is returned although the expression of the rule cannot be evaluated")
				}
			}
		}
	}
}

// evalNoText: a request value that is no text is no expression.
func (c *C) evalNoText() {
	for name, v := range map[string]Val{"3": num(3), "true": boolean(true), "nil": nilOf(anyT)} {
		for _, expr := range []string{`eval(r.y)`, `r.x == p.a && eval(r.y)`, `!eval(r.y)`} {
			m := c.newMM([]string{"a", "b"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
			st, mt := c.matcherFor(m.st, m.model, expr)
			st = c.one(c.call(st, c.m("model", "Model", "AddRule"), m.model, c.strs(st, str("p"), in("x0"), in("x1"))), "AddRule").st
			rd := c.rDef(st, m.model)
			c.scenario("a request with the value %s, matcher %s", name, expr)
			mark := st.trace
			for _, o := range c.call(st, c.m("model", "Model", "RangeMatches"), m.model, mt, rd, c.anys(st, in("rx"), v), collector(boolean(true))) {
				if !c.noPanic("faults", "Model.RangeMatches", o) {
					continue
				}
				n := len(callbackArgs(o.st, mark))
				c.ob("faults", "Model.RangeMatches", triOf(n == 0), o.st, token.NoPos, "a rule is reported although the expression is no text")
				if expr == `eval(r.y)` {
					c.ob("faults", "Model.RangeMatches", c.isErr(o.st, o.rets[0]), o.st, token.NoPos, "no error is returned although the expression is no text")
				}
			}
		}
	}
}

// evalRequests: the expression comes with the request, other policies and request definitions.
func (c *C) evalRequests() {
	for _, t := range []string{`p.a == p.b`, `r.x == p.a`, `f(p.b) && r.x != p.a`, `false`} {
		for _, mc := range []matchCase{{`eval(r.y)`, 1}, {`r.x == p.b && eval(r.y)`, 1}, {`eval(r.y) && f(p.a)`, 1}, {`eval(r.y) == f(p.a) && r.x == p.b`, 1}, {`h(p.b, eval(r.y)) && f(p.a)`, 1}} {
			m := c.newMM([]string{"a", "b"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
			st, enf := c.enforcer(m.st, m.model)
			m.enf = enf
			st, mt := c.matcherFor(st, m.model, mc.expr)
			for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, [][]Val{inVals("x", 2), inVals("y", 2)}) {
				c.queryAPIs("stored", h, m, mt, mc, []Val{in("rx"), str(t)}, false)
			}
		}
	}
}

// evalFunctions: expressions of rules use the functions that are registered at the time of the query.
func (c *C) evalFunctions() {
	req := c.reqVals()
	m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", map[string]Val{"f": linkedFn("old")})
	st, enf := c.enforcer(m.st, m.model)
	st, mt := c.matcherFor(st, m.model, `eval(p.c)`)
	st = c.one(c.call(st, c.m("model", "Model", "AddRule"), m.model, c.strs(st, str("p"), in("x0"), in("x1"), str(`f(r.x, p.b)`))), "AddRule").st
	rd := c.rDef(st, m.model)
	base := st
	for _, verb := range []string{"", "SetFunction", "RemoveFunction", "query SetFunction", "query RemoveFunction"} {
		c.scenario("an expression of a rule calls f, %s(f) before the query", verb)
		st := base.clone()
		label := "old"
		if strings.HasPrefix(verb, "query ") {
			verb = verb[6:]
			o := c.call(st, c.m("model", "Model", "RangeMatches"), m.model, mt, rd, c.anys(st, req...), collector(boolean(true)))[0]
			if o.kind != oRet {
				continue
			}
			st = o.st
		}
		switch verb {
		case "SetFunction":
			label = "new"
			st = c.one(c.call(st, c.m("model", "Model", verb), m.model, str("f"), linkedFn("new")), verb).st
		case "RemoveFunction":
			st = c.one(c.call(st, c.m("model", "Model", verb), m.model, str("f")), verb).st
		}
		mark := st.trace
		for _, o := range c.call(st, c.m("model", "Model", "RangeMatches"), m.model, mt, rd, c.anys(st, req...), collector(boolean(true))) {
			if !c.noPanic("functions", "Model.RangeMatches", o) {
				continue
			}
			e := c.isErr(o.st, o.rets[0])
			if verb == "RemoveFunction" {
				c.ob("functions", "Model.RangeMatches", e, o.st, token.NoPos, "the expression of a rule calls a function that was removed, no error is returned")
				continue
			}
			if !c.ob("functions", "Model.RangeMatches", negate(e), o.st, token.NoPos, "unexpected error %s", o.st.show(o.rets[0])) {
				continue
			}
			for _, b := range c.x.split(o.st, T("in:linked:"+label, tBool, req[0], in("x1"))) {
				n := len(callbackArgs(b.st, mark))
				c.ob("functions", "Model.RangeMatches", triOf((n == 1) == b.v), b.st, token.NoPos, "the function registered last returns %v, %d rules are reported", b.v, n)
			}
		}
	}
	_ = enf
}

func init() {
	register(&Check{
		id:        "C34",
		technique: "abstract interpretation of matchers with eval; the specification puts the stored expression in the place of the call",
		rules: map[string]string{
			"stored":    "a rule is reported exactly if the matcher is true with each eval(x) replaced by the expression that is the value of x, evaluated for the same rule and request",
			"change":    "the same after rules were removed",
			"decision":  "Enforce and Filter follow",
			"faults":    "a stored expression that cannot be evaluated is an error of the query that needs it, and never a match",
			"functions": "stored expressions call the functions the model has at the time of the query",
		},
		run: runC34,
	})
}
