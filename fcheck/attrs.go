package main

import (
	"go/constant"
	"go/token"
	"go/types"
)

// C35: attributes of objects in requests.

func obj(name string) Val { return &Iface{objT, sym("in:"+name, objT)} }

var attrCases = []matchCase{
	{`r.x.Owner == p.a`, 1},
	{`r.x.Active`, 1},
	{`!r.x.Active && p.a == r.y.Owner`, 1},
	{`r.x.Owner == r.y.Owner && p.a == r.x.Team`, 1},
	{`r.x.Level > 10 && p.b == "data.x"`, 1},
	{`r.x.Level >= r.y.Level || r.y.Owner == p.a`, 2},
	{`r.x.Boss.Owner == p.a`, 1},
	{`r.x.Boss.Boss.Active && f(r.x.Owner, p.b)`, 1},
	{`r.x.Has(p.a)`, 1},
	{`r.x.Has(p.a) && (r.y.Has(p.b) || r.x.Team == r.y.Owner)`, 2},
	{`r.x.Boss.Has(p.a) && !r.x.Has(p.b)`, 1},
	{`r.x.Owner in (p.a, p.b)`, 1},
	{`r.x.Active ? r.y.Active : p.a == r.x.Owner`, 1},
	{`f(r.x) && f(r.x.Boss) && h(p.a)`, 1},
	{`(r.x.Active || r.y.Active) && p.a == r.y.Team`, 2},
	{`r.x.Has(r.y.Owner) && p.a == "r.x.Owner"`, 1},
	{`h(r.x.Level, p.a) || r.x.Level == 3 && p.b == r.x.Team`, 2},
	{`p.a == r.x.Owner && p.b == r.x.Owner`, 1},
}

// texts with attributes that rules store
var attrExprs = []string{`r.x.Owner == p.a`, `r.x.Level > 18 && r.y.Has(p.b)`, `r.y.Boss.Active`, `r.x.Team == "r.x.Team"`}

func runC35(c *C) {
	reqs := [][]Val{{obj("ox"), obj("oy")}, {obj("ox"), obj("ox")}}
	for _, req := range reqs {
		for _, mc := range attrCases {
			m := c.newMM([]string{"a", "b"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
			st, enf := c.enforcer(m.st, m.model)
			m.enf = enf
			st, mt := c.matcherFor(st, m.model, mc.expr)
			for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, [][]Val{inVals("x", 2), inVals("y", 2)}) {
				c.queryAPIs("attributes", h, m, mt, mc, req, false)
			}
		}
	}
	// rules that store expressions over attributes
	for _, mc := range []matchCase{{`eval(p.c)`, 1}, {`r.y.Active && eval(p.c)`, 1}, {`eval(p.c) && r.x.Owner == p.b`, 1}} {
		for i, t := range attrExprs {
			m := c.newMM([]string{"a", "b", "c"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
			st, enf := c.enforcer(m.st, m.model)
			m.enf = enf
			st, mt := c.matcherFor(st, m.model, mc.expr)
			rules := [][]Val{{in("x0"), in("x1"), str(t)}, {in("y0"), in("y1"), str(attrExprs[(i+1)%len(attrExprs)])}}
			for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, rules) {
				c.queryAPIs("stored", h, m, mt, mc, reqs[0], !c.thorough)
			}
		}
	}
	// numbers and booleans in requests
	for _, mc := range []matchCase{{`r.x > 10 && p.a == "k"`, 1}, {`r.y && f(p.a)`, 1}, {`!r.y && r.x == 3`, 1}, {`f(r.x) && (r.y || r.x <= 2)`, 2}, {`p.a == "k" ? r.y : r.x >= 1.5`, 1}} {
		m := c.newMM([]string{"a", "b"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
		st, enf := c.enforcer(m.st, m.model)
		m.enf = enf
		st, mt := c.matcherFor(st, m.model, mc.expr)
		for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, [][]Val{inVals("x", 2), inVals("y", 2)}) {
			c.queryAPIs("attributes", h, m, mt, mc, []Val{&Iface{tFloat, sym("in:fx", tFloat)}, &Iface{tBool, sym("in:by", tBool)}}, false)
		}
	}
	// other kinds of numbers, values that are absent
	for _, req := range [][]Val{
		{&Iface{tInt, num(3)}, boolIn("by")}, {&Iface{tInt, num(11)}, boolIn("by")}, {&Iface{types.Typ[types.Uint8], &Const{constant.MakeInt64(3), types.Typ[types.Uint8]}}, boolIn("by")},
		{&Iface{types.Typ[types.Int64], sym("in:ix", types.Typ[types.Int64])}, boolIn("by")},
	} {
		for _, mc := range []matchCase{{`r.x == 3 && p.a == p.b`, 1}, {`r.x > 10 || r.y && p.a == "k"`, 2}, {`r.x != 3 && f(p.a)`, 1}, {`r.x in (3, 4) && f(p.b)`, 1}} {
			c.attrQuery(mc, req, c.thorough)
		}
	}
	for _, mc := range []matchCase{{`r.x == p.a`, 1}, {`r.x != p.a && r.y == p.b`, 1}, {`f(r.x) && r.y == p.a`, 1}, {`r.x in (p.a, "") || p.b == r.y`, 2}, {`r.x == ""`, 1}} {
		for _, req := range [][]Val{{nilOf(anyT), in("ry")}, {nilOf(anyT), nilOf(anyT)}, {obj("ox"), in("ry")}} {
			c.attrQuery(mc, req, c.thorough)
		}
	}
	c.attrDecisions()
	c.attrSequences()
	c.attrFaults()
}

func boolIn(name string) Val { return &Iface{tBool, sym("in:"+name, tBool)} }

func (c *C) attrQuery(mc matchCase, req []Val, all bool) {
	m := c.newMM([]string{"a", "b"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
	st, enf := c.enforcer(m.st, m.model)
	m.enf = enf
	st, mt := c.matcherFor(st, m.model, mc.expr)
	for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0", "add 1"}, [][]Val{inVals("x", 2), inVals("y", 2)}) {
		c.queryAPIs("attributes", h, m, mt, mc, req, !all)
	}
}

// attrDecisions: Enforce and Filter with the matcher of the model.
func (c *C) attrDecisions() {
	req := []Val{obj("ox"), obj("oy")}
	for _, mc := range attrCases {
		m := c.newMM([]string{"a", "b"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
		st := c.one(c.call(m.st, c.m("model", "Model", "SetDef"), m.model, byteVal('m'), str("m"), str(mc.expr)), "SetDef").st
		for _, o := range c.call(st, c.m("model", "Model", "BuildMatchers"), m.model) {
			if c.isErr(o.st, o.rets[0]) != tNo {
				panic(abort{"BuildMatchers fails"})
			}
			st, enf := c.enforcer(o.st, m.model)
			m.enf = enf
			for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, [][]Val{inVals("x", 2)}) {
				c.judgeDecision("decision", h, m, mc, req)
			}
		}
	}
}

// attrSequences: a query follows one with other objects.
func (c *C) attrSequences() {
	for _, mc := range attrCases {
		m := c.newMM([]string{"a", "b"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
		st, enf := c.enforcer(m.st, m.model)
		m.enf = enf
		st, mt := c.matcherFor(st, m.model, mc.expr)
		for _, h := range c.applyAll(ruleHist{st: st}, m, []string{"add 0"}, [][]Val{inVals("x", 2)}) {
			for _, first := range [][]Val{{obj("o1"), obj("oy")}, {obj("ox"), obj("o1")}} {
				st := h.st.clone()
				for _, o := range c.call(st, c.m("model", "Model", "RangeMatches"), m.model, mt, c.rDef(st, m.model), c.anys(st, first...), collector(boolean(true))) {
					if o.kind == oRet {
						n := h
						n.st, n.desc = o.st, h.desc+"query with another object; "
						c.queryAPIs("sequence", n, m, mt, mc, []Val{obj("ox"), obj("oy")}, true)
					}
				}
			}
		}
	}
}

// attrFaults: a value without the attribute is an error of the query and never a match.
func (c *C) attrFaults() {
	for _, t := range []struct {
		expr string
		req  []Val
	}{
		{`r.x.Owner == p.a`, []Val{in("rx"), obj("oy")}},
		{`r.x.Missing == p.a`, []Val{obj("ox"), obj("oy")}},
		{`r.y.Boss.Missing`, []Val{obj("ox"), obj("oy")}},
		{`r.x.Owner.Name == p.a`, []Val{obj("ox"), obj("oy")}},
		{`r.x.Has()`, []Val{obj("ox"), obj("oy")}},
		{`r.x.Missing(p.a) && p.b == r.x.Owner`, []Val{obj("ox"), obj("oy")}},
		{`p.a.Owner == r.x.Owner`, []Val{obj("ox"), obj("oy")}},
		{`r.x.Crash == p.a`, []Val{obj("ox"), obj("oy")}},
		{`f(r.y.Boss.Crash) && p.a == p.b`, []Val{obj("ox"), obj("oy")}},
		{`eval("r.x.Crash")`, []Val{obj("ox"), obj("oy")}},
		{`r.x.Owner == p.a`, []Val{nilOf(anyT), obj("oy")}},
		{`r.x.Owner == p.a`, []Val{&Iface{tFloat, sym("in:fx", tFloat)}, obj("oy")}},
		{`f(r.x.Missing)`, []Val{obj("ox"), obj("oy")}},
	} {
		m := c.newMM([]string{"a", "b"}, []string{"x", "y"}, "some(where (p.eft == allow))", c.fnSet(false))
		st, mt := c.matcherFor(m.st, m.model, t.expr)
		st = c.one(c.call(st, c.m("model", "Model", "AddRule"), m.model, c.strs(st, str("p"), in("x0"), in("x1"))), "AddRule").st
		rd := c.rDef(st, m.model)
		c.scenario("matcher %s, a request without the attribute", t.expr)
		mark := st.trace
		for _, o := range c.call(st, c.m("model", "Model", "RangeMatches"), m.model, mt, rd, c.anys(st, t.req...), collector(boolean(true))) {
			if !c.noPanic("faults", "Model.RangeMatches", o) {
				continue
			}
			c.ob("faults", "Model.RangeMatches", triOf(len(callbackArgs(o.st, mark)) == 0), o.st, token.NoPos, "a rule is reported although an attribute cannot be read")
			c.ob("faults", "Model.RangeMatches", c.isErr(o.st, o.rets[0]), o.st, token.NoPos, "no error is returned although an attribute cannot be read")
		}
	}
}

func init() {
	register(&Check{
		id:        "C35",
		technique: "abstract interpretation of matchers over requests of objects with arbitrary attributes, compared with an independent evaluation of the expression",
		rules: map[string]string{
			"attributes": "a rule is reported exactly if the matcher is true with the attributes of the objects of the request",
			"stored":     "the same for expressions that rules store",
			"decision":   "Enforce and Filter follow",
			"sequence":   "the same after a query with another object",
			"faults":     "an attribute that cannot be read is an error and never a match",
		},
		run: runC35,
	})
}
