package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"
	"time"

	"github.com/abichinger/govaluate"
	"golang.org/x/tools/go/ssa"
)

// Model of the expression library: expressions are parsed by the library's own tokenizer,
// Eval is interpreted abstractly (values of variables come from the analysed Parameters implementation).

const gvPath = "github.com/abichinger/govaluate"

// ex is a parsed expression.
type ex struct {
	op   string // "var", "lit", "call", "&&", "||", "!", "==", ..., "sep", "?", ":"
	name string
	lit  Val
	args []*ex
}

type exParser struct {
	toks []govaluate.ExpressionToken
	pos  int
	bad  bool
}

func (p *exParser) peek() *govaluate.ExpressionToken {
	if p.pos < len(p.toks) {
		return &p.toks[p.pos]
	}
	return nil
}

func (p *exParser) isOp(kind govaluate.TokenKind, vals ...string) (string, bool) {
	t := p.peek()
	if t == nil || t.Kind != kind {
		return "", false
	}
	v := fmt.Sprint(t.Value)
	if len(vals) == 0 {
		return v, true
	}
	for _, x := range vals {
		if x == v {
			return v, true
		}
	}
	return "", false
}

func (p *exParser) binary(kind govaluate.TokenKind, ops []string, next func() *ex) *ex {
	l := next()
	for {
		v, ok := p.isOp(kind, ops...)
		if !ok {
			return l
		}
		p.pos++
		r := next()
		l = &ex{op: v, args: []*ex{l, r}}
	}
}

func (p *exParser) separate() *ex {
	l := p.ternary()
	for {
		if t := p.peek(); t != nil && t.Kind == govaluate.SEPARATOR {
			p.pos++
			r := p.ternary()
			l = &ex{op: "sep", args: []*ex{l, r}}
			continue
		}
		return l
	}
}

func (p *exParser) ternary() *ex {
	l := p.or()
	if v, ok := p.isOp(govaluate.TERNARY); ok {
		p.pos++
		r := p.ternary()
		return &ex{op: v, args: []*ex{l, r}}
	}
	return l
}
func (p *exParser) or() *ex {
	return p.binary(govaluate.LOGICALOP, []string{"||"}, p.and)
}
func (p *exParser) and() *ex {
	return p.binary(govaluate.LOGICALOP, []string{"&&"}, p.cmp)
}
func (p *exParser) cmp() *ex {
	return p.binary(govaluate.COMPARATOR, nil, p.mod)
}
func (p *exParser) mod() *ex {
	return p.binary(govaluate.MODIFIER, nil, p.unary)
}
func (p *exParser) unary() *ex {
	if v, ok := p.isOp(govaluate.PREFIX); ok {
		p.pos++
		return &ex{op: "prefix" + v, args: []*ex{p.unary()}}
	}
	return p.value()
}

func (p *exParser) value() *ex {
	t := p.peek()
	if t == nil {
		p.bad = true
		return &ex{op: "lit", lit: nilOf(anyT)}
	}
	p.pos++
	switch t.Kind {
	case govaluate.CLAUSE:
		if n := p.peek(); n != nil && n.Kind == govaluate.CLAUSE_CLOSE {
			p.pos++
			return &ex{op: "sep"}
		}
		e := p.separate()
		if n := p.peek(); n == nil || n.Kind != govaluate.CLAUSE_CLOSE {
			p.bad = true
			return e
		}
		p.pos++
		if e.op == "sep" {
			return e
		}
		return &ex{op: "clause", args: []*ex{e}}
	case govaluate.FUNCTION:
		name := fmt.Sprint(t.Value2)
		a := p.value()
		return &ex{op: "call", name: name, args: []*ex{a}}
	case govaluate.VARIABLE:
		return &ex{op: "var", name: t.Value.(string)}
	case govaluate.ACCESSOR:
		e := &ex{op: "access", name: strings.Join(t.Value.([]string), ".")}
		if n := p.peek(); n != nil && n.Kind == govaluate.CLAUSE {
			e.args = []*ex{p.value()} // arguments of a method
		}
		return e
	case govaluate.STRING:
		return &ex{op: "lit", lit: &Iface{tString, str(t.Value.(string))}}
	case govaluate.BOOLEAN:
		return &ex{op: "lit", lit: &Iface{tBool, boolean(t.Value.(bool))}}
	case govaluate.NUMERIC:
		return &ex{op: "lit", lit: &Iface{types.Typ[types.Float64], &Const{constant.MakeFloat64(t.Value.(float64)), types.Typ[types.Float64]}}}
	case govaluate.PATTERN:
		return &ex{op: "lit", lit: &Iface{tString, T("pattern", tString, str(t.Value.(*regexp.Regexp).String()))}}
	case govaluate.TIME:
		return &ex{op: "lit", lit: &Iface{types.Typ[types.Float64], T("time", types.Typ[types.Float64], str(t.Value.(time.Time).UTC().Format(time.RFC3339Nano)))}}
	}
	p.bad = true
	return &ex{op: "lit", lit: nilOf(anyT)}
}

// parseEx parses an expression whose identifiers in fns are functions.
func parseEx(expr string, fns map[string]Val) (*ex, []govaluate.ExpressionToken, error) {
	toks, err := gvTokens(expr, fns)
	if err != nil {
		return nil, nil, err
	}
	if len(toks) == 0 {
		return nil, toks, nil
	}
	p := &exParser{toks: toks}
	e := p.separate()
	if p.bad || p.pos != len(toks) {
		return nil, toks, nil
	}
	return e, toks, nil
}

func gvTokens(expr string, fns map[string]Val) ([]govaluate.ExpressionToken, error) {
	nf := map[string]govaluate.ExpressionFunction{}
	for n := range fns {
		nf[n] = func(args ...interface{}) (interface{}, error) { return nil, fmt.Errorf("not executed") }
	}
	e, err := govaluate.NewEvaluableExpressionWithFunctions(expr, nf)
	if err != nil {
		return nil, err
	}
	return e.Tokens(), nil
}

// evExpr is the abstract state of an EvaluableExpression.
type evExpr struct {
	expr Val
	fns  map[string]Val
}

type evRes struct {
	st  *State
	v   Val
	err Val // nil constant: no error
	pan *Outcome
}

var nilErr = nilOf(tError)

func (x *X) newEvExpr(st *State, expr Val, fnMap Val, t types.Type) []Outcome {
	expr = st.norm(expr)
	fns := map[string]Val{}
	if fnMap != nil {
		if m, ok := st.norm(fnMap).(*MapRef); ok && m.obj >= 0 {
			for _, e := range st.heap[m.obj].entries {
				if n, ok := constStr(st.norm(e.k)); ok && e.present {
					fns[n] = st.norm(e.v)
				}
			}
		}
	}
	mk := func(s *State) []Outcome {
		et := t.(*types.Pointer).Elem()
		s.nfresh++
		key := fmt.Sprintf("nn:evexpr#%d", s.nfresh)
		p := s.newCell(&Term{op: key, typ: et, key: key}, "expression")
		s.vars["ev:"+key] = &evExpr{expr, fns}
		return ret(s, p, nilErr)
	}
	if cs, ok := constStr(expr); ok {
		if _, _, err := parseEx(cs, fns); err != nil {
			return ret(st, nilOf(t), newError(T("parse", tString, expr)))
		}
		return mk(st)
	}
	// content of an opaque expression is unknown
	var outs []Outcome
	ok := T("parses", tBool, st.snap(expr))
	for _, b := range x.split(st, ok) {
		if b.v {
			outs = append(outs, mk(b.st)...)
		} else {
			b.st.event(&Event{kind: "fault", name: "parsing of an expression"})
			outs = append(outs, ret(b.st, nilOf(t), newError(T("parse", tString, expr)))...)
		}
	}
	return outs
}

func (x *X) evOf(st *State, recv Val) *evExpr {
	recv = st.norm(recv)
	if p, ok := recv.(*Ptr); ok {
		recv = st.load(p)
	}
	if t, ok := recv.(*Term); ok {
		if e, ok := st.vars["ev:"+t.op]; ok {
			return e.(*evExpr)
		}
	}
	return nil
}

// evalEx evaluates an expression.
func (x *X) evalEx(st *State, e *ex, ev *evExpr, get func(st *State, name string) []evRes, site ssa.Instruction) []evRes {
	fail := func(s *State, why string) []evRes { return []evRes{{st: s, v: nilOf(anyT), err: newError(str(why))}} }
	then := func(rs []evRes, k func(r evRes) []evRes) []evRes {
		var out []evRes
		for _, r := range rs {
			if r.pan != nil || !isNilConst(r.err) {
				out = append(out, r)
				continue
			}
			out = append(out, k(r)...)
		}
		return out
	}
	boolOf := func(s *State, v Val) (Val, bool) {
		i, ok := s.norm(v).(*Iface)
		if !ok || !types.Identical(under(i.typ), tBool) {
			return nil, false
		}
		return i.val, true
	}
	ok1 := func(s *State, v Val) []evRes { return []evRes{{st: s, v: v, err: nilErr}} }
	bl := func(v Val) Val { return &Iface{tBool, v} }
	switch e.op {
	case "lit":
		return ok1(st, e.lit)
	case "clause":
		return x.evalEx(st, e.args[0], ev, get, site)
	case "var":
		return get(st, e.name)
	case "&&", "||":
		return then(x.evalEx(st, e.args[0], ev, get, site), func(l evRes) []evRes {
			lb, lok := boolOf(l.st, l.v)
			if !lok {
				// the right operand is evaluated before the type check
				return then(x.evalEx(l.st, e.args[1], ev, get, site), func(r evRes) []evRes { return fail(r.st, "type error") })
			}
			var out []evRes
			for _, b := range x.split(l.st, lb) {
				if b.v == (e.op == "||") {
					out = append(out, ok1(b.st, bl(boolean(b.v)))...)
					continue
				}
				out = append(out, then(x.evalEx(b.st, e.args[1], ev, get, site), func(r evRes) []evRes {
					rb, rok := boolOf(r.st, r.v)
					if !rok {
						return fail(r.st, "type error")
					}
					return ok1(r.st, bl(rb))
				})...)
			}
			return out
		})
	case "prefix!":
		return then(x.evalEx(st, e.args[0], ev, get, site), func(r evRes) []evRes {
			b, ok := boolOf(r.st, r.v)
			if !ok {
				return fail(r.st, "type error")
			}
			return ok1(r.st, bl(not(b)))
		})
	case "==", "!=":
		return then(x.evalEx(st, e.args[0], ev, get, site), func(l evRes) []evRes {
			return then(x.evalEx(l.st, e.args[1], ev, get, site), func(r evRes) []evRes {
				lb, ok1b := boolOf(r.st, l.v)
				rb, ok2b := boolOf(r.st, r.v)
				if ok1b && ok2b {
					var out []evRes
					for _, b := range x.split(r.st, lb) {
						v := rb
						if b.v == (e.op == "!=") {
							v = not(rb)
						}
						out = append(out, ok1(b.st, bl(v))...)
					}
					return out
				}
				v := x.eqVal(r.st, r.st.norm(l.v), r.st.norm(r.v))
				if e.op == "!=" {
					v = not(v)
				}
				return ok1(r.st, bl(v))
			})
		})
	case "call":
		fv, ok := ev.fns[e.name]
		if !ok {
			panic(abort{"unknown function " + e.name})
		}
		return x.evalList(st, e.args[0], ev, get, site, func(st *State, vs []Val) []evRes {
			sl := st.newSlice(types.NewSlice(anyT), vs)
			var out []evRes
			for _, o := range x.call(st, fv, []Val{sl}, site) {
				switch o.kind {
				case oRet:
					out = append(out, evRes{st: o.st, v: o.rets[0], err: o.rets[1]})
				default:
					o := o
					out = append(out, evRes{st: o.st, pan: &o})
				}
			}
			// error or not must be known for the sequencing of evaluation
			var res []evRes
			for _, r := range out {
				if t, ok := r.st.norm(r.err0()).(*Term); ok && r.pan == nil {
					for _, b := range x.split(r.st, T("eq", tBool, t, nilErr)) {
						if b.v {
							res = append(res, evRes{st: b.st, v: r.v, err: nilErr})
						} else {
							res = append(res, evRes{st: b.st, v: r.v, err: newError(t)})
						}
					}
					continue
				}
				res = append(res, r)
			}
			return res
		})
	case "access":
		return x.access(st, e, ev, get, site)
	case "?":
		return then(x.evalEx(st, e.args[0], ev, get, site), func(l evRes) []evRes {
			lb, ok := boolOf(l.st, l.v)
			if !ok {
				return fail(l.st, "type error")
			}
			br := e.args[1]
			var yes, no *ex = br, nil
			if br.op == ":" {
				yes, no = br.args[0], br.args[1]
			}
			var out []evRes
			for _, b := range x.split(l.st, lb) {
				switch {
				case b.v:
					out = append(out, x.evalEx(b.st, yes, ev, get, site)...)
				case no != nil:
					out = append(out, x.evalEx(b.st, no, ev, get, site)...)
				default:
					out = append(out, ok1(b.st, nilOf(anyT))...)
				}
			}
			return out
		})
	case "sep":
		return fail(st, "separator")
	case "in":
		if e.args[1].op == "sep" {
			return then(x.evalEx(st, e.args[0], ev, get, site), func(l evRes) []evRes {
				return x.evalList(l.st, e.args[1], ev, get, site, func(st *State, vs []Val) []evRes {
					cur := []*State{st}
					var out []evRes
					for _, v := range vs {
						var nxt []*State
						for _, s := range cur {
							for _, b := range x.split(s, x.eqVal(s, s.norm(l.v), s.norm(v))) {
								if b.v {
									out = append(out, ok1(b.st, bl(boolean(true)))...)
								} else {
									nxt = append(nxt, b.st)
								}
							}
						}
						cur = nxt
					}
					for _, s := range cur {
						out = append(out, ok1(s, bl(boolean(false)))...)
					}
					return out
				})
			})
		}
	}
	// any other operator: uninterpreted, may fail
	if len(e.args) == 1 {
		return then(x.evalEx(st, e.args[0], ev, get, site), func(r evRes) []evRes {
			return x.uninterpreted(r.st, e.op, r.v)
		})
	}
	return then(x.evalEx(st, e.args[0], ev, get, site), func(l evRes) []evRes {
		return then(x.evalEx(l.st, e.args[1], ev, get, site), func(r evRes) []evRes {
			return x.uninterpreted(r.st, e.op, l.v, r.v)
		})
	})
}

// evalList evaluates the elements of a list (arguments of a function).
func (x *X) evalList(st *State, a *ex, ev *evExpr, get func(st *State, name string) []evRes, site ssa.Instruction, k func(st *State, vs []Val) []evRes) []evRes {
	each := func(rs []evRes, k func(r evRes) []evRes) []evRes {
		var out []evRes
		for _, r := range rs {
			if r.pan != nil || !isNilConst(r.err) {
				out = append(out, r)
				continue
			}
			out = append(out, k(r)...)
		}
		return out
	}
	if a.op == "sep" {
		if len(a.args) == 0 {
			return k(st, nil)
		}
		return x.evalList(st, a.args[0], ev, get, site, func(st *State, vs []Val) []evRes {
			return each(x.evalEx(st, a.args[1], ev, get, site), func(r evRes) []evRes {
				return k(r.st, append(append([]Val{}, vs...), r.v))
			})
		})
	}
	return each(x.evalEx(st, a, ev, get, site), func(r evRes) []evRes { return k(r.st, []Val{r.v}) })
}

func (r evRes) err0() Val {
	if r.err == nil {
		return nilErr
	}
	return r.err
}

// objT is the type of objects in requests: its attributes are those of objAttrs, arbitrary but fixed values.
var objT = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("requests", "requests"), "Object", nil), types.NewStruct(nil, nil), nil)

func init() {
	sig := types.NewSignatureType(types.NewVar(token.NoPos, nil, "o", objT), nil, nil, types.NewTuple(), types.NewTuple(types.NewVar(token.NoPos, nil, "", tString)), false)
	objT.AddMethod(types.NewFunc(token.NoPos, objT.Obj().Pkg(), "String", sig))
}

// castNumber: every number of a request is evaluated as a float64.
func castNumber(v Val) Val {
	i, ok := v.(*Iface)
	if !ok {
		return v
	}
	b, ok := i.typ.(*types.Basic)
	if !ok || b.Info()&types.IsNumeric == 0 || b.Kind() == types.Float64 {
		return v
	}
	if c, ok := i.val.(*Const); ok && c.c != nil {
		return &Iface{tFloat, &Const{constant.ToFloat(c.c), tFloat}}
	}
	return &Iface{tFloat, T("float", tFloat, i.val)}
}

var objAttrs = map[string]types.Type{"Owner": tString, "Team": tString, "Level": tFloat, "Active": tBool, "Boss": objT}
var objMethods = map[string]types.Type{"Has": tBool}

// access reads an attribute or calls a method of an object.
func (x *X) access(st *State, e *ex, ev *evExpr, get func(st *State, name string) []evRes, site ssa.Instruction) []evRes {
	path := strings.Split(e.name, ".")
	fail := func(s *State) []evRes {
		return []evRes{{st: s, v: nilOf(anyT), err: newError(str("access of " + e.name))}}
	}
	// arguments are evaluated first
	var out []evRes
	walk := func(s *State, args []Val) []evRes {
		var out []evRes
	results:
		for _, r := range get(s, path[0]) {
			if r.pan != nil || !isNilConst(r.st.norm(r.err0())) {
				out = append(out, r)
				continue
			}
			v, bad := r.st.norm(r.v), false
			for i, n := range path[1:] {
				o, ok := v.(*Iface)
				if !ok || o.typ != types.Type(objT) {
					bad = true
					break
				}
				if n == "Crash" { // no attribute can be read: the library panics
					p := Outcome{st: r.st, kind: oPanic, pv: rtPanic("attribute")}
					out = append(out, evRes{st: r.st, pan: &p})
					continue results
				}
				if t, ok := objAttrs[n]; ok {
					v = &Iface{t, T("in:attr:"+n, t, o.val)}
				} else if t, ok := objMethods[n]; ok {
					as := []Val{o.val}
					if n == "Has" {
						if i != len(path)-2 || len(args) != 1 {
							bad = true
							break
						}
						a := r.st.norm(args[0])
						if f, ok := a.(*Iface); ok {
							a = f.val
						}
						as = append(as, r.st.norm(a))
					} else if len(args) != 0 {
						bad = true
						break
					}
					v = &Iface{t, T("in:method:"+n, t, as...)}
				} else {
					bad = true
					break
				}
			}
			if bad {
				out = append(out, fail(r.st)...)
			} else {
				out = append(out, evRes{st: r.st, v: v, err: nilErr})
			}
		}
		return out
	}
	if len(e.args) == 0 {
		return walk(st, nil)
	}
	a := e.args[0]
	if a.op == "clause" {
		a = a.args[0]
	}
	out = append(out, x.evalList(st, a, ev, get, site, func(st *State, vs []Val) []evRes { return walk(st, vs) })...)
	return out
}

func (x *X) uninterpreted(st *State, op string, args ...Val) []evRes {
	numeric := len(args) == 2
	for _, a := range args {
		if i, ok := st.norm(a).(*Iface); !ok || i.typ != types.Type(tFloat) {
			numeric = false
		}
	}
	switch op {
	case "<", ">", "<=", ">=":
		if numeric {
			a, b := st.snap(st.norm(args[0]).(*Iface).val), st.snap(st.norm(args[1]).(*Iface).val)
			return []evRes{{st: st, v: &Iface{tBool, T("in:cmp:"+op, tBool, a, b)}, err: nilErr}}
		}
	}
	var as []Val
	for _, a := range args {
		a = st.snap(a)
		if i, ok := a.(*Iface); ok {
			if t, ok := i.val.(*Term); ok && t.op == "pattern" { // a string is compiled when it is evaluated
				a = &Iface{i.typ, t.args[0]}
			}
		}
		as = append(as, a)
	}
	var out []evRes
	for _, b := range x.split(st, T("operr:"+op, tBool, as...)) {
		if b.v {
			out = append(out, evRes{st: b.st, v: nilOf(anyT), err: newError(str("operator " + op))})
		} else {
			out = append(out, evRes{st: b.st, v: &Iface{tBool, T("op:"+op, tBool, as...)}, err: nilErr})
		}
	}
	return out
}

func (x *X) gvEval(st *State, recv Val, get func(st *State, name string) []evRes, site ssa.Instruction) []Outcome {
	ev := x.evOf(st, recv)
	if ev == nil {
		panic(abort{"Eval of an unknown expression"})
	}
	st.event(&Event{kind: "eval", name: st.show(ev.expr), pos: posOf(site)})
	var rs []evRes
	if cs, ok := constStr(ev.expr); ok {
		e, toks, _ := parseEx(cs, ev.fns)
		switch {
		case e == nil && len(toks) == 0:
			return ret(st, nilOf(anyT), nilErr)
		case e == nil:
			panic(abort{"expression not understood: " + cs})
		default:
			rs = x.evalEx(st, e, ev, get, site)
		}
	} else {
		// unknown expression: uninterpreted predicate of the state of all parameters
		// it may read any parameter, the harness names some of them
		s := st.snap(ev.expr)
		cur := []evRes{{st: st, v: Tuple{s}}}
		for _, name := range x.probe {
			var nxt []evRes
			for _, r := range cur {
				for _, g := range get(r.st, name) {
					if g.pan != nil {
						rs = append(rs, g)
						continue
					}
					v := g.v
					if !isNilConst(g.st.norm(g.err)) {
						v = str("undefined")
					}
					nxt = append(nxt, evRes{st: g.st, v: append(append(Tuple{}, r.v.(Tuple)...), g.st.snap(v))})
				}
			}
			cur = nxt
		}
		for _, r := range cur {
			as := []Val(r.v.(Tuple))
			for _, b := range x.split(r.st, T("evalerr", tBool, as...)) {
				if b.v {
					b.st.event(&Event{kind: "fault", name: "eval", pos: posOf(site)})
					rs = append(rs, evRes{st: b.st, v: nilOf(anyT), err: newError(T("eval", tString, s))})
				} else {
					rs = append(rs, evRes{st: b.st, v: &Iface{tBool, T("evalexpr", tBool, as...)}, err: nilErr})
				}
			}
		}
	}
	var outs []Outcome
	for _, r := range rs {
		if r.pan != nil {
			outs = append(outs, *r.pan)
			continue
		}
		if !isNilConst(r.err) {
			outs = append(outs, ret(r.st, nilOf(anyT), r.err)...)
		} else {
			outs = append(outs, ret(r.st, r.v, nilErr)...)
		}
	}
	return outs
}

func init() {
	m := libModels
	pt := func(fn *ssa.Function) types.Type { return fn.Signature.Results().At(0).Type() }
	m[gvPath+".NewEvaluableExpressionWithFunctions"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		return x.newEvExpr(st, a[0], a[1], pt(fn))
	}
	m[gvPath+".NewEvaluableExpression"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		return x.newEvExpr(st, a[0], nil, pt(fn))
	}
	eval := func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		params := st.norm(a[1])
		get := func(st *State, name string) []evRes {
			if isNilConst(params) {
				return []evRes{{st: st, v: nilOf(anyT), err: newError(str("no parameters"))}}
			}
			var out []evRes
			var os []Outcome
			if i, ok := st.norm(params).(*Iface); ok {
				os = x.call(st, &Func{fn: x.w.meth(i.typ, "Get")}, []Val{i.val, str(name)}, site)
			} else {
				panic(abort{"opaque parameters"})
			}
			for _, o := range os {
				o := o
				if o.kind != oRet {
					out = append(out, evRes{st: o.st, pan: &o})
					continue
				}
				er := o.st.norm(o.rets[1])
				if t, ok := er.(*Term); ok {
					for _, b := range x.split(o.st, T("eq", tBool, t, nilErr)) {
						if b.v {
							out = append(out, evRes{st: b.st, v: castNumber(b.st.norm(o.rets[0])), err: nilErr})
						} else {
							out = append(out, evRes{st: b.st, v: o.rets[0], err: newError(t)})
						}
					}
					continue
				}
				out = append(out, evRes{st: o.st, v: castNumber(o.st.norm(o.rets[0])), err: er})
			}
			return out
		}
		return x.gvEval(st, a[0], get, site)
	}
	m["("+gvPath+".EvaluableExpression).Eval"] = eval
	m["(*"+gvPath+".EvaluableExpression).Eval"] = eval
	evaluate := func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		get := func(st *State, name string) []evRes {
			var out []evRes
			for _, r := range x.mapLookup(st, x.asMap(st, st.norm(a[1])), str(name)) {
				if r.ok {
					out = append(out, evRes{st: r.st, v: castNumber(r.st.norm(r.v)), err: nilErr})
				} else {
					out = append(out, evRes{st: r.st, v: nilOf(anyT), err: newError(str("no parameter"))})
				}
			}
			return out
		}
		return x.gvEval(st, a[0], get, site)
	}
	m["("+gvPath+".EvaluableExpression).Evaluate"] = evaluate
	m["(*"+gvPath+".EvaluableExpression).Evaluate"] = evaluate
	tokens := func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		ev := x.evOf(st, a[0])
		if ev == nil {
			panic(abort{"Tokens of an unknown expression"})
		}
		cs, ok := constStr(ev.expr)
		if !ok {
			return ret(st, st.fresh("tokens", pt(fn)))
		}
		toks, err := gvTokens(cs, ev.fns)
		if err != nil {
			panic(abort{err.Error()})
		}
		return ret(st, x.tokenSlice(st, pt(fn), toks))
	}
	m["("+gvPath+".EvaluableExpression).Tokens"] = tokens
	m["(*"+gvPath+".EvaluableExpression).Tokens"] = tokens
	strf := func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		return ret(st, x.evOf(st, a[0]).expr)
	}
	m["("+gvPath+".EvaluableExpression).String"] = strf
	m["(*"+gvPath+".EvaluableExpression).String"] = strf
}

// tokenSlice builds the abstract value of a token list.
func (x *X) tokenSlice(st *State, t types.Type, toks []govaluate.ExpressionToken) *Slice {
	et := under(t).(*types.Slice).Elem()
	stt := under(et).(*types.Struct)
	var es []Val
	for _, tok := range toks {
		s := zero(et).(*Struct)
		for i := 0; i < stt.NumFields(); i++ {
			switch stt.Field(i).Name() {
			case "Kind":
				s.fields[i] = &Const{constant.MakeInt64(int64(tok.Kind)), stt.Field(i).Type()}
			case "Value":
				s.fields[i] = x.tokVal(st, tok, tok.Value)
			case "Value2":
				s.fields[i] = x.tokVal(st, tok, tok.Value2)
			}
		}
		es = append(es, s)
	}
	return st.newSlice(t, es)
}

func (x *X) tokVal(st *State, tok govaluate.ExpressionToken, v interface{}) Val {
	switch v := v.(type) {
	case nil:
		return nilOf(anyT)
	case string:
		return &Iface{tString, str(v)}
	case bool:
		return &Iface{tBool, boolean(v)}
	case float64:
		return &Iface{types.Typ[types.Float64], &Const{constant.MakeFloat64(v), types.Typ[types.Float64]}}
	case rune:
		return &Iface{types.Typ[types.Rune], &Const{constant.MakeInt64(int64(v)), types.Typ[types.Rune]}}
	case []string:
		return &Iface{types.NewSlice(tString), strSlice(st, v)}
	case *regexp.Regexp:
		ty := types.NewPointer(x.w.ext("regexp", "Regexp"))
		return &Iface{ty, T("nn:regexp", ty, str(v.String()))}
	case time.Time:
		ty := x.w.ext("time", "Time")
		return &Iface{ty, T("nn:time", ty, str(v.Format(time.RFC3339Nano)))}
	}
	return &Iface{anyT, T("nn:token", anyT, str(fmt.Sprintf("%T", v)))}
}
