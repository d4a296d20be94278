package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. All values are immutable; mutable storage lives in State.heap.
type Val interface{}

// Const is a known basic value or nil (c == nil).
type Const struct {
	c   constant.Value
	typ types.Type
}

// Term is an opaque value: a symbol (no args) or a pure operation over other values.
type Term struct {
	op   string
	args []Val
	typ  types.Type
	key  string
}

type Struct struct {
	typ    types.Type
	fields []Val
}

type Array struct {
	typ   types.Type
	elems []Val
}

type Tuple []Val

// Ptr points into a heap object: path selects fields/elements.
type Ptr struct {
	obj  int
	path []int
}

// Slice is a window of an array stored in the heap (exact length).
type Slice struct {
	typ           types.Type
	obj           int
	path          []int
	off, len, cap int
	isNil         bool
}

type MapRef struct {
	typ types.Type
	obj int // -1: nil map
}

type Iface struct {
	typ types.Type // dynamic type
	val Val
}

type Func struct {
	fn    *ssa.Function
	binds []Val
}

type Native struct {
	name string
	fn   func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome
}

type BuiltinV struct{ b *ssa.Builtin }

// iterator of a range statement
type Iter struct{ obj int }

var (
	tString = types.Typ[types.String]
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tError  = types.Universe.Lookup("error").Type()
	tByte   = types.Typ[types.Byte]
)

func str(s string) *Const       { return &Const{constant.MakeString(s), tString} }
func num(n int) *Const          { return &Const{constant.MakeInt64(int64(n)), tInt} }
func boolean(b bool) *Const     { return &Const{constant.MakeBool(b), tBool} }
func nilOf(t types.Type) *Const { return &Const{nil, t} }

func isNilConst(v Val) bool { c, ok := v.(*Const); return ok && c.c == nil }

func constStr(v Val) (string, bool) {
	if c, ok := v.(*Const); ok && c.c != nil && c.c.Kind() == constant.String {
		return constant.StringVal(c.c), true
	}
	return "", false
}
func constInt(v Val) (int, bool) {
	if c, ok := v.(*Const); ok && c.c != nil && c.c.Kind() == constant.Int {
		i, ok := constant.Int64Val(c.c)
		return int(i), ok
	}
	return 0, false
}
func constBool(v Val) (bool, bool) {
	if c, ok := v.(*Const); ok && c.c != nil && c.c.Kind() == constant.Bool {
		return constant.BoolVal(c.c), true
	}
	return false, false
}

func pathKey(p []int) string {
	if len(p) == 0 {
		return ""
	}
	s := ""
	for _, i := range p {
		s += "." + strconv.Itoa(i)
	}
	return s
}

// K is the canonical identity of a value.
func K(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Const:
		if v.c == nil {
			return "nil"
		}
		return v.c.Kind().String()[:1] + ":" + v.c.ExactString()
	case *Term:
		return v.key
	case *Struct:
		return "{" + keys(v.fields) + "}"
	case *Array:
		return "[" + keys(v.elems) + "]"
	case Tuple:
		return "(" + keys(v) + ")"
	case *Ptr:
		return "&" + strconv.Itoa(v.obj) + pathKey(v.path)
	case *Slice:
		if v.isNil {
			return "nilslice"
		}
		return fmt.Sprintf("sl%d%s[%d:%d]", v.obj, pathKey(v.path), v.off, v.off+v.len)
	case *MapRef:
		return "map" + strconv.Itoa(v.obj)
	case *Iface:
		return "i<" + types.TypeString(v.typ, nil) + ">" + K(v.val)
	case *Func:
		return "fn:" + v.fn.String() + "(" + keys(v.binds) + ")"
	case *Native:
		return fmt.Sprintf("native:%s:%p", v.name, v)
	case *BuiltinV:
		return "builtin:" + v.b.Name()
	case *Fake:
		return "user:" + v.label
	case *Iter:
		return "iter" + strconv.Itoa(v.obj)
	}
	panic(fmt.Sprintf("K: %T", v))
}

func keys(vs []Val) string {
	ss := make([]string, len(vs))
	for i, v := range vs {
		ss[i] = K(v)
	}
	return strings.Join(ss, ",")
}

// T builds an opaque term.
func T(op string, typ types.Type, args ...Val) *Term {
	t := &Term{op: op, args: args, typ: typ}
	if len(args) == 0 {
		t.key = op
	} else {
		t.key = op + "(" + keys(args) + ")"
	}
	return t
}

func sym(name string, typ types.Type) *Term { return T("$"+name, typ) }

func typeOf(v Val) types.Type {
	switch v := v.(type) {
	case *Const:
		return v.typ
	case *Term:
		return v.typ
	case *Struct:
		return v.typ
	case *Array:
		return v.typ
	case *Slice:
		return v.typ
	case *MapRef:
		return v.typ
	}
	return nil
}

// cat builds a normalised string concatenation.
func cat(parts ...Val) Val {
	var flat []Val
	var add func(v Val)
	add = func(v Val) {
		if t, ok := v.(*Term); ok && t.op == "cat" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if s, ok := constStr(v); ok {
			if s == "" {
				return
			}
			if n := len(flat); n > 0 {
				if p, ok := constStr(flat[n-1]); ok {
					flat[n-1] = str(p + s)
					return
				}
			}
		}
		flat = append(flat, v)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(flat) {
	case 0:
		return str("")
	case 1:
		return flat[0]
	}
	return T("cat", tString, flat...)
}

func catParts(v Val) []Val {
	if t, ok := v.(*Term); ok && t.op == "cat" {
		return t.args
	}
	if s, ok := constStr(v); ok && s == "" {
		return nil
	}
	return []Val{v}
}

// quote is strconv.Quote: injective and prefix free
func quote(v Val) Val {
	if s, ok := constStr(v); ok {
		return str(strconv.Quote(s))
	}
	return T("quote", tString, v)
}

func not(v Val) Val {
	if b, ok := constBool(v); ok {
		return boolean(!b)
	}
	if t, ok := v.(*Term); ok && t.op == "not" {
		return t.args[0]
	}
	return T("not", tBool, v)
}

func under(t types.Type) types.Type { return t.Underlying() }

func zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Const{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return &Const{constant.MakeString(""), t}
		case u.Info()&types.IsInteger != 0:
			return &Const{constant.MakeInt64(0), t}
		case u.Info()&types.IsNumeric != 0:
			return &Const{constant.MakeFloat64(0), t}
		}
		return nilOf(t)
	case *types.Struct:
		s := &Struct{typ: t, fields: make([]Val, u.NumFields())}
		for i := range s.fields {
			s.fields[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &Array{typ: t, elems: make([]Val, int(u.Len()))}
		for i := range a.elems {
			a.elems[i] = zero(u.Elem())
		}
		return a
	case *types.Slice:
		return &Slice{typ: t, obj: -1, isNil: true}
	case *types.Map:
		return &MapRef{typ: t, obj: -1}
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, zero(u.At(i).Type()))
		}
		return tp
	}
	return nilOf(t)
}

// show renders a value for reports.
func (st *State) show(v Val) string { return st.showD(v, 4) }

func (st *State) showD(v Val, d int) string {
	v = st.norm(v)
	if d == 0 {
		return "…"
	}
	switch v := v.(type) {
	case *Const:
		if v.c == nil {
			return "nil"
		}
		return v.c.String()
	case *Term:
		if len(v.args) == 0 {
			return strings.TrimPrefix(v.op, "$")
		}
		if v.op == "cat" {
			var ps []string
			for _, a := range v.args {
				ps = append(ps, st.showD(a, d-1))
			}
			return strings.Join(ps, "+")
		}
		var ps []string
		for _, a := range v.args {
			ps = append(ps, st.showD(a, d-1))
		}
		return v.op + "(" + strings.Join(ps, ", ") + ")"
	case *Slice:
		if v.isNil {
			return "nil[]"
		}
		var ps []string
		for i := 0; i < v.len; i++ {
			ps = append(ps, st.showD(st.sliceGet(v, i), d-1))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case *Iface:
		return st.showD(v.val, d)
	case *Struct:
		var ps []string
		for _, f := range v.fields {
			ps = append(ps, st.showD(f, d-1))
		}
		return "{" + strings.Join(ps, ", ") + "}"
	case *Array:
		var ps []string
		for _, f := range v.elems {
			ps = append(ps, st.showD(f, d-1))
		}
		return "[" + strings.Join(ps, ", ") + "]"
	case *Func:
		return v.fn.Name()
	case *Fake:
		return v.label
	}
	return K(v)
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = token.ADD
