package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

type entry struct {
	k, v    Val
	present bool
}

// Obj is a heap object; treated as immutable, writes replace the object.
type Obj struct {
	val     Val
	isMap   bool
	unknown bool // map with unknown additional content
	entries []entry
	mt      types.Type
	site    string
	// iterator
	iterMap  int
	iterKeys []Val
	iterPos  int
	iterStr  Val
	fresh    int
}

type lock struct {
	key   string
	write bool
}

// Event is one effect observed on a path.
type Event struct {
	prev *Event
	n    int
	kind string
	name string
	args []Val
	res  []Val
	pos  token.Pos
	fn   string
	held []lock
}

type fact struct {
	t Val
	v bool
}

type State struct {
	heap   []*Obj
	facts  map[string]fact
	repr   map[string]Val
	neq    [][]Val
	bound  []*Term // terms with arguments which were replaced by a value
	trace  *Event
	locks  []lock
	panics []Val
	vars   map[string]Val
	nfresh int
	stack  []token.Pos
	fnames []string
}

func newState() *State {
	return &State{facts: map[string]fact{}, repr: map[string]Val{}, vars: map[string]Val{}}
}

func (st *State) clone() *State {
	n := &State{}
	n.heap = append(make([]*Obj, 0, len(st.heap)+16), st.heap...)
	n.facts = make(map[string]fact, len(st.facts)+2)
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.repr = make(map[string]Val, len(st.repr)+2)
	for k, v := range st.repr {
		n.repr[k] = v
	}
	n.vars = make(map[string]Val, len(st.vars))
	for k, v := range st.vars {
		n.vars[k] = v
	}
	n.neq = append([][]Val(nil), st.neq...)
	n.bound = append([]*Term(nil), st.bound...)
	n.trace = st.trace
	n.locks = append([]lock(nil), st.locks...)
	n.panics = append([]Val(nil), st.panics...)
	n.nfresh = st.nfresh
	n.stack = append([]token.Pos(nil), st.stack...)
	n.fnames = append([]string(nil), st.fnames...)
	return n
}

func (st *State) alloc(o *Obj) int {
	st.heap = append(st.heap, o)
	return len(st.heap) - 1
}

func (st *State) newCell(v Val, site string) *Ptr {
	return &Ptr{obj: st.alloc(&Obj{val: v, site: site})}
}

func (st *State) newMap(t types.Type, site string) *MapRef {
	return &MapRef{t, st.alloc(&Obj{isMap: true, mt: t, site: site})}
}

func (st *State) newSlice(t types.Type, elems []Val) *Slice {
	et := under(t).(*types.Slice).Elem()
	a := &Array{typ: types.NewArray(et, int64(len(elems))), elems: append([]Val(nil), elems...)}
	return &Slice{typ: t, obj: st.alloc(&Obj{val: a}), len: len(elems), cap: len(elems)}
}

func (st *State) fresh(name string, t types.Type) Val {
	st.nfresh++
	return sym(fmt.Sprintf("%s#%d", name, st.nfresh), t)
}

func (st *State) event(e *Event) {
	e.prev = st.trace
	if e.prev != nil {
		e.n = e.prev.n + 1
	}
	if e.pos == token.NoPos && len(st.stack) > 0 {
		e.pos = st.stack[len(st.stack)-1]
	}
	if e.fn == "" && len(st.fnames) > 0 {
		e.fn = st.fnames[len(st.fnames)-1]
	}
	e.held = append([]lock(nil), st.locks...)
	st.trace = e
}

// events returns the events after mark (nil: all) in order.
func (st *State) events(mark *Event) []*Event {
	var r []*Event
	for e := st.trace; e != nil && e != mark; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---------- cells ----------

func expand(v Val, t types.Type) Val {
	tm, ok := v.(*Term)
	if !ok {
		return v
	}
	switch u := under(tm.typ).(type) {
	case *types.Struct:
		s := &Struct{typ: tm.typ}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, T("."+u.Field(i).Name(), u.Field(i).Type(), tm))
		}
		return s
	case *types.Array:
		a := &Array{typ: tm.typ}
		for i := 0; i < int(u.Len()); i++ {
			a.elems = append(a.elems, T("idx", u.Elem(), tm, num(i)))
		}
		return a
	}
	return v
}

func getPath(v Val, p []int) Val {
	for _, i := range p {
		v = expand(v, nil)
		switch s := v.(type) {
		case *Struct:
			v = s.fields[i]
		case *Array:
			if i >= len(s.elems) {
				return nil
			}
			v = s.elems[i]
		default:
			panic(abort{fmt.Sprintf("getPath on %T %s", v, K(v))})
		}
	}
	return v
}

func setPath(v Val, p []int, n Val) Val {
	if len(p) == 0 {
		return n
	}
	v = expand(v, nil)
	switch s := v.(type) {
	case *Struct:
		f := append([]Val(nil), s.fields...)
		f[p[0]] = setPath(f[p[0]], p[1:], n)
		return &Struct{s.typ, f}
	case *Array:
		f := append([]Val(nil), s.elems...)
		f[p[0]] = setPath(f[p[0]], p[1:], n)
		return &Array{s.typ, f}
	}
	panic(abort{fmt.Sprintf("setPath on %T", v)})
}

type abort struct{ msg string }

func (st *State) load(p *Ptr) Val { return getPath(st.heap[p.obj].val, p.path) }
func (st *State) store(p *Ptr, v Val) {
	o := *st.heap[p.obj]
	o.val = setPath(o.val, p.path, v)
	st.heap[p.obj] = &o
}

func (st *State) sliceGet(s *Slice, i int) Val {
	a := getPath(st.heap[s.obj].val, s.path)
	a = expand(a, nil)
	return a.(*Array).elems[s.off+i]
}

func (st *State) sliceElems(s *Slice) []Val {
	var r []Val
	for i := 0; i < s.len; i++ {
		r = append(r, st.norm(st.sliceGet(s, i)))
	}
	return r
}

// snap converts slices into content terms, so that they can be used inside of pure terms.
func (st *State) snap(v Val) Val {
	v = st.norm(v)
	switch v := v.(type) {
	case *Slice:
		var es []Val
		for _, e := range st.sliceElems(v) {
			es = append(es, st.snap(e))
		}
		return &Term{op: "list", args: es, typ: v.typ, key: "list(" + keys(es) + ")"}
	case *Iface:
		return &Iface{v.typ, st.snap(v.val)}
	}
	return v
}

// ---------- equality & facts ----------

// normDepth guards against cyclic equations.
var normDepth int

func (st *State) norm(v Val) Val {
	if len(st.repr) == 0 {
		return v
	}
	if normDepth++; normDepth > 10000 {
		normDepth = 0
		panic(abort{"cyclic value"})
	}
	v = st.norm1(v)
	normDepth--
	return v
}

func (st *State) norm1(v Val) Val {
	for n := 0; n < 64; n++ {
		switch t := v.(type) {
		case *Term:
			if len(t.args) > 0 {
				var na []Val
				for i, a := range t.args {
					b := st.norm(a)
					if na == nil && b != a {
						na = append(make([]Val, 0, len(t.args)), t.args[:i]...)
					}
					if na != nil {
						na = append(na, b)
					}
				}
				if na != nil {
					nv := rebuild(t, na)
					if K(nv) != t.key {
						v = nv
						continue
					}
				}
			}
			r, ok := st.repr[t.key]
			if !ok {
				return v
			}
			v = r
			continue
		case *Iface:
			if tm, ok := t.val.(*Term); ok {
				b := st.norm(tm)
				if b != Val(tm) {
					return &Iface{t.typ, b}
				}
			}
			return v
		case *Array:
			var na []Val
			for i, a := range t.elems {
				b := st.norm(a)
				if na == nil && b != a {
					na = append(make([]Val, 0, len(t.elems)), t.elems[:i]...)
				}
				if na != nil {
					na = append(na, b)
				}
			}
			if na != nil {
				return &Array{t.typ, na}
			}
			return v
		default:
			return v
		}
	}
	return v
}

func rebuild(t *Term, args []Val) Val {
	switch t.op {
	case "cat":
		return cat(args...)
	case "quote":
		return quote(args[0])
	case "not":
		return not(args[0])
	case "len":
		return lenTerm(args[0])
	case "chr":
		return chr(args[0])
	case "list":
		return &Term{op: "list", args: args, typ: t.typ, key: "list(" + keys(args) + ")"}
	}
	if f, ok := pureFold[t.op]; ok {
		if v := f(args); v != nil {
			return v
		}
	}
	return T(t.op, t.typ, args...)
}

func lenTerm(v Val) Val {
	if s, ok := constStr(v); ok {
		return num(len(s))
	}
	if t, ok := v.(*Term); ok && t.op == "list" {
		return num(len(t.args))
	}
	if t, ok := v.(*Term); ok && t.op == "bytes" {
		return lenTerm(t.args[0])
	}
	if bs, ok := strBytes(v); ok {
		return num(len(bs))
	}
	return T("len", tInt, v)
}

func atom(a, b Val) *Term {
	if K(a) > K(b) {
		a, b = b, a
	}
	return T("eq", tBool, a, b)
}

const (
	no = iota
	yes
	dep
)

type conj struct {
	tri   int
	atoms []Val
}

func (c *conj) and(d conj) {
	if c.tri == no {
		return
	}
	if d.tri == no {
		c.tri, c.atoms = no, nil
		return
	}
	if d.tri == dep {
		c.tri = dep
		for _, a := range d.atoms {
			dup := false
			for _, b := range c.atoms {
				if K(a) == K(b) {
					dup = true
				}
			}
			if !dup {
				c.atoms = append(c.atoms, a)
			}
		}
	}
}

func (st *State) atomEq(a, b Val) conj {
	at := atom(a, b)
	if f, ok := st.facts[at.key]; ok {
		if f.v {
			return conj{tri: yes}
		}
		return conj{tri: no}
	}
	// disjunctive facts: if assuming the atom falsifies a recorded inequality, it must be false
	for _, n := range st.neq {
		if len(n) == 1 && K(n[0]) == at.key {
			return conj{tri: no}
		}
	}
	return conj{tri: dep, atoms: []Val{at}}
}

func isStringish(v Val) bool {
	t := typeOf(v)
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// eq decides equality of two values; dep: the conjunction of the returned atoms
func (st *State) eq(a, b Val) conj {
	a, b = st.norm(a), st.norm(b)
	if K(a) == K(b) {
		return conj{tri: yes}
	}
	ca, aok := a.(*Const)
	cb, bok := b.(*Const)
	if aok && bok {
		if ca.c == nil || cb.c == nil {
			return conj{tri: no}
		}
		if ca.c.Kind() == cb.c.Kind() || (ca.c.Kind() != constant.String && ca.c.Kind() != constant.Bool) {
			if constant.Compare(ca.c, token.EQL, cb.c) {
				return conj{tri: yes}
			}
		}
		return conj{tri: no}
	}
	_, at := a.(*Term)
	_, bt := b.(*Term)
	if globalErr(a) && (globalErr(b) || newErr(b)) || globalErr(b) && newErr(a) {
		return conj{tri: no}
	}
	if !at && !bt {
		switch x := a.(type) {
		case *Struct:
			if y, ok := b.(*Struct); ok {
				c := conj{tri: yes}
				for i := range x.fields {
					c.and(st.eq(x.fields[i], y.fields[i]))
				}
				return c
			}
		case *Array:
			if y, ok := b.(*Array); ok && len(x.elems) == len(y.elems) {
				c := conj{tri: yes}
				for i := range x.elems {
					c.and(st.eq(x.elems[i], y.elems[i]))
				}
				return c
			}
		case *Iface:
			if y, ok := b.(*Iface); ok {
				if !types.Identical(x.typ, y.typ) {
					return conj{tri: no}
				}
				return st.eq(x.val, y.val)
			}
		case *Slice:
			if isNilConst(b) && x.isNil {
				return conj{tri: yes}
			}
		case *MapRef:
			if isNilConst(b) && x.obj == -1 {
				return conj{tri: yes}
			}
		case *Const:
			if x.c == nil {
				switch y := b.(type) {
				case *Slice:
					if y.isNil {
						return conj{tri: yes}
					}
				case *MapRef:
					if y.obj == -1 {
						return conj{tri: yes}
					}
				}
			}
		}
		return conj{tri: no}
	}
	// expand opaque structs/arrays
	if ta, ok := a.(*Term); ok {
		switch b.(type) {
		case *Struct, *Array:
			return st.eq(expand(ta, nil), b)
		}
	}
	if tb, ok := b.(*Term); ok {
		switch a.(type) {
		case *Struct, *Array:
			return st.eq(a, expand(tb, nil))
		}
	}
	if isStringish(a) || isStringish(b) {
		return st.eqCat(catParts(a), catParts(b))
	}
	// len(x) == 0  <=>  x == ""
	if ta, ok := a.(*Term); ok && ta.op == "len" {
		if n, ok := constInt(b); ok && n == 0 && isStringish(ta.args[0]) {
			return st.eq(ta.args[0], str(""))
		}
	}
	if tb, ok := b.(*Term); ok && tb.op == "len" {
		if n, ok := constInt(a); ok && n == 0 && isStringish(tb.args[0]) {
			return st.eq(tb.args[0], str(""))
		}
	}
	// lists
	if ta, ok := a.(*Term); ok && ta.op == "list" {
		if tb, ok := b.(*Term); ok && tb.op == "list" {
			if len(ta.args) != len(tb.args) {
				return conj{tri: no}
			}
			c := conj{tri: yes}
			for i := range ta.args {
				c.and(st.eq(ta.args[i], tb.args[i]))
			}
			return c
		}
	}
	// injective constructors
	if ta, ok := a.(*Term); ok {
		if tb, ok := b.(*Term); ok && injective[ta.op] && ta.op == tb.op && len(ta.args) == len(tb.args) {
			c := conj{tri: yes}
			for i := range ta.args {
				c.and(st.eq(ta.args[i], tb.args[i]))
			}
			return c
		}
	}
	if nonNil(a) && isNilConst(b) || nonNil(b) && isNilConst(a) {
		return conj{tri: no}
	}
	// a non-nil pointer object versus an opaque pointer: distinct
	switch a.(type) {
	case *Ptr, *Func, *Native, *MapRef, *Slice:
		if _, ok := b.(*Term); ok {
			return conj{tri: no}
		}
	}
	switch b.(type) {
	case *Ptr, *Func, *Native, *MapRef, *Slice:
		if _, ok := a.(*Term); ok {
			return conj{tri: no}
		}
	}
	return st.atomEq(a, b)
}

var injective = map[string]bool{"quote": true, "json": true, "itoa": true}

// nonNil reports whether an opaque value is known to be non-nil
func nonNil(v Val) bool {
	t, ok := v.(*Term)
	return ok && strings.HasPrefix(t.op, "nn:")
}

func isDigits(s string) bool { return len(s) > 0 && s[0] >= '0' && s[0] <= '9' }

func (st *State) eqCat(as, bs []Val) conj {
	res := conj{tri: yes}
	if hasChr(as) || hasChr(bs) {
		x, ok1 := strBytes(cat(as...))
		y, ok2 := strBytes(cat(bs...))
		if ok1 && ok2 {
			if len(x) != len(y) {
				return conj{tri: no}
			}
			for i := range x {
				res.and(st.eq(x[i], y[i]))
			}
			return res
		}
	}
	as = append([]Val(nil), as...)
	bs = append([]Val(nil), bs...)
	for {
		// strip equal tails
		for len(as) > 0 && len(bs) > 0 {
			x, y := as[len(as)-1], bs[len(bs)-1]
			if K(x) == K(y) {
				as, bs = as[:len(as)-1], bs[:len(bs)-1]
				continue
			}
			cx, ok1 := constStr(x)
			cy, ok2 := constStr(y)
			if ok1 && ok2 {
				n := 0
				for n < len(cx) && n < len(cy) && cx[len(cx)-1-n] == cy[len(cy)-1-n] {
					n++
				}
				if n == 0 {
					return conj{tri: no}
				}
				if n == len(cx) {
					as = as[:len(as)-1]
				} else {
					as[len(as)-1] = str(cx[:len(cx)-n])
				}
				if n == len(cy) {
					bs = bs[:len(bs)-1]
				} else {
					bs[len(bs)-1] = str(cy[:len(cy)-n])
				}
				continue
			}
			break
		}
		if len(as) == 0 || len(bs) == 0 {
			rest := as
			if len(as) == 0 {
				rest = bs
			}
			for _, p := range rest {
				if s, ok := constStr(p); ok && s != "" {
					return conj{tri: no}
				}
				if t, ok := p.(*Term); ok && (t.op == "quote" || t.op == "itoa" || t.op == "json") {
					return conj{tri: no}
				}
				res.and(st.atomEq(p, str("")))
			}
			return res
		}
		x, y := as[0], bs[0]
		if K(x) == K(y) {
			as, bs = as[1:], bs[1:]
			continue
		}
		cx, ok1 := constStr(x)
		cy, ok2 := constStr(y)
		if ok1 && ok2 {
			n := 0
			for n < len(cx) && n < len(cy) && cx[n] == cy[n] {
				n++
			}
			if n < len(cx) && n < len(cy) {
				return conj{tri: no}
			}
			as, bs = as[1:], bs[1:]
			if n < len(cx) {
				as = append([]Val{str(cx[n:])}, as...)
			}
			if n < len(cy) {
				bs = append([]Val{str(cy[n:])}, bs...)
			}
			continue
		}
		tx, _ := x.(*Term)
		ty, _ := y.(*Term)
		if tx != nil && ty != nil && tx.op == "quote" && ty.op == "quote" {
			res.and(st.eq(tx.args[0], ty.args[0]))
			if res.tri == no {
				return res
			}
			as, bs = as[1:], bs[1:]
			continue
		}
		// length prefixed: itoa(len(x)) <non digit> x ...
		if ok, rx, sepx, ra := lenPrefixed(as); ok {
			if ok2, ry, sepy, rb := lenPrefixed(bs); ok2 && sepx == sepy {
				res.and(st.eq(rx, ry))
				if res.tri == no {
					return res
				}
				as, bs = ra, rb
				continue
			}
		}
		// codes against a constant
		if d, ra, rb := st.codeConst(as, bs, &res); d {
			if res.tri == no {
				return res
			}
			as, bs = ra, rb
			continue
		}
		if d, rb, ra := st.codeConst(bs, as, &res); d {
			if res.tri == no {
				return res
			}
			as, bs = ra, rb
			continue
		}
		// prefix free code against a constant
		if tx != nil && tx.op == "quote" && ok2 && cy[0] != '"' || ty != nil && ty.op == "quote" && ok1 && cx[0] != '"' {
			return conj{tri: no}
		}
		if tx != nil && tx.op == "itoa" && ok2 && !isDigits(cy) || ty != nil && ty.op == "itoa" && ok1 && !isDigits(cx) {
			return conj{tri: no}
		}
		if tx != nil && ty != nil && (tx.op == "quote" && ty.op == "itoa" || tx.op == "itoa" && ty.op == "quote") {
			return conj{tri: no}
		}
		// integers delimited by a non digit
		if tx != nil && ty != nil && tx.op == "itoa" && ty.op == "itoa" && delimited(as) && delimited(bs) {
			res.and(st.eq(tx.args[0], ty.args[0]))
			if res.tri == no {
				return res
			}
			as, bs = as[1:], bs[1:]
			continue
		}
		l, r := cat(as...), cat(bs...)
		res.and(st.atomEq(l, r))
		return res
	}
}

func delimited(ps []Val) bool {
	if len(ps) == 1 {
		return true
	}
	if s, ok := constStr(ps[1]); ok {
		return !isDigits(s)
	}
	if t, ok := ps[1].(*Term); ok {
		return t.op == "quote"
	}
	return false
}

func lenPrefixed(ps []Val) (bool, Val, string, []Val) {
	if len(ps) < 3 {
		return false, nil, "", nil
	}
	t, ok := ps[0].(*Term)
	if !ok || t.op != "itoa" {
		return false, nil, "", nil
	}
	l, ok := t.args[0].(*Term)
	if !ok || l.op != "len" {
		return false, nil, "", nil
	}
	sep, ok := constStr(ps[1])
	if !ok || isDigits(sep) {
		return false, nil, "", nil
	}
	if K(ps[2]) != K(l.args[0]) {
		return false, nil, "", nil
	}
	return true, ps[2], sep, ps[3:]
}

// decide evaluates a boolean value.
func (st *State) decide(b Val) (known, val bool) {
	b = st.norm(b)
	if v, ok := constBool(b); ok {
		return true, v
	}
	t, ok := b.(*Term)
	if !ok {
		panic(abort{"decide on " + K(b)})
	}
	switch t.op {
	case "not":
		k, v := st.decide(t.args[0])
		return k, !v
	case "eq":
		c := st.eq(t.args[0], t.args[1])
		switch c.tri {
		case yes:
			return true, true
		case no:
			return true, false
		}
		for _, n := range st.neq {
			if subset(n, c.atoms) {
				return true, false
			}
		}
		return false, false
	case "and":
		all := true
		for _, a := range t.args {
			k, v := st.decide(a)
			if k && !v {
				return true, false
			}
			if !k {
				all = false
			}
		}
		return all, all
	case "lt":
		if k, v := st.lt(t.args[0], t.args[1]); k {
			return true, v
		}
	case "hasprefix":
		if k, v := st.hasPrefix(t.args[0], t.args[1]); k {
			return true, v
		}
	}
	if f, ok := st.facts[t.key]; ok {
		return true, f.v
	}
	return false, false
}

func (st *State) hasPrefix(s, p Val) (known, val bool) {
	s, p = st.norm(s), st.norm(p)
	if K(s) == K(p) {
		return true, true
	}
	sp, pp := catParts(s), catParts(p)
	if len(pp) == 0 {
		return true, true
	}
	if len(pp) == 1 && len(sp) > 0 {
		if K(sp[0]) == K(pp[0]) {
			return true, true
		}
		a, ok1 := constStr(sp[0])
		b, ok2 := constStr(pp[0])
		if ok1 && ok2 {
			if strings.HasPrefix(a, b) {
				return true, true
			}
			if !strings.HasPrefix(b, a) || len(sp) == 1 {
				return true, false
			}
		}
	}
	return false, false
}

// lt: integer comparison with knowledge about lengths
func (st *State) lt(a, b Val) (known, val bool) {
	a, b = st.norm(a), st.norm(b)
	x, ok1 := constInt(a)
	y, ok2 := constInt(b)
	if ok1 && ok2 {
		return true, x < y
	}
	if K(a) == K(b) {
		return true, false
	}
	if t, ok := b.(*Term); ok && t.op == "len" && ok1 {
		if x < 0 {
			return true, true
		}
		if x == 0 && isStringish(t.args[0]) { // 0 < len(s)  <=>  s != ""
			k, v := st.decide(T("eq", tBool, t.args[0], str("")))
			return k, !v
		}
		if k, v := st.decide(T("eq", tBool, t.args[0], str(""))); isStringish(t.args[0]) && k && v {
			return true, false
		}
	}
	if t, ok := a.(*Term); ok && t.op == "len" && ok2 {
		if y <= 0 {
			return true, false
		}
		if y == 1 && isStringish(t.args[0]) { // len(s) < 1  <=>  s == ""
			return st.decide(T("eq", tBool, t.args[0], str("")))
		}
		if k, v := st.decide(T("eq", tBool, t.args[0], str(""))); isStringish(t.args[0]) && k && v {
			return true, true
		}
	}
	// x < y contradicts y < x
	if f, ok := st.facts[T("lt", tBool, b, a).key]; ok && f.v {
		return true, false
	}
	return false, false
}

func subset(a, b []Val) bool {
	for _, x := range a {
		f := false
		for _, y := range b {
			if K(x) == K(y) {
				f = true
			}
		}
		if !f {
			return false
		}
	}
	return true
}

// assume adds a fact, the result is false if the state becomes infeasible.
func (st *State) assume(b Val, v bool) bool {
	b = st.norm(b)
	if k, kv := st.decide(b); k {
		return kv == v
	}
	t := b.(*Term)
	switch t.op {
	case "not":
		return st.assume(t.args[0], !v)
	case "and":
		if v {
			for _, a := range t.args {
				if !st.assume(a, true) {
					return false
				}
			}
			return true
		}
		var open []Val
		for _, a := range t.args {
			if k, kv := st.decide(a); !k {
				open = append(open, a)
			} else if !kv {
				return true
			}
		}
		if len(open) == 1 {
			return st.assume(open[0], false)
		}
		st.facts[t.key] = fact{t, false}
		return true
	case "lt":
		x, ok1 := constInt(t.args[0])
		y, ok2 := constInt(t.args[1])
		if l, ok := t.args[1].(*Term); ok && l.op == "len" && ok1 && x == 0 && isStringish(l.args[0]) {
			return st.assume(T("eq", tBool, l.args[0], str("")), !v)
		}
		if l, ok := t.args[0].(*Term); ok && l.op == "len" && ok2 && y == 1 && isStringish(l.args[0]) {
			return st.assume(T("eq", tBool, l.args[0], str("")), v)
		}
	case "eq":
		c := st.eq(t.args[0], t.args[1])
		if v {
			for _, a := range c.atoms {
				if !st.union(a.(*Term)) {
					return false
				}
			}
			return true
		}
		if len(c.atoms) == 1 {
			a := c.atoms[0].(*Term)
			st.facts[a.key] = fact{a, false}
			return true
		}
		st.neq = append(st.neq, c.atoms)
		return true
	}
	st.facts[t.key] = fact{t, v}
	return true
}

func occurs(s string, v Val) bool {
	t, ok := v.(*Term)
	if !ok {
		if i, ok := v.(*Iface); ok {
			return occurs(s, i.val)
		}
		return false
	}
	if t.key == s {
		return true
	}
	for _, a := range t.args {
		if occurs(s, a) {
			return true
		}
	}
	return false
}

func weight(v Val) int {
	t, ok := v.(*Term)
	if !ok {
		return 0
	}
	n := 1
	for _, a := range t.args {
		n += 1 + weight(a)
	}
	return n
}

func (st *State) union(at *Term) bool {
	a, b := st.norm(at.args[0]), st.norm(at.args[1])
	if K(a) == K(b) {
		return true
	}
	ta, aok := a.(*Term)
	tb, bok := b.(*Term)
	switch {
	case aok && bok:
		if weight(a) < weight(b) || weight(a) == weight(b) && ta.key > tb.key {
			ta, tb = tb, ta
			a, b = b, a
		}
		// prefer to replace symbols
		if len(tb.args) == 0 && !occurs(tb.key, ta) && len(ta.args) > 0 {
			st.repr[tb.key] = ta
		} else if !occurs(ta.key, tb) {
			st.repr[ta.key] = tb
		} else {
			st.facts[at.key] = fact{at, true}
		}
	case aok && occurs(ta.key, b), bok && occurs(tb.key, a):
		st.facts[at.key] = fact{at, true}
	case aok:
		st.repr[ta.key] = b
		if len(ta.args) > 0 {
			st.bound = append(st.bound, ta)
		}
	case bok:
		st.repr[tb.key] = a
		if len(tb.args) > 0 {
			st.bound = append(st.bound, tb)
		}
	default:
		return st.eq(a, b).tri == yes
	}
	return st.renorm()
}

// bind replaces an opaque term by a value (materialisation).
func (st *State) bind(t *Term, v Val) bool {
	if occurs(t.key, v) {
		panic(abort{"cyclic value " + t.key})
	}
	st.repr[t.key] = v
	return st.renorm()
}

func (st *State) renorm() bool {
	// f(x) was found to be c: contradicted if f(x) folds to another constant
	for _, t := range st.bound {
		c, ok := st.repr[t.key].(*Const)
		if !ok {
			continue
		}
		var as []Val
		for _, a := range t.args {
			as = append(as, st.norm(a))
		}
		if d, ok := rebuild(t, as).(*Const); ok && K(d) != K(c) {
			return false
		}
	}
	old := st.facts
	st.facts = make(map[string]fact, len(old))
	for k, f := range old {
		nt := st.norm(f.t)
		if K(nt) == k {
			st.facts[k] = f
		}
	}
	for k, f := range old {
		nt := st.norm(f.t)
		if K(nt) == k {
			continue
		}
		if kn, v := st.decide(nt); kn {
			if v != f.v {
				return false
			}
			continue
		}
		if !st.assume(nt, f.v) {
			return false
		}
	}
	neq := st.neq
	st.neq = nil
	for _, n := range neq {
		c := conj{tri: yes}
		for _, a := range n {
			t := a.(*Term)
			c.and(st.eq(t.args[0], t.args[1]))
		}
		switch c.tri {
		case yes:
			return false
		case dep:
			if len(c.atoms) == 1 {
				a := c.atoms[0].(*Term)
				st.facts[a.key] = fact{a, false}
			} else {
				st.neq = append(st.neq, c.atoms)
			}
		}
	}
	return true
}

// globalErr: a predefined error of a library, newErr: an error created on the path.
func globalErr(v Val) bool {
	t, ok := v.(*Term)
	return ok && strings.HasPrefix(t.op, "nn:global ") && types.Identical(t.typ, tError)
}

func newErr(v Val) bool {
	i, ok := v.(*Iface)
	return ok && types.Identical(i.typ, errType)
}

// codeConst decodes the first element of as, a quoted or length prefixed text or a number, from the constant bs[0].
func (st *State) codeConst(as, bs []Val, res *conj) (bool, []Val, []Val) {
	cy, ok := constStr(bs[0])
	tx, ok2 := as[0].(*Term)
	if !ok || !ok2 {
		return false, nil, nil
	}
	rest := func(s string) []Val {
		if s == "" {
			return bs[1:]
		}
		return append([]Val{str(s)}, bs[1:]...)
	}
	fail := func() (bool, []Val, []Val) {
		if len(bs) > 1 { // the constant goes on
			return false, nil, nil
		}
		res.and(conj{tri: no})
		return true, nil, nil
	}
	if tx.op == "quote" {
		q, err := strconv.QuotedPrefix(cy)
		if err != nil {
			return fail()
		}
		u, err := strconv.Unquote(q)
		if err != nil || strconv.Quote(u) != q {
			res.and(conj{tri: no})
			return true, nil, nil
		}
		res.and(st.eq(tx.args[0], str(u)))
		return true, as[1:], rest(cy[len(q):])
	}
	n := 0
	for n < len(cy) && cy[n] >= '0' && cy[n] <= '9' {
		n++
	}
	if n == len(cy) && len(bs) > 1 || n > 9 {
		return false, nil, nil
	}
	if ok, rx, sep, ra := lenPrefixed(as); ok {
		l, err := strconv.Atoi(cy[:n])
		if err != nil || strconv.Itoa(l) != cy[:n] {
			res.and(conj{tri: no})
			return true, nil, nil
		}
		r := cy[n:]
		if len(r) < len(sep)+l {
			return fail()
		}
		if r[:len(sep)] != sep {
			res.and(conj{tri: no})
			return true, nil, nil
		}
		res.and(st.eq(rx, str(r[len(sep):len(sep)+l])))
		return true, ra, rest(r[len(sep)+l:])
	}
	if tx.op == "itoa" && delimited(as) && n > 0 {
		l, err := strconv.Atoi(cy[:n])
		if err != nil || strconv.Itoa(l) != cy[:n] {
			res.and(conj{tri: no})
			return true, nil, nil
		}
		res.and(st.eq(tx.args[0], num(l)))
		return true, as[1:], rest(cy[n:])
	}
	return false, nil, nil
}
