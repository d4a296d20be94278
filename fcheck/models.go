package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var libModels = map[string]Model{}
var libInvokes = map[string]Invoke{}
var pureFold = map[string]func(args []Val) Val{
	"byteat": func(as []Val) Val {
		k, ok := constInt(as[1])
		if !ok {
			return nil
		}
		if ps := catParts(as[0]); len(ps) > 0 {
			if s, ok := constStr(ps[0]); ok && k >= 0 && k < len(s) {
				return &Const{constant.MakeInt64(int64(s[k])), tByte}
			}
		}
		return nil
	},
}

var errType = func() types.Type {
	n := types.NewNamed(types.NewTypeName(token.NoPos, nil, "errorValue", nil), types.NewStruct(nil, nil), nil)
	return types.NewPointer(n)
}()

func newError(msg Val, wrapped ...Val) Val {
	return &Iface{errType, T("error", tString, append([]Val{msg}, wrapped...)...)}
}

// withSlices materialises opaque slices among the arguments.
func withSlices(m func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome) Model {
	var run Model
	run = func(x *X, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Outcome {
		for i, a := range args {
			a = st.norm(a)
			args[i] = a
			if t, ok := isSliceT(a); ok && t.op != "bytes" {
				var outs []Outcome
				for _, s := range x.sliceStates(st, t) {
					outs = append(outs, run(x, s, fn, append([]Val(nil), args...), site)...)
				}
				return outs
			}
		}
		return m(x, st, args, site)
	}
	return run
}

func pure(op string, typ types.Type, fold func(s []string) Val) Model {
	f := func(args []Val) Val {
		var ss []string
		for _, a := range args {
			s, ok := constStr(a)
			if !ok {
				return nil
			}
			ss = append(ss, s)
		}
		return fold(ss)
	}
	pureFold[op] = f
	return func(x *X, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Outcome {
		var as []Val
		for _, a := range args {
			as = append(as, st.snap(a))
		}
		if v := f(as); v != nil {
			return ret(st, v)
		}
		if outs := x.onBytes(st, as, func(ss []string, back func(string) Val) []Val {
			v := fold(ss)
			if s, ok := constStr(v); ok {
				v = back(s)
			}
			return []Val{v}
		}); outs != nil {
			return outs
		}
		return ret(st, st.norm(T(op, typ, as...)))
	}
}

func elemsOf(st *State, v Val) []Val {
	switch s := v.(type) {
	case *Slice:
		return st.sliceElems(s)
	}
	return nil
}

// format expands a format string, nil if it is not understood
func format(st *State, f string, args []Val) Val {
	var parts []Val
	k := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, str(f[i:]))
			break
		}
		parts = append(parts, str(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			return nil
		}
		verb := f[i]
		i++
		sharp := false
		if verb == '#' || verb == '+' {
			sharp = verb == '#'
			if i >= len(f) {
				return nil
			}
			verb = f[i]
			i++
		}
		if verb == '%' {
			parts = append(parts, str("%"))
			continue
		}
		if k >= len(args) {
			return nil
		}
		a := st.norm(args[k])
		k++
		p := formatArg(st, verb, sharp, a)
		if p == nil {
			return nil
		}
		parts = append(parts, p)
	}
	return cat(parts...)
}

func formatArg(st *State, verb byte, sharp bool, a Val) Val {
	if i, ok := a.(*Iface); ok {
		a = st.norm(i.val)
	}
	if s, ok := a.(*Slice); ok {
		open, sep, cl := "[", " ", "]"
		if sharp && verb == 'v' {
			open, sep, cl = "[]string{", ", ", "}"
			verb = 'q'
		}
		ps := []Val{str(open)}
		for n, e := range st.sliceElems(s) {
			if n > 0 {
				ps = append(ps, str(sep))
			}
			p := formatArg(st, verb, false, e)
			if p == nil {
				return nil
			}
			ps = append(ps, p)
		}
		return cat(append(ps, str(cl))...)
	}
	switch {
	case isStringish(a):
		switch {
		case verb == 'q' || verb == 'v' && sharp:
			return quote(a)
		case verb == 's' || verb == 'v':
			return a
		}
	default:
		if b, ok := constBool(a); ok && (verb == 't' || verb == 'v') {
			return str(strconv.FormatBool(b))
		}
		if n, ok := constInt(a); ok && verb == 'c' {
			return str(string(rune(n)))
		}
		if n, ok := constInt(a); ok && (verb == 'd' || verb == 'v') {
			return str(strconv.Itoa(n))
		}
		if t, ok := a.(*Term); ok && (verb == 'd' || verb == 'v') {
			if b, ok := under(t.typ).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return T("itoa", tString, a)
			}
		}
	}
	return T("fmt%"+string(verb), tString, st.snap(a))
}

func (x *X) smap(st *State, recv Val) *MapRef {
	p := x.deref(st, recv)
	if p == nil {
		return nil
	}
	k := "sm:" + K(p)
	if v, ok := st.vars[k]; ok {
		return v.(*MapRef)
	}
	e := types.NewInterfaceType(nil, nil)
	mt := types.NewMap(e, e)
	m := st.newMap(mt, "sync")
	if _, opaque := st.heap[p.obj].val.(*Term); opaque {
		st.heap[m.obj].unknown = true
	}
	st.vars[k] = m
	return m
}

func nilDeref(st *State) []Outcome {
	return []Outcome{{st: st, kind: oPanic, pv: rtPanic("nil pointer dereference")}}
}

var anyT = types.NewInterfaceType(nil, nil)

func (x *X) smRange(st *State, m *MapRef, fn Val, site ssa.Instruction) []Outcome {
	var keysL []Val
	for _, e := range st.heap[m.obj].entries {
		if e.present {
			keysL = append(keysL, e.k)
		}
	}
	orders := [][]Val{keysL}
	if x.permute && len(keysL) > 1 && len(keysL) <= 3 {
		orders = permutations(keysL)
	}
	var outs []Outcome
	for _, ks := range orders {
		cur := []*State{st.clone()}
		for _, k := range ks {
			var nxt []*State
			for _, s := range cur {
				var v Val
				for _, e := range s.heap[m.obj].entries {
					if e.present && K(s.norm(e.k)) == K(s.norm(k)) {
						v = s.norm(e.v)
					}
				}
				if v == nil {
					nxt = append(nxt, s)
					continue
				}
				for _, o := range x.call(s, fn, []Val{s.norm(k), v}, site) {
					if o.kind != oRet {
						outs = append(outs, o)
						continue
					}
					for _, b := range x.split(o.st, o.rets[0]) {
						if b.v {
							nxt = append(nxt, b.st)
						} else {
							outs = append(outs, Outcome{st: b.st, kind: oRet})
						}
					}
				}
			}
			cur = nxt
		}
		for _, s := range cur {
			outs = append(outs, Outcome{st: s, kind: oRet})
		}
	}
	return outs
}

type splitRes struct {
	st *State
	v  bool
}

// split forks a state on a boolean.
func (x *X) split(st *State, c Val) []splitRes {
	if k, v := st.decide(c); k {
		return []splitRes{{st, v}}
	}
	var r []splitRes
	for _, v := range []bool{true, false} {
		s := st.clone()
		if s.assume(c, v) {
			r = append(r, splitRes{s, v})
		}
	}
	return r
}

func (st *State) locked(key string) (bool, bool) {
	for _, l := range st.locks {
		if l.key == key {
			return true, l.write
		}
	}
	return false, false
}

// preemptible operations are points at which another call may run.
func preemptible(f Model) Model {
	return func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		if x.preempt == nil {
			return f(x, st, fn, a, site)
		}
		var outs []Outcome
		for _, s := range x.preempt(st.clone()) {
			outs = append(outs, f(x, s, fn, a, site)...)
		}
		return append(outs, f(x, st, fn, a, site)...)
	}
}

func (x *X) lock(st *State, key string, write bool, pos token.Pos) []Outcome {
	for _, l := range x.blocked {
		if l.key == key && (l.write || write) {
			return []Outcome{{st: st, kind: oBlocked}}
		}
	}
	if held, w := st.locked(key); held && (w || write) {
		return []Outcome{{st: st, kind: oPanic, pv: rtPanic("deadlock: lock is already held by this goroutine"), pos: pos}}
	}
	if x.onLock != nil {
		x.onLock(st, key, pos)
	}
	st.locks = append(st.locks, lock{key, write})
	return ret(st)
}

func (x *X) unlock(st *State, key string, pos token.Pos) []Outcome {
	for i := len(st.locks) - 1; i >= 0; i-- {
		if st.locks[i].key == key {
			st.locks = append(append([]lock(nil), st.locks[:i]...), st.locks[i+1:]...)
			return ret(st)
		}
	}
	return []Outcome{{st: st, kind: oPanic, pv: rtPanic("unlock of unlocked mutex"), pos: pos}}
}

func regexPat(st *State, v Val) (*regexp.Regexp, bool) {
	t, ok := st.norm(v).(*Term)
	if !ok || t.op != "nn:regexp" {
		return nil, false
	}
	p, ok := constStr(t.args[0])
	if !ok {
		return nil, false
	}
	re, err := regexp.Compile(p)
	return re, err == nil
}

func strSlice(st *State, ss []string) *Slice {
	var es []Val
	for _, s := range ss {
		es = append(es, str(s))
	}
	return st.newSlice(types.NewSlice(tString), es)
}

func init() {
	m := libModels
	tSS := types.NewSlice(tString)

	// ---- strings ----
	m["strings.Join"] = withSlices(func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		var ps []Val
		for i, e := range elemsOf(st, a[0]) {
			if i > 0 {
				ps = append(ps, a[1])
			}
			ps = append(ps, e)
		}
		return ret(st, st.norm(cat(ps...)))
	})
	m["strings.Split"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		s, ok1 := constStr(st.norm(a[0]))
		sep, ok2 := constStr(st.norm(a[1]))
		if ok1 && ok2 {
			return ret(st, strSlice(st, strings.Split(s, sep)))
		}
		if outs := x.splitBytes(st, a[:2], func(ss []string) []string { return strings.Split(ss[0], ss[1]) }); outs != nil {
			return outs
		}
		return ret(st, st.norm(T("call:strings.Split", tSS, a...)))
	}
	m["strings.Fields"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		if s, ok := constStr(st.norm(a[0])); ok {
			return ret(st, strSlice(st, strings.Fields(s)))
		}
		return ret(st, st.norm(T("call:strings.Fields", tSS, a...)))
	}
	m["strings.SplitN"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		s, ok1 := constStr(st.norm(a[0]))
		sep, ok2 := constStr(st.norm(a[1]))
		n, ok3 := constInt(st.norm(a[2]))
		if ok1 && ok2 && ok3 {
			return ret(st, strSlice(st, strings.SplitN(s, sep, n)))
		}
		if ok3 {
			if outs := x.splitBytes(st, a[:2], func(ss []string) []string { return strings.SplitN(ss[0], ss[1], n) }); outs != nil {
				return outs
			}
		}
		return ret(st, st.norm(T("call:strings.SplitN", tSS, a...)))
	}
	m["strings.ReplaceAll"] = pure("replaceall", tString, func(s []string) Val { return str(strings.ReplaceAll(s[0], s[1], s[2])) })
	m["strings.HasPrefix"] = pure("hasprefix", tBool, func(s []string) Val { return boolean(strings.HasPrefix(s[0], s[1])) })
	m["strings.HasSuffix"] = pure("hassuffix", tBool, func(s []string) Val { return boolean(strings.HasSuffix(s[0], s[1])) })
	m["strings.Contains"] = pure("contains", tBool, func(s []string) Val { return boolean(strings.Contains(s[0], s[1])) })
	m["strings.ContainsAny"] = pure("containsany", tBool, func(s []string) Val { return boolean(strings.ContainsAny(s[0], s[1])) })
	m["strings.Index"] = pure("index", tInt, func(s []string) Val { return num(strings.Index(s[0], s[1])) })
	m["strings.LastIndex"] = pure("lastindex", tInt, func(s []string) Val { return num(strings.LastIndex(s[0], s[1])) })
	m["strings.IndexAny"] = pure("indexany", tInt, func(s []string) Val { return num(strings.IndexAny(s[0], s[1])) })
	m["strings.TrimSpace"] = pure("trimspace", tString, func(s []string) Val { return str(strings.TrimSpace(s[0])) })
	m["strings.Trim"] = pure("trim", tString, func(s []string) Val { return str(strings.Trim(s[0], s[1])) })
	m["strings.TrimLeft"] = pure("trimleft", tString, func(s []string) Val { return str(strings.TrimLeft(s[0], s[1])) })
	m["strings.ToLower"] = pure("tolower", tString, func(s []string) Val { return str(strings.ToLower(s[0])) })
	m["strings.ToUpper"] = pure("toupper", tString, func(s []string) Val { return str(strings.ToUpper(s[0])) })
	m["strings.EqualFold"] = pure("equalfold", tBool, func(s []string) Val { return boolean(strings.EqualFold(s[0], s[1])) })
	m["strings.NewReplacer"] = withSlices(func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		return ret(st, T("nn:replacer", x.w.ext("strings", "Reader"), st.snap(a[0])))
	})
	m["(*strings.Replacer).Replace"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		r, _ := st.norm(a[0]).(*Term)
		if s, ok := constStr(st.norm(a[1])); ok && r != nil && r.op == "nn:replacer" {
			var ps []string
			for _, e := range r.args[0].(*Term).args {
				c, _ := constStr(e)
				ps = append(ps, c)
			}
			return ret(st, str(strings.NewReplacer(ps...).Replace(s)))
		}
		return ret(st, st.norm(T("replace", tString, a[0], a[1])))
	}
	// builders and buffers
	for _, b := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		key := func(x *X, st *State, v Val) (string, bool) {
			p := x.deref(st, v)
			if p == nil {
				return "", false
			}
			return "sb:" + K(p), true
		}
		get := func(st *State, k string) Val {
			if v, ok := st.vars[k]; ok {
				return v
			}
			return str("")
		}
		write := func(conv func(st *State, v Val) Val, rets func() []Val) Model {
			return func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
				k, ok := key(x, st, a[0])
				if !ok {
					return nilDeref(st)
				}
				st.vars[k] = cat(get(st, k), conv(st, st.norm(a[1])))
				return ret(st, rets()...)
			}
		}
		nerr := func() []Val { return []Val{num(0), nilOf(tError)} }
		m[b+".WriteString"] = write(func(st *State, v Val) Val { return v }, nerr)
		m[b+".WriteByte"] = write(func(st *State, v Val) Val { return runeStr(v) }, func() []Val { return []Val{nilOf(tError)} })
		m[b+".WriteRune"] = write(func(st *State, v Val) Val { return runeStr(v) }, nerr)
		m[b+".Write"] = write(func(st *State, v Val) Val {
			if t, ok := v.(*Term); ok && t.op == "bytes" {
				return t.args[0]
			}
			return T("bytestr", tString, st.snap(v))
		}, nerr)
		m[b+".String"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			k, ok := key(x, st, a[0])
			if !ok {
				return nilDeref(st)
			}
			return ret(st, st.norm(get(st, k)))
		}
		m[b+".Len"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			k, ok := key(x, st, a[0])
			if !ok {
				return nilDeref(st)
			}
			return ret(st, st.norm(lenTerm(st.norm(get(st, k)))))
		}
		m[b+".Reset"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			k, _ := key(x, st, a[0])
			st.vars[k] = str("")
			return ret(st)
		}
		m[b+".Grow"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome { return ret(st) }
	}
	// ---- strconv / fmt / errors ----
	m["strconv.Quote"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		return ret(st, quote(st.norm(a[0])))
	}
	// the other ways of quoting tell the same texts apart
	m["strconv.QuoteToASCII"] = m["strconv.Quote"]
	m["strconv.QuoteToGraphic"] = m["strconv.Quote"]
	m["strconv.AppendQuote"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		return ret(st, T("bytes", types.NewSlice(tByte), cat(bytesStr(st, a[0]), quote(st.norm(a[1])))))
	}
	m["strconv.AppendQuoteToASCII"] = m["strconv.AppendQuote"]
	m["strconv.AppendQuoteToGraphic"] = m["strconv.AppendQuote"]
	pureFold["itoa"] = func(args []Val) Val {
		if n, ok := constInt(args[0]); ok {
			return str(strconv.Itoa(n))
		}
		return nil
	}
	m["strconv.Itoa"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		if n, ok := constInt(st.norm(a[0])); ok {
			return ret(st, str(strconv.Itoa(n)))
		}
		return ret(st, T("itoa", tString, st.norm(a[0])))
	}
	m["strconv.Atoi"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		if s, ok := constStr(st.norm(a[0])); ok {
			n, err := strconv.Atoi(s)
			if err != nil {
				return ret(st, num(0), newError(str("atoi")))
			}
			return ret(st, num(n), nilOf(tError))
		}
		return ret(st, T("atoi", tInt, a[0]), T("atoierr", tError, a[0]))
	}
	sprint := func(errorf bool) Model {
		return withSlices(func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			f, ok := constStr(st.norm(a[0]))
			var v Val
			if ok {
				v = format(st, f, elemsOf(st, a[1]))
			}
			if v == nil {
				v = T("sprintf", tString, st.snap(a[0]), st.snap(a[1]))
			}
			if errorf {
				return ret(st, newError(v))
			}
			return ret(st, st.norm(v))
		})
	}
	m["fmt.Sprintf"] = withStringers(sprint(false), 1)
	m["fmt.Errorf"] = withStringers(sprint(true), 1)
	m["fmt.Sprintln"] = withStringers(withSlices(func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		var ps []Val
		for i, e := range elemsOf(st, a[0]) {
			if i > 0 {
				ps = append(ps, str(" "))
			}
			p := formatArg(st, 'v', false, e)
			if p == nil {
				return ret(st, T("sprintln", tString, st.snap(a[0])))
			}
			ps = append(ps, p)
		}
		return ret(st, st.norm(cat(append(ps, str("\n"))...)))
	}), 0)
	m["fmt.Sprint"] = withStringers(withSlices(func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		es := elemsOf(st, a[0])
		if len(es) == 1 {
			if v := formatArg(st, 'v', false, es[0]); v != nil {
				return ret(st, v)
			}
		}
		return ret(st, T("sprint", tString, st.snap(a[0])))
	}), 0)
	m["errors.New"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		return ret(st, newError(st.norm(a[0])))
	}
	m["errors.Is"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		return ret(st, x.eqVal(st, st.norm(a[0]), st.norm(a[1])))
	}
	m["encoding/json.Marshal"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		v := st.norm(a[0])
		if i, ok := v.(*Iface); ok {
			v = i.val
		}
		if t, ok := isSliceT(v); ok {
			var outs []Outcome
			for _, s := range x.sliceStates(st, t) {
				outs = append(outs, ret(s, T("bytes", types.NewSlice(tByte), T("json", tString, s.snap(v))), nilOf(tError))...)
			}
			return outs
		}
		return ret(st, T("bytes", types.NewSlice(tByte), T("json", tString, st.snap(v))), nilOf(tError))
	}
	m["sort.Strings"] = withSlices(func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		s, ok := a[0].(*Slice)
		if !ok {
			return ret(st)
		}
		var ss []string
		for _, e := range st.sliceElems(s) {
			c, ok := constStr(e)
			if !ok {
				return ret(st)
			}
			ss = append(ss, c)
		}
		sort.Strings(ss)
		for i, e := range ss {
			st.store(&Ptr{s.obj, append(append([]int(nil), s.path...), s.off+i)}, str(e))
		}
		return ret(st)
	})
	for _, name := range []string{"sort.Slice", "sort.SliceStable"} {
		m[name] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			v := st.norm(a[0])
			if i, ok := v.(*Iface); ok {
				v = st.norm(i.val)
			}
			s, ok := v.(*Slice)
			if !ok {
				return x.opaqueCall(st, fnName(fn), fn.Signature, a, site)
			}
			return x.sortBy(st, s, a[1], 1, 1, len(st.sliceElems(s)), site)
		}
	}
	// ---- regexp ----
	m["strconv.FormatFloat"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		if c, ok := st.norm(a[0]).(*Const); ok && c.c != nil {
			f, _ := constant.Float64Val(c.c)
			b, ok1 := constInt(st.norm(a[1]))
			p, ok2 := constInt(st.norm(a[2]))
			n, ok3 := constInt(st.norm(a[3]))
			if ok1 && ok2 && ok3 {
				return ret(st, str(strconv.FormatFloat(f, byte(b), p, n)))
			}
		}
		return ret(st, T("formatfloat", tString, st.norm(a[0]), st.norm(a[1]), st.norm(a[2]), st.norm(a[3])))
	}
	m["(*regexp.Regexp).String"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		if t, ok := st.norm(a[0]).(*Term); ok && t.op == "nn:regexp" {
			return ret(st, t.args[0])
		}
		return ret(st, T("regexpstring", tString, st.norm(a[0])))
	}
	m["(time.Time).Format"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		if t, ok := st.norm(a[0]).(*Term); ok && t.op == "nn:time" {
			s, ok1 := constStr(t.args[0])
			l, ok2 := constStr(st.norm(a[1]))
			if tv, err := time.Parse(time.RFC3339Nano, s); ok1 && ok2 && err == nil {
				return ret(st, str(tv.Format(l)))
			}
		}
		return ret(st, T("timeformat", tString, st.norm(a[0]), st.norm(a[1])))
	}
	m["(*regexp.Regexp).ReplaceAllStringFunc"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		re, ok := regexPat(st, a[0])
		s, ok2 := constStr(st.norm(a[1]))
		if !ok || !ok2 {
			return ret(st, T("re.replaceallfunc", tString, st.norm(a[0]), st.norm(a[1]), a[2]))
		}
		type part struct {
			st *State
			v  Val
		}
		cur := []part{{st, str("")}}
		last := 0
		var outs []Outcome
		for _, loc := range re.FindAllStringIndex(s, -1) {
			var nxt []part
			for _, p := range cur {
				for _, o := range x.call(p.st, a[2], []Val{str(s[loc[0]:loc[1]])}, site) {
					if o.kind != oRet {
						outs = append(outs, o)
						continue
					}
					nxt = append(nxt, part{o.st, cat(p.v, str(s[last:loc[0]]), o.rets[0])})
				}
			}
			cur = nxt
			last = loc[1]
		}
		for _, p := range cur {
			outs = append(outs, ret(p.st, cat(p.v, str(s[last:])))...)
		}
		return outs
	}
	m["(*regexp.Regexp).ReplaceAllString"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		re, ok := regexPat(st, a[0])
		s, ok2 := constStr(st.norm(a[1]))
		r, ok3 := constStr(st.norm(a[2]))
		if ok && ok2 && ok3 {
			return ret(st, str(re.ReplaceAllString(s, r)))
		}
		return ret(st, T("re.replaceall", tString, a...))
	}
	m["(*regexp.Regexp).FindString"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		re, ok := regexPat(st, a[0])
		s, ok2 := constStr(st.norm(a[1]))
		if ok && ok2 {
			return ret(st, str(re.FindString(s)))
		}
		return ret(st, T("re.find", tString, a...))
	}
	m["(*regexp.Regexp).FindAllString"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		re, ok := regexPat(st, a[0])
		s, ok2 := constStr(st.norm(a[1]))
		n, ok3 := constInt(st.norm(a[2]))
		if ok && ok2 && ok3 {
			return ret(st, strSlice(st, re.FindAllString(s, n)))
		}
		return ret(st, T("re.findall", tSS, a...))
	}
	m["(*regexp.Regexp).MatchString"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		re, ok := regexPat(st, a[0])
		s, ok2 := constStr(st.norm(a[1]))
		if ok && ok2 {
			return ret(st, boolean(re.MatchString(s)))
		}
		if t, ok := st.norm(a[0]).(*Term); ok && t.op == "nn:regexp" {
			return ret(st, regexpMatch(st, t.args[0], a[1]))
		}
		return ret(st, T("re.match", tBool, st.norm(a[0]), st.norm(a[1])))
	}
	// ---- sync ----
	sm := func(name string, f func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome) {
		m["(*sync.Map)."+name] = preemptible(func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			mr := x.smap(st, a[0])
			if mr == nil {
				return nilDeref(st)
			}
			if x.onSync != nil {
				x.onSync(st, x.deref(st, a[0]), name, posOf(site))
			}
			return f(x, st, mr, a, site)
		})
	}
	sm("Load", func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome {
		var o []Outcome
		for _, r := range x.mapLookup(st, m, st.snap(a[1])) {
			v := r.v
			if !r.ok {
				v = nilOf(anyT)
			}
			o = append(o, ret(r.st, v, boolean(r.ok))...)
		}
		return o
	})
	sm("Store", func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome {
		var o []Outcome
		for _, s := range x.mapStore(st, m, st.snap(a[1]), a[2], posOf(site)) {
			o = append(o, ret(s)...)
		}
		return o
	})
	sm("Swap", func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome {
		var o []Outcome
		for _, r := range x.mapLookup(st, m, st.snap(a[1])) {
			v := r.v
			if !r.ok {
				v = nilOf(anyT)
			}
			for _, s := range x.mapStore(r.st, m, r.st.snap(a[1]), a[2], posOf(site)) {
				o = append(o, ret(s, v, boolean(r.ok))...)
			}
		}
		return o
	})
	sm("LoadOrStore", func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome {
		var o []Outcome
		for _, r := range x.mapLookup(st, m, st.snap(a[1])) {
			if r.ok {
				o = append(o, ret(r.st, r.v, boolean(true))...)
				continue
			}
			for _, s := range x.mapStore(r.st, m, r.st.snap(a[1]), a[2], posOf(site)) {
				o = append(o, ret(s, s.norm(a[2]), boolean(false))...)
			}
		}
		return o
	})
	sm("Delete", func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome {
		var o []Outcome
		for _, s := range x.mapDelete(st, m, st.snap(a[1]), posOf(site)) {
			o = append(o, ret(s)...)
		}
		return o
	})
	sm("LoadAndDelete", func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome {
		var o []Outcome
		for _, r := range x.mapLookup(st, m, st.snap(a[1])) {
			if !r.ok {
				o = append(o, ret(r.st, nilOf(anyT), boolean(false))...)
				continue
			}
			for _, s := range x.mapDelete(r.st, m, r.st.snap(a[1]), posOf(site)) {
				o = append(o, ret(s, r.v, boolean(true))...)
			}
		}
		return o
	})
	sm("Range", func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome {
		return x.smRange(st, m, a[1], site)
	})
	sm("Clear", func(x *X, st *State, m *MapRef, a []Val, site ssa.Instruction) []Outcome {
		o := *st.heap[m.obj]
		o.entries, o.unknown = nil, false
		st.heap[m.obj] = &o
		st.event(&Event{kind: "mapclear", args: []Val{m}, pos: posOf(site)})
		return ret(st)
	})
	lk := func(name string, f func(x *X, st *State, key string, site ssa.Instruction) []Outcome) {
		g := func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			p := x.deref(st, a[0])
			if p == nil {
				return nilDeref(st)
			}
			return f(x, st, K(p), site)
		}
		if strings.HasSuffix(name, "Lock") && !strings.HasSuffix(name, "nlock") {
			g = preemptible(g)
		}
		m[name] = g
	}
	for _, n := range []string{"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock"} {
		write := !strings.HasSuffix(n, "RLock")
		lk(n, func(x *X, st *State, k string, site ssa.Instruction) []Outcome {
			held, w := st.locked(k)
			for _, l := range x.blocked {
				if l.key == k {
					held, w = true, w || l.write
				}
			}
			if held && (w || write) {
				return ret(st, boolean(false))
			}
			st.locks = append(st.locks, lock{k, write})
			return ret(st, boolean(true))
		})
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		lk("(*sync."+t+").Lock", func(x *X, st *State, k string, site ssa.Instruction) []Outcome {
			return x.lock(st, k, true, posOf(site))
		})
		lk("(*sync."+t+").Unlock", func(x *X, st *State, k string, site ssa.Instruction) []Outcome { return x.unlock(st, k, posOf(site)) })
	}
	lk("(*sync.RWMutex).RLock", func(x *X, st *State, k string, site ssa.Instruction) []Outcome {
		return x.lock(st, k, false, posOf(site))
	})
	lk("(*sync.RWMutex).RUnlock", func(x *X, st *State, k string, site ssa.Instruction) []Outcome { return x.unlock(st, k, posOf(site)) })
	m["(*sync.Once).Do"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		p := x.deref(st, a[0])
		k := "once:" + K(p)
		if _, ok := st.vars[k]; ok {
			return ret(st)
		}
		st.vars[k] = boolean(true)
		return x.call(st, a[1], nil, site)
	}
	m["(*strings.Builder).Cap"] = nil
	delete(m, "(*strings.Builder).Cap")
}

func bytesStr(st *State, v Val) Val {
	v = st.norm(v)
	if t, ok := v.(*Term); ok && t.op == "bytes" {
		return t.args[0]
	}
	if s, ok := v.(*Slice); ok && s.len == 0 {
		return str("")
	}
	return T("bytestr", tString, st.snap(v))
}

func runeStr(v Val) Val {
	if n, ok := constInt(v); ok {
		return str(string(rune(n)))
	}
	return T("runestr", tString, v)
}

var _ = fmt.Sprint
var _ = constant.MakeBool

// sortBy is an insertion sort of a slice of a known length, element i being moved down and at j.
func (x *X) sortBy(st *State, s *Slice, less Val, i, j, n int, site ssa.Instruction) []Outcome {
	if i >= n {
		return ret(st)
	}
	if j == 0 {
		return x.sortBy(st, s, less, i+1, i+1, n, site)
	}
	var outs []Outcome
	for _, o := range x.call(st, less, []Val{num(j), num(j - 1)}, site) {
		if o.kind != oRet {
			outs = append(outs, o)
			continue
		}
		for _, r := range x.split(o.st, o.st.norm(o.rets[0])) {
			if !r.v {
				outs = append(outs, x.sortBy(r.st, s, less, i+1, i+1, n, site)...)
				continue
			}
			at := func(k int) *Ptr { return &Ptr{s.obj, append(append([]int(nil), s.path...), s.off+k)} }
			a, b := r.st.load(at(j)), r.st.load(at(j-1))
			r.st.store(at(j), b)
			r.st.store(at(j-1), a)
			outs = append(outs, x.sortBy(r.st, s, less, i, j-1, n, site)...)
		}
	}
	return outs
}

// withStringers replaces the arguments of a formatting function that have a String or an Error method by its result.
func withStringers(run Model, at int) Model {
	return func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		s, ok := st.norm(a[at]).(*Slice)
		if !ok {
			return run(x, st, fn, a, site)
		}
		if at > 0 {
			if f, ok := constStr(st.norm(a[at-1])); ok {
				for i := strings.IndexByte(f, '%'); i >= 0 && i+1 < len(f); {
					if !strings.ContainsRune("svq%", rune(f[i+1])) {
						return run(x, st, fn, a, site)
					}
					j := strings.IndexByte(f[i+2:], '%')
					if j < 0 {
						break
					}
					i += 2 + j
				}
			}
		}
		es := append([]Val(nil), st.sliceElems(s)...)
		for i, e := range es {
			iv, ok := st.norm(e).(*Iface)
			if !ok || isFake(iv.typ) {
				continue
			}
			if _, ok := iv.val.(*Fake); ok {
				continue
			}
			for _, name := range []string{"Error", "String"} {
				f := x.w.textMethod(iv.typ, name)
				if f == nil {
					continue
				}
				var outs []Outcome
				for _, o := range x.call(st, &Func{fn: f}, []Val{iv.val}, site) {
					if o.kind != oRet {
						outs = append(outs, o)
						continue
					}
					es2 := append([]Val(nil), es...)
					es2[i] = o.st.norm(o.rets[0])
					b := append([]Val(nil), a...)
					b[at] = o.st.newSlice(s.typ, es2)
					outs = append(outs, withStringers(run, at)(x, o.st, fn, b, site)...)
				}
				return outs
			}
		}
		return run(x, st, fn, a, site)
	}
}

// textMethod is a method of a type of the repository that returns a text.
func (w *World) textMethod(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || f.Name() != name {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), tString) {
			return nil
		}
		if g := w.prog.MethodValue(ms.At(i)); g != nil && g.Blocks != nil {
			return g
		}
	}
	return nil
}
