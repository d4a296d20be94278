package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Strings of known length over arbitrary bytes: chr(b) is the string of the one byte b (an ASCII byte).

// inByte is an arbitrary byte.
func inByte(name string) Val { return T("$chr:"+name, tByte) }

func isChrByte(t *Term) bool { return strings.HasPrefix(t.op, "$chr:") }

func chr(b Val) Val {
	if n, ok := constInt(b); ok {
		return str(string([]byte{byte(n)}))
	}
	return T("chr", tString, b)
}

func hasChr(ps []Val) bool {
	for _, p := range ps {
		if t, ok := p.(*Term); ok && t.op == "chr" {
			return true
		}
	}
	return false
}

// strBytes are the bytes of a string of known length.
func strBytes(v Val) ([]Val, bool) {
	if !isStringish(v) {
		return nil, false
	}
	r := []Val{}
	for _, p := range catParts(v) {
		if s, ok := constStr(p); ok {
			for i := 0; i < len(s); i++ {
				r = append(r, &Const{constant.MakeInt64(int64(s[i])), tByte})
			}
			continue
		}
		t, ok := p.(*Term)
		if !ok || t.op != "chr" {
			return nil, false
		}
		r = append(r, t.args[0])
	}
	return r, true
}

func ofBytes(bs []Val) Val {
	var ps []Val
	for _, b := range bs {
		ps = append(ps, chr(b))
	}
	return cat(ps...)
}

func isByteT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

// bytesVal is the text of byte slices that are appended to each other: at least one of them is the bytes of a string.
func bytesVal(st *State, vs ...Val) (Val, bool) {
	text := false
	var ps []Val
	for _, v := range vs {
		v = st.norm(v)
		switch b := v.(type) {
		case *Const:
			if b.c != nil && b.c.Kind() == constant.String {
				text = true
				ps = append(ps, b)
			} else if b.c != nil {
				return nil, false
			}
			continue
		case *Slice:
			for _, e := range st.sliceElems(b) {
				if t, ok := e.(*Term); ok && !isChrByte(t) {
					return nil, false
				}
				ps = append(ps, chr(e))
			}
			continue
		}
		if isStringish(v) {
			text = true
			ps = append(ps, v)
			continue
		}
		t, ok := v.(*Term)
		if !ok || t.op != "bytes" {
			return nil, false
		}
		text = true
		ps = append(ps, t.args[0])
	}
	return cat(ps...), text
}

// onBytes evaluates a function that compares the bytes of its arguments: all comparisons between bytes of different arguments are decided first.
func (x *X) onBytes(st *State, args []Val, eval func(ss []string, back func(string) Val) []Val) []Outcome {
	sym := false
	for _, a := range args {
		if _, ok := strBytes(st.norm(a)); !ok {
			return nil
		}
		sym = sym || hasChr(catParts(st.norm(a)))
	}
	if !sym {
		return nil
	}
	var outs []Outcome
	var decide func(st *State)
	decide = func(st *State) {
		var bs [][]Val
		for _, a := range args {
			b, _ := strBytes(st.norm(a))
			bs = append(bs, b)
		}
		for i := range bs {
			for j := i + 1; j < len(bs); j++ {
				for _, p := range bs[i] {
					for _, q := range bs[j] {
						_, c1 := p.(*Const)
						_, c2 := q.(*Const)
						if c1 && c2 {
							continue
						}
						c := T("eq", tBool, p, q)
						if k, _ := st.decide(c); !k {
							for _, s := range x.split(st, c) {
								decide(s.st)
							}
							return
						}
					}
				}
			}
		}
		// representatives: bytes that are not constants get codes above 127
		code := map[string]byte{}
		name := map[byte]Val{}
		var ss []string
		for _, b := range bs {
			var r []byte
			for _, p := range b {
				if n, ok := constInt(p); ok {
					r = append(r, byte(n))
					continue
				}
				k, ok := code[K(p)]
				if !ok {
					k = byte(128 + len(code))
					code[K(p)], name[k] = k, p
				}
				r = append(r, k)
			}
			ss = append(ss, string(r))
		}
		back := func(s string) Val {
			var r []Val
			for i := 0; i < len(s); i++ {
				if v, ok := name[s[i]]; ok {
					r = append(r, v)
				} else {
					r = append(r, &Const{constant.MakeInt64(int64(s[i])), tByte})
				}
			}
			return ofBytes(r)
		}
		outs = append(outs, ret(st, eval(ss, back)...)...)
	}
	decide(st.clone())
	return outs
}

func (x *X) splitBytes(st *State, args []Val, f func(ss []string) []string) []Outcome {
	outs := x.onBytes(st, args, func(ss []string, back func(string) Val) []Val {
		var r []Val
		for _, p := range f(ss) {
			r = append(r, back(p))
		}
		return r
	})
	for i := range outs {
		outs[i].rets = []Val{outs[i].st.newSlice(types.NewSlice(tString), outs[i].rets)}
	}
	return outs
}

func init() {
	libModels["strings.Cut"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		s, ok1 := constStr(st.norm(a[0]))
		sep, ok2 := constStr(st.norm(a[1]))
		if ok1 && ok2 {
			l, r, ok := strings.Cut(s, sep)
			return ret(st, str(l), str(r), boolean(ok))
		}
		if outs := x.onBytes(st, a, func(ss []string, back func(string) Val) []Val {
			l, r, ok := strings.Cut(ss[0], ss[1])
			return []Val{back(l), back(r), boolean(ok)}
		}); outs != nil {
			return outs
		}
		return ret(st, st.norm(T("cut.before", tString, a...)), st.norm(T("cut.after", tString, a...)), st.norm(T("cut.found", tBool, a...)))
	}
	byteArg := func(op string, f func(s string, b byte) int) Model {
		m := pure(op, tInt, func(s []string) Val { return num(f(s[0], s[1][0])) })
		return func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			return m(x, st, fn, []Val{a[0], chr(st.norm(a[1]))}, site)
		}
	}
	libModels["strings.IndexByte"] = byteArg("indexbyte", strings.IndexByte)
	libModels["strings.LastIndexByte"] = byteArg("lastindexbyte", strings.LastIndexByte)
	libModels["strings.Count"] = pure("count", tInt, func(s []string) Val { return num(strings.Count(s[0], s[1])) })
	// trimming decides whether the affix is there, the rest has the same form as a slice expression
	trim := func(op, has string, test func(s, p string) bool, fold func(s []string) string, cut func(st *State, v, p Val) Val, found bool) {
		libModels["strings."+op] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			v, p := st.norm(a[0]), st.norm(a[1])
			_, ok1 := strBytes(v)
			_, ok2 := strBytes(p)
			if ok1 && ok2 {
				both := func(ss []string, back func(string) Val) []Val {
					r := []Val{back(fold(ss))}
					if found {
						r = append(r, boolean(test(ss[0], ss[1])))
					}
					return r
				}
				if outs := x.onBytes(st, []Val{v, p}, both); outs != nil {
					return outs
				}
				s1, _ := constStr(v)
				s2, _ := constStr(p)
				return ret(st, both([]string{s1, s2}, func(s string) Val { return str(s) })...)
			}
			var outs []Outcome
			for _, b := range x.split(st, T(has, tBool, v, p)) {
				r := v
				if b.v {
					r = cut(b.st, b.st.norm(v), b.st.norm(p))
				}
				if found {
					outs = append(outs, ret(b.st, r, boolean(b.v))...)
				} else {
					outs = append(outs, ret(b.st, r)...)
				}
			}
			return outs
		}
	}
	prefix := func(st *State, v, p Val) Val {
		a, ok1 := strBytes(v)
		b, ok2 := strBytes(p)
		if ok1 && ok2 && len(b) <= len(a) {
			return ofBytes(a[len(b):])
		}
		ps, qs := catParts(v), catParts(p)
		for len(ps) > 0 && len(qs) > 0 && K(ps[0]) == K(qs[0]) {
			ps, qs = ps[1:], qs[1:]
		}
		if len(qs) == 0 {
			return cat(ps...)
		}
		if len(qs) == 1 && len(ps) > 0 {
			s, ok1 := constStr(ps[0])
			t, ok2 := constStr(qs[0])
			if ok1 && ok2 && strings.HasPrefix(s, t) {
				return cat(append([]Val{str(s[len(t):])}, ps[1:]...)...)
			}
		}
		return T("substr", tString, v, lenTerm(p), lenTerm(v))
	}
	suffix := func(st *State, v, p Val) Val {
		a, ok1 := strBytes(v)
		b, ok2 := strBytes(p)
		if ok1 && ok2 && len(b) <= len(a) {
			return ofBytes(a[:len(a)-len(b)])
		}
		return T("trimsuffix", tString, v, p)
	}
	cutP := func(s []string) string { return strings.TrimPrefix(s[0], s[1]) }
	cutS := func(s []string) string { return strings.TrimSuffix(s[0], s[1]) }
	trim("TrimPrefix", "hasprefix", strings.HasPrefix, cutP, prefix, false)
	trim("TrimSuffix", "hassuffix", strings.HasSuffix, cutS, suffix, false)
	trim("CutPrefix", "hasprefix", strings.HasPrefix, cutP, prefix, true)
	trim("CutSuffix", "hassuffix", strings.HasSuffix, cutS, suffix, true)
}
