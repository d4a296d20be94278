package main

import (
	"net"
	"path"
	"regexp"

	"golang.org/x/tools/go/ssa"
)

// Models of regexp, path and net: constants are evaluated, everything else is an arbitrary predicate of the arguments.

func (x *X) pred(st *State, name string, eval func(s []string) bool, args ...Val) []splitRes {
	var ss []string
	var as []Val
	for _, a := range args {
		a = st.norm(a)
		as = append(as, a)
		if s, ok := constStr(a); ok {
			ss = append(ss, s)
		}
	}
	if len(ss) == len(args) && eval != nil {
		return []splitRes{{st, eval(ss)}}
	}
	return x.split(st, T("in:"+name, tBool, as...))
}

func validRegexp(s []string) bool {
	_, err := regexp.Compile(s[0])
	return err == nil
}

func regexpMatch(st *State, pat, s Val) Val {
	p, ok1 := constStr(st.norm(pat))
	v, ok2 := constStr(st.norm(s))
	if ok1 && ok2 {
		m, _ := regexp.MatchString(p, v)
		return boolean(m)
	}
	return T("in:regexp.match", tBool, st.norm(pat), st.norm(s))
}

func init() {
	m := libModels
	m["regexp.MatchString"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		var outs []Outcome
		for _, b := range x.pred(st, "regexp.valid", validRegexp, a[0]) {
			if !b.v {
				outs = append(outs, ret(b.st, boolean(false), newError(str("invalid regular expression")))...)
				continue
			}
			outs = append(outs, ret(b.st, regexpMatch(b.st, a[0], a[1]), nilErr)...)
		}
		return outs
	}
	m["regexp.Compile"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		t := fn.Signature.Results().At(0).Type()
		var outs []Outcome
		for _, b := range x.pred(st, "regexp.valid", validRegexp, a[0]) {
			if b.v {
				outs = append(outs, ret(b.st, T("nn:regexp", t, b.st.norm(a[0])), nilErr)...)
			} else {
				outs = append(outs, ret(b.st, nilOf(t), newError(str("invalid regular expression")))...)
			}
		}
		return outs
	}
	m["regexp.MustCompile"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		t := fn.Signature.Results().At(0).Type()
		var outs []Outcome
		for _, b := range x.pred(st, "regexp.valid", validRegexp, a[0]) {
			if b.v {
				outs = append(outs, ret(b.st, T("nn:regexp", t, b.st.norm(a[0])))...)
			} else {
				outs = append(outs, Outcome{st: b.st, kind: oPanic, pv: rtPanic("regexp: Compile"), pos: posOf(site)})
			}
		}
		return outs
	}
	m["regexp.QuoteMeta"] = pure1("quotemeta", regexp.QuoteMeta)
	glob := func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		var outs []Outcome
		valid := func(s []string) bool { _, err := path.Match(s[0], s[1]); return err == nil }
		for _, b := range x.pred(st, "glob.valid", valid, a[0], a[1]) {
			if !b.v {
				outs = append(outs, ret(b.st, boolean(false), newError(str("bad pattern")))...)
				continue
			}
			p, ok1 := constStr(b.st.norm(a[0]))
			s, ok2 := constStr(b.st.norm(a[1]))
			var r Val = T("in:glob.match", tBool, b.st.norm(a[0]), b.st.norm(a[1]))
			if ok1 && ok2 {
				g, _ := path.Match(p, s)
				r = boolean(g)
			}
			outs = append(outs, ret(b.st, r, nilErr)...)
		}
		return outs
	}
	m["path.Match"] = glob
	m["net.ParseIP"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		t := fn.Signature.Results().At(0).Type()
		var outs []Outcome
		for _, b := range x.pred(st, "net.isIP", func(s []string) bool { return net.ParseIP(s[0]) != nil }, a[0]) {
			if b.v {
				outs = append(outs, ret(b.st, T("nn:ip", t, b.st.norm(a[0])))...)
			} else {
				outs = append(outs, ret(b.st, nilOf(t))...)
			}
		}
		return outs
	}
	m["net.ParseCIDR"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		t0, t1 := fn.Signature.Results().At(0).Type(), fn.Signature.Results().At(1).Type()
		var outs []Outcome
		for _, b := range x.pred(st, "net.isCIDR", func(s []string) bool { _, _, err := net.ParseCIDR(s[0]); return err == nil }, a[0]) {
			if b.v {
				outs = append(outs, ret(b.st, T("nn:cidrip", t0, b.st.norm(a[0])), T("nn:ipnet", t1, b.st.norm(a[0])), nilErr)...)
			} else {
				outs = append(outs, ret(b.st, nilOf(t0), nilOf(t1), newError(str("invalid CIDR address")))...)
			}
		}
		return outs
	}
	ipOf := func(v Val) (net.IP, bool) {
		if t, ok := v.(*Term); ok && t.op == "nn:ip" {
			if s, ok := constStr(t.args[0]); ok {
				return net.ParseIP(s), true
			}
		}
		return nil, false
	}
	m["(net.IP).Equal"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		p, q := st.norm(a[0]), st.norm(a[1])
		i, ok1 := ipOf(p)
		j, ok2 := ipOf(q)
		if ok1 && ok2 {
			return ret(st, boolean(i.Equal(j)))
		}
		if K(p) == K(q) {
			return ret(st, boolean(true))
		}
		if K(p) > K(q) {
			p, q = q, p
		}
		return ret(st, T("in:net.equal", tBool, p, q))
	}
	m["(net.IP).To4"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		p := st.norm(a[0])
		t, ok := p.(*Term)
		if !ok || t.op != "nn:ip" {
			return ret(st, nilOf(fn.Signature.Results().At(0).Type()))
		}
		var outs []Outcome
		for _, b := range x.pred(st, "net.isIPv4", func(s []string) bool { return net.ParseIP(s[0]).To4() != nil }, t.args[0]) {
			if b.v {
				outs = append(outs, ret(b.st, p)...) // the same address
			} else {
				outs = append(outs, ret(b.st, nilOf(fn.Signature.Results().At(0).Type()))...)
			}
		}
		return outs
	}
	m["(net.IP).To16"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		return ret(st, st.norm(a[0]))
	}
	for _, name := range []string{"IsLoopback", "IsPrivate", "IsUnspecified", "IsMulticast", "IsGlobalUnicast", "IsLinkLocalUnicast", "IsLinkLocalMulticast", "IsInterfaceLocalMulticast"} {
		name := name
		m["(net.IP)."+name] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			return ret(st, T("in:net."+name, tBool, st.norm(a[0])))
		}
	}
	m["(*net.IPNet).Contains"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		n, p := st.norm(a[0]), st.norm(a[1])
		if t, ok := n.(*Term); ok && t.op == "nn:ipnet" {
			if s, ok := constStr(t.args[0]); ok {
				if ip, ok := ipOf(p); ok {
					_, cidr, _ := net.ParseCIDR(s)
					return ret(st, boolean(cidr.Contains(ip)))
				}
			}
		}
		return ret(st, T("in:net.contains", tBool, n, p))
	}
}

func pure1(op string, f func(string) string) func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
	return func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		v := st.norm(a[0])
		if s, ok := constStr(v); ok {
			return ret(st, str(f(s)))
		}
		return ret(st, T(op, tString, v))
	}
}
