package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Fake is an arbitrary user implementation of interfaces of the repository; its behaviour is given by h.
type Fake struct {
	label string
	h     func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome
}

var fakePkg = types.NewPackage("user", "user")

// fake returns a value of a new type that implements the given interfaces.
func (c *C) fake(label string, h func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome, ifaces ...types.Type) *Iface {
	n := types.NewNamed(types.NewTypeName(0, fakePkg, label, nil), types.NewStruct(nil, nil), nil)
	seen := map[string]bool{}
	for _, t := range ifaces {
		it := under(t).(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if seen[m.Name()] {
				continue
			}
			seen[m.Name()] = true
			sig := m.Type().(*types.Signature)
			recv := types.NewVar(0, fakePkg, "", n)
			n.AddMethod(types.NewFunc(0, fakePkg, m.Name(), types.NewSignatureType(recv, nil, nil, sig.Params(), sig.Results(), sig.Variadic())))
		}
	}
	return &Iface{n, &Fake{label, h}}
}

func isFake(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == fakePkg
}

// fails forks on the failure of an operation of the user.
func (x *X) fails(st *State, what string, args []Val, site ssa.Instruction) []splitRes {
	var out []splitRes
	st.nfresh++
	for _, b := range x.split(st, st.fresh("in:fails:"+what, tBool)) {
		if b.v {
			b.st.event(&Event{kind: "fault", name: what, args: args, pos: posOf(site)})
		}
		out = append(out, b)
	}
	return out
}

func (c *C) snapAll(st *State, args []Val) []Val {
	var as []Val
	for _, a := range args {
		as = append(as, st.snapDeep(a))
	}
	return as
}

// snapDeep converts nested slices too.
func (st *State) snapDeep(v Val) Val { return st.snap(v) }
