package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const (
	oRet = iota
	oPanic
	oCut     // exploration bound reached
	oBlocked // waits for a lock of the interrupted call
)

// Outcome is one way a call can end.
type Outcome struct {
	st   *State
	kind int
	rets []Val
	pv   Val
	pos  token.Pos
}

type Model func(x *X, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Outcome
type Invoke func(x *X, st *State, recv Val, m *types.Func, args []Val, site ssa.Instruction) []Outcome

// X explores the exploded graph (program point x abstract state) of the program.
type X struct {
	w         *World
	globals   map[*ssa.Global]int
	base      *State
	models    map[string]Model
	invokes   map[string]Invoke
	onStore   func(st *State, p *Ptr, old, v Val, pos token.Pos)
	onLoad    func(st *State, p *Ptr, pos token.Pos)
	onMap     func(st *State, m *MapRef, write bool, pos token.Pos)
	preempt   func(st *State) []*State // other calls that may run at this point
	onLock    func(st *State, key string, pos token.Pos)
	blocked   []lock // locks held by the interrupted call
	onSync    func(st *State, owner *Ptr, op string, pos token.Pos)
	maxDepth  int
	loopForks int
	sliceMax  int
	permute   bool
	bounds    bool // string bounds may be violated
	noRecur   bool
	fsFaults  int      // failing system calls per path
	fsSpills  int      // early writes of a buffered writer per path
	probe     []string // parameters read by expressions with unknown content

	paths, cuts, steps, calls int
	maxSteps, exceeded        int
	fns                       map[*ssa.Function]bool
	nums                      map[*ssa.Function]map[ssa.Value]int
	opaque                    map[string]int
	cutWhy                    map[string]int
}

type deferred struct {
	fn   Val
	args []Val
	site ssa.Instruction
	inv  *types.Func
	recv Val
}

type frame struct {
	fn     *ssa.Function
	nums   map[ssa.Value]int
	env    []Val
	binds  []Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	st     *State
	defers []deferred
	forks  map[ssa.Instruction]int
	visits map[*ssa.BasicBlock]int
	pdepth int // >0: panicking, value is the number of panics when the panic started
	pv     Val
}

func (f *frame) clone(st *State) *frame {
	n := *f
	n.st = st
	n.env = append([]Val(nil), f.env...)
	n.defers = append([]deferred(nil), f.defers...)
	n.forks = make(map[ssa.Instruction]int, len(f.forks))
	for k, v := range f.forks {
		n.forks[k] = v
	}
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return &n
}

func newX(w *World) *X {
	x := &X{w: w, globals: map[*ssa.Global]int{}, models: map[string]Model{}, invokes: map[string]Invoke{},
		maxDepth: 90, loopForks: 3, sliceMax: 2, fns: map[*ssa.Function]bool{}, nums: map[*ssa.Function]map[ssa.Value]int{},
		opaque: map[string]int{}, cutWhy: map[string]int{}, maxSteps: 1 << 60}
	for k, v := range libModels {
		x.models[k] = v
	}
	for k, v := range libInvokes {
		x.invokes[k] = v
	}
	x.base = newState()
	for _, p := range w.pkgs {
		x.initPkg(p)
	}
	x.steps, x.paths, x.cuts, x.calls = 0, 0, 0, 0
	x.fns = map[*ssa.Function]bool{}
	return x
}

func (x *X) initPkg(p *ssa.Package) {
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := x.globals[g]; !ok {
				et := g.Type().(*types.Pointer).Elem()
				x.globals[g] = x.base.alloc(&Obj{val: zero(et), site: "global " + g.String()})
			}
		}
	}
}

// runInits interprets the package initialisers in dependency order.
func (x *X) runInits() {
	for _, p := range x.w.pkgs {
		init := p.Func("init")
		if init == nil || init.Blocks == nil {
			continue
		}
		outs := x.exec(x.base, init, nil, nil, nil)
		for _, o := range outs {
			if o.kind == oRet {
				x.base = o.st
				break
			}
		}
	}
	x.base.trace = nil
	x.base.locks = nil
}

func (x *X) global(g *ssa.Global, st *State) Val {
	if id, ok := x.globals[g]; ok {
		return &Ptr{obj: id}
	}
	// global of a dependency: opaque, never nil
	et := g.Type().(*types.Pointer).Elem()
	name := "nn:global " + g.String()
	id := st.alloc(&Obj{val: &Term{op: name, typ: et, key: name}, site: name})
	return &Ptr{obj: id}
}

func (x *X) numbering(fn *ssa.Function) map[ssa.Value]int {
	if n, ok := x.nums[fn]; ok {
		return n
	}
	n := map[ssa.Value]int{}
	add := func(v ssa.Value) { n[v] = len(n) }
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	x.nums[fn] = n
	return n
}

func (x *X) cut(st *State, why string) Outcome {
	x.cuts++
	x.cutWhy[why]++
	return Outcome{st: st, kind: oCut}
}

// exec explores fn from its entry, one outcome per path.
func (x *X) exec(st *State, fn *ssa.Function, args, binds []Val, site ssa.Instruction) []Outcome {
	if len(st.stack) > x.maxDepth {
		return []Outcome{x.cut(st, "call depth in "+fn.String())}
	}
	x.fns[fn] = true
	x.calls++
	pos := token.NoPos
	if site != nil {
		pos = site.Pos()
	}
	st.stack = append(st.stack, pos)
	st.fnames = append(st.fnames, fn.String())
	fr := &frame{fn: fn, nums: x.numbering(fn), binds: binds, st: st, block: fn.Blocks[0],
		forks: map[ssa.Instruction]int{}, visits: map[*ssa.BasicBlock]int{}}
	fr.env = make([]Val, len(fr.nums))
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[fr.nums[p]] = args[i]
		}
	}
	work := []*frame{fr}
	var outs []Outcome
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		succ, o := x.run(f)
		for i := len(succ) - 1; i >= 0; i-- {
			work = append(work, succ[i])
		}
		outs = append(outs, o...)
	}
	for i := range outs {
		s := outs[i].st
		if n := len(s.stack); n > 0 {
			s.stack = s.stack[:n-1]
			s.fnames = s.fnames[:n-1]
		}
	}
	return outs
}

// run advances a frame until it forks or ends.
func (x *X) run(f *frame) (succ []*frame, outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				normDepth = 0
				succ, outs = nil, []Outcome{x.cut(f.st, "abort: "+a.msg+" in "+f.fn.String())}
				return
			}
			panic(r)
		}
	}()
	for {
		x.steps++
		if x.steps&1023 == 0 {
			budget()
		}
		if x.steps > x.maxSteps {
			x.exceeded++
			return nil, []Outcome{x.cut(f.st, "step budget")}
		}
		if f.pdepth > 0 {
			// unwinding
			if len(f.defers) > 0 {
				return x.popDefer(f)
			}
			if len(f.st.panics) < f.pdepth {
				// recovered
				f.pdepth = 0
				if f.fn.Recover != nil {
					f.prev, f.block, f.idx = f.block, f.fn.Recover, 0
					continue
				}
				return nil, []Outcome{{st: f.st, kind: oRet, rets: x.zeroResults(f.fn)}}
			}
			f.st.panics = f.st.panics[:len(f.st.panics)-1]
			return nil, []Outcome{{st: f.st, kind: oPanic, pv: f.pv, pos: x.curPos(f)}}
		}
		if f.idx >= len(f.block.Instrs) {
			panic(abort{"end of block"})
		}
		in := f.block.Instrs[f.idx]
		if f.idx == 0 {
			f.visits[f.block]++
			if f.visits[f.block] > 5000 {
				return nil, []Outcome{x.cut(f.st, "loop bound in "+f.fn.String())}
			}
			// phis are evaluated in parallel
			var vals []Val
			var phis []*ssa.Phi
			for _, i2 := range f.block.Instrs {
				ph, ok := i2.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range f.block.Preds {
					if p == f.prev {
						vals = append(vals, x.get(f, ph.Edges[k]))
						break
					}
				}
				phis = append(phis, ph)
			}
			if len(phis) > 0 {
				for i, ph := range phis {
					f.env[f.nums[ph]] = vals[i]
				}
				f.idx = len(phis)
				continue
			}
		}
		s, o, forked := x.step(f, in)
		if forked {
			return s, o
		}
	}
}

func (x *X) curPos(f *frame) token.Pos {
	if f.block != nil && f.idx < len(f.block.Instrs) {
		if p := f.block.Instrs[f.idx].Pos(); p != token.NoPos {
			return p
		}
	}
	return f.fn.Pos()
}

func (x *X) zeroResults(fn *ssa.Function) []Val {
	var r []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		r = append(r, zero(res.At(i).Type()))
	}
	return r
}

func (x *X) get(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zero(v.Type())
		}
		return &Const{v.Value, v.Type()}
	case *ssa.Global:
		return x.global(v, f.st)
	case *ssa.Function:
		return &Func{fn: v}
	case *ssa.Builtin:
		return &BuiltinV{v}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.st.norm(f.binds[i])
			}
		}
	}
	r := f.env[f.nums[v]]
	if r == nil {
		panic(abort{"undefined value " + v.Name()})
	}
	return f.st.norm(r)
}

func (x *X) set(f *frame, v ssa.Value, r Val) { f.env[f.nums[v]] = r }

// panicAt starts unwinding.
func (x *X) panicAt(f *frame, v Val) {
	f.st.event(&Event{kind: "panic", name: f.st.show(v), args: []Val{v}, pos: x.curPos(f), fn: f.fn.String()})
	f.st.panics = append(f.st.panics, v)
	f.pdepth = len(f.st.panics)
	f.pv = v
}

func rtPanic(msg string) Val {
	return &Iface{tError, &Const{constant.MakeString("runtime error: " + msg), tString}}
}

func (x *X) popDefer(f *frame) ([]*frame, []Outcome) {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	var os []Outcome
	if d.inv != nil {
		os = x.invoke(f.st, d.recv, d.inv, d.args, d.site)
	} else {
		os = x.call(f.st, d.fn, d.args, d.site)
	}
	var succ []*frame
	var outs []Outcome
	for i, o := range os {
		if o.kind >= oCut {
			outs = append(outs, o)
			continue
		}
		n := f
		if i < len(os)-1 || len(os) > 1 {
			n = f.clone(o.st)
		}
		n.st = o.st
		if o.kind == oPanic {
			if n.pdepth > 0 && len(n.st.panics) >= n.pdepth {
				n.st.panics = n.st.panics[:len(n.st.panics)-1]
			}
			n.pdepth = 0
			n.st.panics = append(n.st.panics, o.pv)
			n.pdepth = len(n.st.panics)
			n.pv = o.pv
		}
		succ = append(succ, n)
	}
	return succ, outs
}

// forkOn materialises an opaque slice: one frame per length.
func (x *X) forkSlice(f *frame, t *Term) []*frame {
	var fs []*frame
	for _, s := range x.sliceStates(f.st, t) {
		fs = append(fs, f.clone(s))
	}
	return fs
}

func (x *X) sliceStates(st *State, t *Term) []*State {
	if t.op == "runes" {
		panic(abort{"runes of " + K(t.args[0])})
	}
	if t.op == "bytes" {
		// the bytes of a string whose length is not known
		bs, ok := strBytes(st.norm(t.args[0]))
		if !ok {
			panic(abort{"bytes of " + K(t.args[0])})
		}
		s := st.clone()
		if s.bind(t, s.newSlice(t.typ, bs)) {
			return []*State{s}
		}
		return nil
	}
	et := under(t.typ).(*types.Slice).Elem()
	min, max := 0, x.sliceMax
	if strings.HasPrefix(t.op, "call:strings.Split") {
		min = 1
	}
	var r []*State
	if k, v := st.decide(T("eq", tBool, t, nilOf(t.typ))); k && v {
		max = 0
	}
	for n := min; n <= max; n++ {
		s := st.clone()
		var es []Val
		for i := 0; i < n; i++ {
			es = append(es, T("elem", et, t, num(i)))
		}
		sl := s.newSlice(t.typ, es)
		delete(s.facts, atom(t, nilOf(t.typ)).key)
		if s.bind(t, sl) {
			r = append(r, s)
		}
	}
	return r
}

func (x *X) matMap(st *State, t *Term) *MapRef {
	id := st.alloc(&Obj{isMap: true, unknown: true, mt: t.typ, site: t.key})
	m := &MapRef{t.typ, id}
	st.bind(t, m)
	return m
}

func (x *X) matPtr(st *State, t *Term) *Ptr {
	et := under(t.typ).(*types.Pointer).Elem()
	p := &Ptr{obj: st.alloc(&Obj{val: T("deref", et, t), site: t.key})}
	delete(st.facts, atom(t, nilOf(t.typ)).key)
	st.bind(t, p)
	return p
}

// deref resolves a pointer value; nil result: nil dereference
func (x *X) deref(st *State, v Val) *Ptr {
	switch p := v.(type) {
	case *Ptr:
		return p
	case *Term:
		if _, ok := under(p.typ).(*types.Pointer); ok {
			return x.matPtr(st, p)
		}
	case *Const:
		return nil
	}
	panic(abort{fmt.Sprintf("deref %T %s", v, K(v))})
}

func isSliceT(v Val) (*Term, bool) {
	t, ok := v.(*Term)
	if !ok {
		return nil, false
	}
	_, ok = under(t.typ).(*types.Slice)
	return t, ok && t.op != "list"
}

// branch forks the frame on a boolean value; k runs on each side
func (x *X) branch(f *frame, c Val, k func(f *frame, v bool)) []*frame {
	if known, v := f.st.decide(c); known {
		k(f, v)
		return []*frame{f}
	}
	var r []*frame
	for _, v := range []bool{true, false} {
		n := f.clone(f.st.clone())
		if n.st.assume(c, v) {
			k(n, v)
			r = append(r, n)
		}
	}
	return r
}

// step executes one instruction. forked: the frame must not be continued by the caller.
func (x *X) step(f *frame, in ssa.Instruction) (succ []*frame, outs []Outcome, forked bool) {
	st := f.st
	next := func() { f.idx++ }
	fork := func(fs []*frame) ([]*frame, []Outcome, bool) { return fs, nil, true }
	pan := func(msg string) ([]*frame, []Outcome, bool) {
		x.panicAt(f, rtPanic(msg))
		return nil, nil, false
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		next()
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		x.set(f, i, st.newCell(zero(et), i.Comment))
		next()
	case *ssa.Phi:
		next()
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			p := x.deref(st, x.get(f, i.X))
			if p == nil {
				return pan("nil pointer dereference")
			}
			if x.onLoad != nil {
				x.onLoad(st, p, i.Pos())
			}
			v := st.load(p)
			if v == nil {
				return pan("index out of range")
			}
			x.set(f, i, st.norm(v))
		case token.NOT:
			x.set(f, i, not(x.get(f, i.X)))
		case token.SUB:
			v := x.get(f, i.X)
			if c, ok := v.(*Const); ok {
				x.set(f, i, &Const{constant.UnaryOp(token.SUB, c.c, 0), i.Type()})
			} else {
				x.set(f, i, T("neg", i.Type(), v))
			}
		default:
			x.set(f, i, st.fresh(i.Op.String(), i.Type()))
		}
		next()
	case *ssa.BinOp:
		a, b := x.get(f, i.X), x.get(f, i.Y)
		if i.Op == token.QUO || i.Op == token.REM {
			if n, ok := constInt(b); ok && n == 0 {
				return pan("integer divide by zero")
			}
		}
		if t, ok := isSliceT(a); ok && (i.Op == token.EQL || i.Op == token.NEQ) {
			return fork(x.forkSlice(f, t))
		}
		x.set(f, i, x.binop(st, i.Op, a, b, i.Type()))
		next()
	case *ssa.FieldAddr:
		p := x.deref(st, x.get(f, i.X))
		if p == nil {
			return pan("nil pointer dereference")
		}
		x.set(f, i, &Ptr{p.obj, append(append([]int(nil), p.path...), i.Field)})
		next()
	case *ssa.Field:
		x.set(f, i, st.norm(getPath(x.get(f, i.X), []int{i.Field})))
		next()
	case *ssa.IndexAddr:
		xv, iv := x.get(f, i.X), x.get(f, i.Index)
		if t, ok := isSliceT(xv); ok {
			return fork(x.forkSlice(f, t))
		}
		var base *Ptr
		off, n := 0, 0
		switch s := xv.(type) {
		case *Slice:
			if s.isNil {
				return pan("index out of range")
			}
			base, off, n = &Ptr{s.obj, s.path}, s.off, s.len
		default:
			base = x.deref(st, xv)
			if base == nil {
				return pan("nil pointer dereference")
			}
			n = int(under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		}
		if k, ok := constInt(iv); ok {
			if k < 0 || k >= n {
				return pan(fmt.Sprintf("index out of range [%d] with length %d", k, n))
			}
			x.set(f, i, &Ptr{base.obj, append(append([]int(nil), base.path...), off+k)})
			next()
			break
		}
		return fork(x.forkIndex(f, iv, n))
	case *ssa.Index:
		xv, iv := x.get(f, i.X), x.get(f, i.Index)
		if isStringish(xv) {
			return x.strIndex(f, i, xv, iv)
		}
		k, ok := constInt(iv)
		if !ok {
			n := 0
			if a, ok := expand(xv, nil).(*Array); ok {
				n = len(a.elems)
			}
			return fork(x.forkIndex(f, iv, n))
		}
		v := getPath(xv, []int{k})
		if v == nil {
			return pan("index out of range")
		}
		x.set(f, i, st.norm(v))
		next()
	case *ssa.Lookup:
		xv, kv := x.get(f, i.X), x.get(f, i.Index)
		if isStringish(xv) {
			return x.strIndex(f, i, xv, kv)
		}
		m := x.asMap(st, xv)
		vt := under(i.X.Type()).(*types.Map).Elem()
		if x.onMap != nil && m.obj >= 0 {
			x.onMap(st, m, false, i.Pos())
		}
		for _, r := range x.mapLookup(st, m, st.snap(kv)) {
			n := f.clone(r.st)
			v := r.v
			if !r.ok {
				v = zero(vt)
			}
			if i.CommaOk {
				x.set(n, i, Tuple{v, boolean(r.ok)})
			} else {
				x.set(n, i, v)
			}
			n.idx++
			succ = append(succ, n)
		}
		return succ, nil, true
	case *ssa.MapUpdate:
		m := x.asMap(st, x.get(f, i.Map))
		k, v := x.get(f, i.Key), x.get(f, i.Value)
		if m.obj < 0 {
			return pan("assignment to entry in nil map")
		}
		for _, s := range x.mapStore(st, m, st.snap(k), v, i.Pos()) {
			n := f.clone(s)
			n.idx++
			succ = append(succ, n)
		}
		return succ, nil, true
	case *ssa.MakeMap:
		x.set(f, i, st.newMap(i.Type(), "map"))
		next()
	case *ssa.MakeSlice:
		lv := x.get(f, i.Len)
		n, ok := constInt(lv)
		if !ok {
			x.set(f, i, st.fresh("makeslice", i.Type()))
			next()
			break
		}
		c, ok := constInt(x.get(f, i.Cap))
		if !ok || c < n {
			c = n
		}
		if c > 64 {
			c = n
		}
		if n > 256 {
			x.set(f, i, st.fresh("makeslice", i.Type()))
			next()
			break
		}
		et := under(i.Type()).(*types.Slice).Elem()
		es := make([]Val, c)
		for k := range es {
			es[k] = zero(et)
		}
		s := st.newSlice(i.Type(), es)
		s.len = n
		x.set(f, i, s)
		next()
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.get(f, b))
		}
		x.set(f, i, &Func{i.Fn.(*ssa.Function), bs})
		next()
	case *ssa.MakeInterface:
		v := x.get(f, i.X)
		x.set(f, i, &Iface{i.X.Type(), v})
		next()
	case *ssa.ChangeInterface:
		x.set(f, i, x.get(f, i.X))
		next()
	case *ssa.ChangeType:
		v := x.get(f, i.X)
		switch s := v.(type) {
		case *Slice:
			c := *s
			c.typ = i.Type()
			v = &c
		case *MapRef:
			v = &MapRef{i.Type(), s.obj}
		case *Const:
			v = &Const{s.c, i.Type()}
		}
		x.set(f, i, v)
		next()
	case *ssa.Convert:
		x.set(f, i, x.convert(st, x.get(f, i.X), i.Type()))
		next()
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		x.set(f, in.(ssa.Value), st.fresh("conv", in.(ssa.Value).Type()))
		next()
	case *ssa.Extract:
		t := x.get(f, i.Tuple)
		if tp, ok := t.(Tuple); ok {
			x.set(f, i, st.norm(tp[i.Index]))
		} else {
			x.set(f, i, T(fmt.Sprintf("#%d", i.Index), i.Type(), t))
		}
		next()
	case *ssa.TypeAssert:
		return x.typeAssert(f, i)
	case *ssa.Slice:
		return x.slice(f, i)
	case *ssa.Store:
		p := x.deref(st, x.get(f, i.Addr))
		if p == nil {
			return pan("nil pointer dereference")
		}
		v := x.get(f, i.Val)
		if x.onStore != nil {
			x.onStore(st, p, st.load(p), v, i.Pos())
		}
		st.store(p, v)
		next()
	case *ssa.Range:
		v := x.get(f, i.X)
		if isStringish(v) {
			x.set(f, i, &Iter{st.alloc(&Obj{iterStr: v, iterMap: -1})})
			next()
			break
		}
		m := x.asMap(st, v)
		o := &Obj{iterMap: m.obj}
		if m.obj >= 0 {
			if x.onMap != nil {
				x.onMap(st, m, false, i.Pos())
			}
			for _, e := range st.heap[m.obj].entries {
				if e.present {
					o.iterKeys = append(o.iterKeys, e.k)
				}
			}
		}
		perms := [][]Val{o.iterKeys}
		if x.permute && len(o.iterKeys) > 1 && len(o.iterKeys) <= 3 {
			perms = permutations(o.iterKeys)
		}
		for _, p := range perms {
			n := f
			if len(perms) > 1 {
				n = f.clone(st.clone())
			}
			oo := *o
			oo.iterKeys = p
			x.set(n, i, &Iter{n.st.alloc(&oo)})
			n.idx++
			succ = append(succ, n)
		}
		return succ, nil, true
	case *ssa.Next:
		return x.next(f, i)
	case *ssa.If:
		c := x.get(f, i.Cond)
		known, v := st.decide(c)
		if known {
			x.jump(f, map[bool]int{true: 0, false: 1}[v])
			break
		}
		f.forks[i]++
		if f.forks[i] > x.loopForks+1 {
			return nil, []Outcome{x.cut(st, "loop bound in "+f.fn.String())}, true
		}
		return fork(x.branch(f, c, func(n *frame, v bool) { x.jump(n, map[bool]int{true: 0, false: 1}[v]) }))
	case *ssa.Jump:
		x.jump(f, 0)
	case *ssa.Return:
		var rs []Val
		for _, r := range i.Results {
			rs = append(rs, x.get(f, r))
		}
		return nil, []Outcome{{st: st, kind: oRet, rets: rs, pos: i.Pos()}}, true
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			s, o := x.popDefer(f)
			return s, o, true
		}
		next()
	case *ssa.Panic:
		x.panicAt(f, x.get(f, i.X))
	case *ssa.Defer:
		d := deferred{site: i}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.get(f, a))
		}
		if i.Call.IsInvoke() {
			d.inv, d.recv = i.Call.Method, x.get(f, i.Call.Value)
		} else {
			d.fn = x.get(f, i.Call.Value)
		}
		f.defers = append(f.defers, d)
		next()
	case *ssa.Go:
		st.event(&Event{kind: "go", name: i.Call.String(), pos: i.Pos(), fn: f.fn.String()})
		return x.doCall(f, i, &i.Call)
	case *ssa.Call:
		return x.doCall(f, i, &i.Call)
	case *ssa.Send:
		next()
	default:
		if v, ok := in.(ssa.Value); ok {
			x.opaque[fmt.Sprintf("instr %T", in)]++
			x.set(f, v, st.fresh("instr", v.Type()))
		}
		next()
	}
	return nil, nil, false
}

func permutations(ks []Val) [][]Val {
	if len(ks) <= 1 {
		return [][]Val{ks}
	}
	var r [][]Val
	for i := range ks {
		rest := append(append([]Val(nil), ks[:i]...), ks[i+1:]...)
		for _, p := range permutations(rest) {
			r = append(r, append([]Val{ks[i]}, p...))
		}
	}
	return r
}

func (x *X) jump(f *frame, k int) {
	f.prev, f.block, f.idx = f.block, f.block.Succs[k], 0
}

func (x *X) forkIndex(f *frame, iv Val, n int) []*frame {
	var r []*frame
	rest := f.st.clone()
	ok := true
	for k := 0; k < n; k++ {
		at := T("eq", tBool, iv, num(k))
		s := rest.clone()
		if s.assume(at, true) {
			r = append(r, f.clone(s))
		}
		if !rest.assume(at, false) {
			ok = false
			break
		}
	}
	if ok {
		// out of range
		g := f.clone(rest)
		lo := T("lt", tBool, iv, num(0))
		hi := T("lt", tBool, iv, num(n))
		k1, v1 := rest.decide(lo)
		k2, v2 := rest.decide(hi)
		inRange := k1 && !v1 && k2 && v2
		if !inRange {
			x.panicAt(g, rtPanic("index out of range"))
			r = append(r, g)
		}
	}
	return r
}

func (x *X) strIndex(f *frame, v ssa.Value, s, i Val) ([]*frame, []Outcome, bool) {
	st := f.st
	if cs, ok := constStr(s); ok {
		if k, ok := constInt(i); ok {
			if k < 0 || k >= len(cs) {
				x.panicAt(f, rtPanic("index out of range"))
				return nil, nil, false
			}
			x.set(f, v, &Const{constant.MakeInt64(int64(cs[k])), tByte})
			f.idx++
			return nil, nil, false
		}
	}
	if bs, ok := strBytes(s); ok {
		k, ok := constInt(i)
		if !ok {
			return x.forkIndex(f, i, len(bs)), nil, true
		}
		if k < 0 || k >= len(bs) {
			x.panicAt(f, rtPanic("index out of range"))
			return nil, nil, false
		}
		x.set(f, v, bs[k])
		f.idx++
		return nil, nil, false
	}
	if k, ok := constInt(i); ok {
		if ps := catParts(s); len(ps) > 0 {
			if cs, ok := constStr(ps[0]); ok && k < len(cs) {
				x.set(f, v, &Const{constant.MakeInt64(int64(cs[k])), tByte})
				f.idx++
				return nil, nil, false
			}
		}
		if k == 0 {
			var r []*frame
			for _, n := range x.branch(f, T("eq", tBool, s, str("")), func(n *frame, empty bool) {
				if empty {
					x.panicAt(n, rtPanic("index out of range (empty string)"))
				} else {
					x.set(n, v, T("byteat", tByte, n.st.norm(s), i))
					n.idx++
				}
			}) {
				r = append(r, n)
			}
			return r, nil, true
		}
	}
	// other positions: guarded by a length test or not
	if x.bounds {
		inb := T("lt", tBool, i, lenTerm(s))
		if k, ok := i.(*Term); ok && k.op == "sub" { // len(s)-1
			if l, ok := k.args[0].(*Term); ok && l.op == "len" && K(l.args[0]) == K(s) {
				inb = not(T("eq", tBool, s, str(""))).(*Term)
			}
		}
		return x.branch(f, inb, func(n *frame, ok bool) {
			if !ok {
				x.panicAt(n, rtPanic("index out of range"))
			} else {
				x.set(n, v, T("byteat", tByte, n.st.norm(s), i))
				n.idx++
			}
		}), nil, true
	}
	x.set(f, v, T("byteat", tByte, st.norm(s), i))
	f.idx++
	return nil, nil, false
}

func (x *X) binop(st *State, op token.Token, a, b Val, t types.Type) Val {
	switch op {
	case token.EQL, token.NEQ:
		r := x.eqVal(st, a, b)
		if op == token.NEQ {
			return not(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			a, b = b, a
		}
		neg := op == token.LEQ || op == token.GEQ
		var r Val
		ca, ok1 := a.(*Const)
		cb, ok2 := b.(*Const)
		if ok1 && ok2 && ca.c != nil && cb.c != nil {
			r = boolean(constant.Compare(ca.c, token.LSS, cb.c))
		} else if isStringish(a) {
			r = T("slt", tBool, a, b)
		} else {
			tm := T("lt", tBool, a, b)
			if k, v := st.decide(tm); k {
				r = boolean(v)
			} else {
				r = tm
			}
		}
		if neg {
			return not(r)
		}
		return r
	}
	ca, ok1 := a.(*Const)
	cb, ok2 := b.(*Const)
	if op == token.ADD && (isStringish(a) || isStringish(b)) {
		return cat(a, b)
	}
	if ok1 && ok2 && ca.c != nil && cb.c != nil && (ca.c.Kind() == constant.Int || ca.c.Kind() == constant.Float) {
		o := op
		if o == token.QUO && ca.c.Kind() == constant.Int {
			o = token.QUO_ASSIGN
		}
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(cb.c); ok && n < 64 {
				return &Const{constant.Shift(ca.c, op, uint(n)), t}
			}
		default:
			return &Const{constant.BinaryOp(ca.c, o, cb.c), t}
		}
	}
	if ok1 && ok2 && ca.c != nil && ca.c.Kind() == constant.Bool {
		return &Const{constant.BinaryOp(ca.c, map[token.Token]token.Token{token.AND: token.LAND, token.OR: token.LOR}[op], cb.c), t}
	}
	name := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul"}[op]
	if name == "" {
		name = "op" + op.String()
	}
	if n, ok := constInt(b); ok && n == 0 && (op == token.ADD || op == token.SUB) {
		return a
	}
	return T(name, t, a, b)
}

func isBoolish(v Val) bool {
	t := typeOf(v)
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *X) eqVal(st *State, a, b Val) Val {
	if isBoolish(a) && isBoolish(b) {
		if v, ok := constBool(b); ok {
			if v {
				return a
			}
			return not(a)
		}
		if v, ok := constBool(a); ok {
			if v {
				return b
			}
			return not(b)
		}
		if K(a) == K(b) {
			return boolean(true)
		}
		return T("booleq", tBool, a, b)
	}
	switch c := st.eq(a, b); c.tri {
	case yes:
		return boolean(true)
	case no:
		return boolean(false)
	default:
		if len(c.atoms) == 1 {
			return c.atoms[0]
		}
		return T("and", tBool, c.atoms...)
	}
}

func (x *X) convert(st *State, v Val, t types.Type) Val {
	if c, ok := v.(*Const); ok && c.c != nil {
		b, _ := under(t).(*types.Basic)
		if b != nil {
			switch {
			case b.Info()&types.IsString != 0:
				if c.c.Kind() == constant.String {
					return &Const{c.c, t}
				}
				if n, ok := constInt(v); ok {
					return &Const{constant.MakeString(string(rune(n))), t}
				}
			case b.Info()&types.IsInteger != 0:
				return &Const{constant.ToInt(c.c), t}
			case b.Info()&types.IsFloat != 0:
				return &Const{constant.ToFloat(c.c), t}
			}
		}
	}
	if isStringish(v) {
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return v
		}
		if sl, ok := under(t).(*types.Slice); ok {
			if !isByteT(sl.Elem()) {
				return T("runes", t, v)
			}
			if bs, ok := strBytes(v); ok && hasChr(catParts(v)) {
				return st.newSlice(t, bs)
			}
			return T("bytes", t, v)
		}
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if k, ok := v.(*Const); ok && k.c == nil {
			return str("") // no bytes
		}
		if s, ok := v.(*Slice); ok && s.len == 0 {
			return str("")
		}
		if tm, ok := v.(*Term); ok && isChrByte(tm) {
			return chr(tm)
		}
		if s, ok := v.(*Slice); ok && s.len > 0 {
			es := st.sliceElems(s)
			all := isByteT(under(s.typ).(*types.Slice).Elem())
			for _, e := range es {
				_, ok := constInt(e)
				tm, ok2 := e.(*Term)
				all = all && (ok || ok2 && isChrByte(tm))
			}
			if all {
				return ofBytes(es)
			}
		}
	}
	if tm, ok := v.(*Term); ok {
		if tm.op == "bytes" || tm.op == "runes" {
			return tm.args[0]
		}
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if tb, ok := under(tm.typ).(*types.Basic); ok && tb.Info()&types.IsInteger != 0 {
				return v
			}
		}
		return T("conv:"+types.TypeString(t, nil), t, v)
	}
	if s, ok := v.(*Slice); ok {
		return T("conv:"+types.TypeString(t, nil), t, st.snap(s))
	}
	return v
}

// ---------- maps ----------

type lookupRes struct {
	st *State
	v  Val
	ok bool
}

func (x *X) asMap(st *State, v Val) *MapRef {
	switch m := v.(type) {
	case *MapRef:
		return m
	case *Term:
		if m.op == "havoc" || true {
			return x.matMap(st, m)
		}
	case *Const:
		return &MapRef{m.typ, -1}
	}
	panic(abort{"asMap " + K(v)})
}

// mapFind decides which entry of the map has the key; index -1: none
func (x *X) mapFind(st *State, m *MapRef, k Val) []struct {
	st *State
	i  int
} {
	type res = struct {
		st *State
		i  int
	}
	var out []res
	if m.obj < 0 {
		return []res{{st, -1}}
	}
	cur := st
	for i := 0; i < len(cur.heap[m.obj].entries); i++ {
		e := cur.heap[m.obj].entries[i]
		c := cur.eq(e.k, k)
		if c.tri == yes {
			return append(out, res{cur, i})
		}
		if c.tri == no {
			continue
		}
		cond := T("and", tBool, c.atoms...)
		if kn, v := cur.decide(cond); kn {
			if v {
				return append(out, res{cur, i})
			}
			continue
		}
		pos := cur.clone()
		if pos.assume(cond, true) {
			out = append(out, res{pos, i})
		}
		cur = cur.clone()
		if !x.assumeNot(cur, c.atoms) {
			return out
		}
	}
	return append(out, res{cur, -1})
}

func (x *X) assumeNot(st *State, atoms []Val) bool {
	if len(atoms) == 1 {
		return st.assume(atoms[0], false)
	}
	st.neq = append(st.neq, atoms)
	return true
}

func (x *X) mapLookup(st *State, m *MapRef, k Val) []lookupRes {
	var out []lookupRes
	for _, r := range x.mapFind(st, m, k) {
		if r.i >= 0 {
			e := r.st.heap[m.obj].entries[r.i]
			out = append(out, lookupRes{r.st, r.st.norm(e.v), e.present})
			continue
		}
		if m.obj >= 0 && r.st.heap[m.obj].unknown {
			vt := under(m.typ).(*types.Map).Elem()
			p := r.st.clone()
			v := T("mapval", vt, T("m"+fmt.Sprint(m.obj), tInt), k)
			x.addEntry(p, m, entry{k, v, true})
			out = append(out, lookupRes{p, v, true})
			a := r.st.clone()
			x.addEntry(a, m, entry{k, nil, false})
			out = append(out, lookupRes{a, nil, false})
			continue
		}
		out = append(out, lookupRes{r.st, nil, false})
	}
	return out
}

func (x *X) addEntry(st *State, m *MapRef, e entry) {
	o := *st.heap[m.obj]
	o.entries = append(append([]entry(nil), o.entries...), e)
	st.heap[m.obj] = &o
}

func (x *X) mapStore(st *State, m *MapRef, k, v Val, pos token.Pos) []*State {
	var out []*State
	for _, r := range x.mapFind(st, m, k) {
		s := r.st
		if len(out) > 0 || s == st {
			s = r.st.clone()
		}
		if x.onMap != nil {
			x.onMap(s, m, true, pos)
		}
		s.event(&Event{kind: "mapstore", args: []Val{m, k, v}, pos: pos})
		if r.i >= 0 {
			o := *s.heap[m.obj]
			o.entries = append([]entry(nil), o.entries...)
			e := o.entries[r.i]
			if !e.present { // re-inserted at the end
				o.entries = append(o.entries[:r.i], o.entries[r.i+1:]...)
				o.entries = append(o.entries, entry{k, v, true})
			} else {
				o.entries[r.i] = entry{e.k, v, true}
			}
			s.heap[m.obj] = &o
		} else {
			x.addEntry(s, m, entry{k, v, true})
		}
		out = append(out, s)
	}
	return out
}

func (x *X) mapDelete(st *State, m *MapRef, k Val, pos token.Pos) []*State {
	if m.obj < 0 {
		return []*State{st}
	}
	var out []*State
	for _, r := range x.mapFind(st, m, k) {
		s := r.st.clone()
		if x.onMap != nil {
			x.onMap(s, m, true, pos)
		}
		s.event(&Event{kind: "mapdelete", args: []Val{m, k}, pos: pos})
		o := *s.heap[m.obj]
		if r.i >= 0 {
			o.entries = append([]entry(nil), o.entries...)
			if o.unknown {
				o.entries[r.i] = entry{o.entries[r.i].k, nil, false}
			} else {
				o.entries = append(o.entries[:r.i], o.entries[r.i+1:]...)
			}
			s.heap[m.obj] = &o
		} else if o.unknown {
			x.addEntry(s, m, entry{k, nil, false})
		}
		out = append(out, s)
	}
	return out
}

func (x *X) next(f *frame, i *ssa.Next) ([]*frame, []Outcome, bool) {
	st := f.st
	it := x.get(f, i.Iter).(*Iter)
	o := *st.heap[it.obj]
	tt := i.Type().(*types.Tuple)
	if o.iterStr != nil {
		s, ok := constStr(st.norm(o.iterStr))
		if bs, ok := strBytes(st.norm(o.iterStr)); ok && hasChr(catParts(st.norm(o.iterStr))) {
			if o.iterPos >= len(bs) {
				x.set(f, i, Tuple{boolean(false), num(0), num(0)})
			} else {
				x.set(f, i, Tuple{boolean(true), num(o.iterPos), bs[o.iterPos]})
				o.iterPos++
				st.heap[it.obj] = &o
			}
			f.idx++
			return nil, nil, false
		}
		if !ok {
			// opaque string: 0..2 opaque runes
			if o.fresh >= x.sliceMax {
				x.set(f, i, Tuple{boolean(false), num(0), num(0)})
				f.idx++
				return nil, nil, false
			}
			n := f.clone(st.clone())
			x.set(n, i, Tuple{boolean(false), num(0), num(0)})
			n.idx++
			g := f.clone(st.clone())
			o.fresh++
			g.st.heap[it.obj] = &o
			x.set(g, i, Tuple{boolean(true), num(o.fresh - 1), g.st.fresh("rune", types.Typ[types.Int32])})
			g.idx++
			return []*frame{n, g}, nil, true
		}
		if o.iterPos >= len(s) {
			x.set(f, i, Tuple{boolean(false), num(0), num(0)})
		} else {
			r, w := utf8.DecodeRuneInString(s[o.iterPos:])
			x.set(f, i, Tuple{boolean(true), num(o.iterPos), &Const{constant.MakeInt64(int64(r)), types.Typ[types.Int32]}})
			o.iterPos += w
			st.heap[it.obj] = &o
		}
		f.idx++
		return nil, nil, false
	}
	zeroT := func() Tuple {
		t := Tuple{boolean(false), nil, nil}
		for k := 1; k <= 2; k++ {
			if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				t[k] = num(0)
			} else {
				t[k] = zero(tt.At(k).Type())
			}
		}
		return t
	}
	for o.iterPos < len(o.iterKeys) {
		k := o.iterKeys[o.iterPos]
		o.iterPos++
		for _, e := range st.heap[o.iterMap].entries {
			if e.present && (K(e.k) == K(k) || K(st.norm(e.k)) == K(st.norm(k))) {
				oo := o
				st.heap[it.obj] = &oo
				x.set(f, i, Tuple{boolean(true), st.norm(e.k), st.norm(e.v)})
				f.idx++
				return nil, nil, false
			}
		}
	}
	st.heap[it.obj] = &o
	if o.iterMap >= 0 && st.heap[o.iterMap].unknown && o.fresh < x.sliceMax {
		done := f.clone(st.clone())
		oo := o
		oo.fresh = 99
		done.st.heap[it.obj] = &oo
		x.set(done, i, zeroT())
		done.idx++
		more := f.clone(st.clone())
		o2 := o
		o2.fresh++
		more.st.heap[it.obj] = &o2
		mt := under(st.heap[o.iterMap].mt).(*types.Map)
		k := more.st.fresh("key", mt.Key())
		v := T("mapval", mt.Elem(), T("m"+fmt.Sprint(o.iterMap), tInt), k)
		// the key differs from all known keys
		okk := true
		for _, e := range more.st.heap[o.iterMap].entries {
			c := more.st.eq(e.k, k)
			if c.tri == dep && !x.assumeNot(more.st, c.atoms) {
				okk = false
			}
		}
		x.addEntry(more.st, &MapRef{mt, o.iterMap}, entry{k, v, true})
		x.set(more, i, Tuple{boolean(true), k, v})
		more.idx++
		if okk {
			return []*frame{done, more}, nil, true
		}
		return []*frame{done}, nil, true
	}
	x.set(f, i, zeroT())
	f.idx++
	return nil, nil, false
}

// ---------- slices ----------

func (x *X) slice(f *frame, i *ssa.Slice) ([]*frame, []Outcome, bool) {
	st := f.st
	v := x.get(f, i.X)
	var lo, hi Val
	if i.Low != nil {
		lo = x.get(f, i.Low)
	}
	if i.High != nil {
		hi = x.get(f, i.High)
	}
	pan := func(msg string) ([]*frame, []Outcome, bool) {
		x.panicAt(f, rtPanic(msg))
		return nil, nil, false
	}
	if isStringish(v) {
		if s, ok := constStr(v); ok {
			l, h := 0, len(s)
			ok1, ok2 := true, true
			if lo != nil {
				l, ok1 = constInt(lo)
			}
			if hi != nil {
				h, ok2 = constInt(hi)
			}
			if ok1 && ok2 {
				if l < 0 || h > len(s) || l > h {
					return pan("slice bounds out of range")
				}
				x.set(f, i, str(s[l:h]))
				f.idx++
				return nil, nil, false
			}
		}
		if bs, ok := strBytes(v); ok {
			l, h := 0, len(bs)
			ok1, ok2 := true, true
			if lo != nil {
				l, ok1 = constInt(lo)
			}
			if hi != nil {
				h, ok2 = constInt(hi)
			}
			if ok1 && ok2 {
				if l < 0 || h > len(bs) || l > h {
					return pan("slice bounds out of range")
				}
				x.set(f, i, ofBytes(bs[l:h]))
				f.idx++
				return nil, nil, false
			}
		}
		if lo == nil && hi == nil {
			x.set(f, i, v)
			f.idx++
			return nil, nil, false
		}
		// v[len(p):] with v = p+rest
		if hi == nil && lo != nil {
			if r, ok := x.dropPrefix(st, v, lo); ok {
				x.set(f, i, r)
				f.idx++
				return nil, nil, false
			}
		}
		l, h := Val(num(0)), Val(lenTerm(v))
		if lo != nil {
			l = lo
		}
		if hi != nil {
			h = hi
		}
		res := T("substr", tString, v, l, h)
		if x.bounds && !x.safeSub(st, v, lo, hi) {
			return x.branch(f, T("inbounds", tBool, v, l, h), func(n *frame, ok bool) {
				if !ok {
					x.panicAt(n, rtPanic("slice bounds out of range"))
				} else {
					x.set(n, i, res)
					n.idx++
				}
			}), nil, true
		}
		x.set(f, i, res)
		f.idx++
		return nil, nil, false
	}
	if t, ok := isSliceT(v); ok {
		return x.forkSlice(f, t), nil, true
	}
	var s *Slice
	switch a := v.(type) {
	case *Slice:
		s = a
	case *Const:
		s = &Slice{typ: i.Type(), isNil: true, obj: -1}
	default:
		p := x.deref(st, v)
		if p == nil {
			return pan("nil pointer dereference")
		}
		n := int(under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		s = &Slice{typ: i.Type(), obj: p.obj, path: p.path, len: n, cap: n}
	}
	l, h := 0, s.len
	ok1, ok2 := true, true
	if lo != nil {
		l, ok1 = constInt(lo)
	}
	if hi != nil {
		h, ok2 = constInt(hi)
	}
	if !ok1 {
		return x.forkIndex2(f, lo, s.cap), nil, true
	}
	if !ok2 {
		return x.forkIndex2(f, hi, s.cap), nil, true
	}
	if l < 0 || h < l || h > s.cap {
		return pan(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, s.cap))
	}
	c := s.cap - l
	if i.Max != nil {
		if m, ok := constInt(x.get(f, i.Max)); ok {
			if m > s.cap || m < h {
				return pan("slice bounds out of range")
			}
			c = m - l
		}
	}
	if s.isNil {
		x.set(f, i, s)
	} else {
		x.set(f, i, &Slice{typ: i.Type(), obj: s.obj, path: s.path, off: s.off + l, len: h - l, cap: c})
	}
	f.idx++
	return nil, nil, false
}

// forkIndex2 decides a slice bound in 0..n (inclusive)
func (x *X) forkIndex2(f *frame, iv Val, n int) []*frame {
	return x.forkIndex(f, iv, n+1)
}

// dropPrefix computes v[len(p):] if v starts with p
func (x *X) dropPrefix(st *State, v, lo Val) (Val, bool) {
	ps := catParts(v)
	if n, ok := constInt(lo); ok {
		if len(ps) > 0 {
			if c, ok := constStr(ps[0]); ok && n <= len(c) {
				return cat(append([]Val{str(c[n:])}, ps[1:]...)...), true
			}
		}
		return nil, false
	}
	if t, ok := lo.(*Term); ok && t.op == "len" && len(ps) > 0 && K(ps[0]) == K(t.args[0]) {
		return cat(ps[1:]...), true
	}
	return nil, false
}

func (x *X) safeSub(st *State, v, lo, hi Val) bool {
	ok := func(b Val) bool {
		if b == nil {
			return true
		}
		if n, k := constInt(b); k {
			if n == 0 {
				return true
			}
			if n == 1 {
				kn, e := st.decide(T("eq", tBool, v, str("")))
				return kn && !e
			}
			for _, f := range st.facts {
				if f.v && f.t.(*Term).op == "hasprefix" && K(f.t.(*Term).args[0]) == K(v) {
					if p, ok := constStr(f.t.(*Term).args[1]); ok && len(p) >= n {
						return true
					}
				}
			}
			return false
		}
		t, k := b.(*Term)
		if !k {
			return false
		}
		switch t.op {
		case "len":
			if K(t.args[0]) == K(v) {
				return true
			}
			for _, o := range []string{"hasprefix", "hassuffix"} {
				if kn, val := st.decide(T(o, tBool, v, t.args[0])); kn && val {
					return true
				}
			}
		case "index": // strings.Index(v, sep) >= 0
			if K(t.args[0]) == K(v) {
				if kn, val := st.decide(T("eq", tBool, t, num(-1))); kn && !val {
					return true
				}
				if kn, val := st.decide(T("lt", tBool, t, num(0))); kn && !val {
					return true
				}
				if kn, val := st.decide(T("eq", tBool, num(-1), t)); kn && !val {
					return true
				}
			}
		case "add": // index + len(sep)
			if a, ok := t.args[0].(*Term); ok && a.op == "index" && K(a.args[0]) == K(v) {
				if l, ok := t.args[1].(*Term); ok && l.op == "len" && K(l.args[0]) == K(a.args[1]) {
					return true
				}
				if n, ok := constInt(t.args[1]); ok {
					if s, ok := constStr(a.args[1]); ok && n <= len(s) {
						return true
					}
				}
			}
		case "sub":
			if l, ok := t.args[0].(*Term); ok && l.op == "len" && K(l.args[0]) == K(v) {
				if n, ok := constInt(t.args[1]); ok && n == 1 {
					kn, e := st.decide(T("eq", tBool, v, str("")))
					return kn && !e
				}
			}
		}
		return false
	}
	return ok(lo) && ok(hi)
}

func (x *X) appendVals(st *State, s *Slice, add []Val, t types.Type) *Slice {
	if len(add) == 0 {
		if s.isNil {
			return s
		}
		return s
	}
	if !s.isNil && s.len+len(add) <= s.cap {
		for k, v := range add {
			st.store(&Ptr{s.obj, append(append([]int(nil), s.path...), s.off+s.len+k)}, v)
		}
		return &Slice{typ: t, obj: s.obj, path: s.path, off: s.off, len: s.len + len(add), cap: s.cap}
	}
	n := s.len + len(add)
	c := 2 * s.cap
	if c < n {
		c = n
	}
	var es []Val
	for k := 0; k < s.len; k++ {
		es = append(es, st.sliceGet(s, k))
	}
	es = append(es, add...)
	et := under(t).(*types.Slice).Elem()
	for len(es) < c {
		es = append(es, zero(et))
	}
	r := st.newSlice(t, es)
	r.len = n
	return r
}

// ---------- type assertions ----------

func (x *X) typeAssert(f *frame, i *ssa.TypeAssert) ([]*frame, []Outcome, bool) {
	st := f.st
	v := x.get(f, i.X)
	_, toIface := under(i.AssertedType).(*types.Interface)
	done := func(n *frame, ok bool, r Val) {
		if i.CommaOk {
			if !ok {
				r = zero(i.AssertedType)
			}
			x.set(n, i, Tuple{r, boolean(ok)})
			n.idx++
			return
		}
		if !ok {
			x.panicAt(n, rtPanic("interface conversion: "+n.st.show(v)+" is not "+types.TypeString(i.AssertedType, nil)))
			return
		}
		x.set(n, i, r)
		n.idx++
	}
	switch d := v.(type) {
	case *Const: // nil
		done(f, false, nil)
		return nil, nil, false
	case *Iface:
		if toIface {
			done(f, types.Implements(d.typ, under(i.AssertedType).(*types.Interface)), d)
		} else {
			done(f, types.Identical(d.typ, i.AssertedType), d.val)
		}
		return nil, nil, false
	case *Term:
		// static knowledge
		if toIface {
			if types.AssignableTo(d.typ, i.AssertedType) {
				return x.branch(f, T("eq", tBool, d, nilOf(d.typ)), func(n *frame, isnil bool) { done(n, !isnil, d) }), nil, true
			}
			c := T("is:"+types.TypeString(i.AssertedType, nil), tBool, d)
			return x.branch(f, c, func(n *frame, ok bool) { done(n, ok, d) }), nil, true
		}
		c := T("is:"+types.TypeString(i.AssertedType, nil), tBool, d)
		if kn, val := st.decide(c); kn && !val {
			done(f, false, nil)
			return nil, nil, false
		}
		nv := st.norm(T("as:"+types.TypeString(i.AssertedType, nil), i.AssertedType, d))
		p := f.clone(st.clone())
		var r []*frame
		delete(p.st.facts, atom(d, nilOf(d.typ)).key)
		nilKnown, isNil := st.decide(T("eq", tBool, d, nilOf(d.typ)))
		if !(nilKnown && isNil) && p.st.bind(d, &Iface{i.AssertedType, nv}) {
			done(p, true, nv)
			r = append(r, p)
		}
		q := f.clone(st.clone())
		if q.st.assume(c, false) {
			done(q, false, nil)
			r = append(r, q)
		}
		return r, nil, true
	}
	panic(abort{"typeassert " + K(v)})
}

// ---------- calls ----------

func (x *X) doCall(f *frame, in ssa.Instruction, c *ssa.CallCommon) ([]*frame, []Outcome, bool) {
	st := f.st
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.get(f, a))
	}
	var res []Outcome
	if c.IsInvoke() {
		recv := x.get(f, c.Value)
		res = x.invoke(st, recv, c.Method, args, in)
	} else {
		fv := x.get(f, c.Value)
		if b, ok := fv.(*BuiltinV); ok {
			for _, a := range args {
				if t, ok := isSliceT(a); ok && t.op != "bytes" {
					return x.forkSlice(f, t), nil, true
				}
			}
			return x.builtin(f, in, b.b.Name(), args, c)
		}
		res = x.call(st, fv, args, in)
	}
	return x.resume(f, in, res)
}

func (x *X) resume(f *frame, in ssa.Instruction, res []Outcome) ([]*frame, []Outcome, bool) {
	var succ []*frame
	var outs []Outcome
	for _, o := range res {
		if o.kind >= oCut {
			outs = append(outs, o)
			continue
		}
		n := f.clone(o.st)
		if o.kind == oPanic {
			n.st.panics = append(n.st.panics, o.pv)
			n.pdepth = len(n.st.panics)
			n.pv = o.pv
		} else {
			if v, ok := in.(ssa.Value); ok {
				if len(o.rets) == 1 {
					x.set(n, v, o.rets[0])
				} else {
					x.set(n, v, Tuple(o.rets))
				}
			}
			n.idx++
		}
		succ = append(succ, n)
	}
	return succ, outs, true
}

func ret(st *State, vs ...Val) []Outcome { return []Outcome{{st: st, kind: oRet, rets: vs}} }

// call calls a function value.
func (x *X) call(st *State, fv Val, args []Val, site ssa.Instruction) []Outcome {
	fv = st.norm(fv)
	switch f := fv.(type) {
	case *Func:
		fn := f.fn
		if m, ok := x.models[fnName(fn)]; ok {
			return m(x, st, fn, args, site)
		}
		if fn.Blocks == nil {
			return x.opaqueCall(st, fnName(fn), fn.Signature, args, site)
		}
		return x.exec(st, fn, args, f.binds, site)
	case *Native:
		return f.fn(x, st, args, site)
	case *BuiltinV:
		switch f.b.Name() {
		case "recover":
			return ret(st, x.recover(st))
		case "delete":
			var o []Outcome
			for _, s := range x.mapDelete(st, x.asMap(st, args[0]), st.snap(args[1]), site.Pos()) {
				o = append(o, Outcome{st: s, kind: oRet})
			}
			return o
		}
		return ret(st)
	case *Const:
		return []Outcome{{st: st, kind: oPanic, pv: rtPanic("call of nil function")}}
	case *Term:
		sig, _ := under(f.typ).(*types.Signature)
		if m, ok := x.invokes["func:"+f.op]; ok {
			return m(x, st, f, nil, args, site)
		}
		if m, ok := x.invokes["func"]; ok {
			return m(x, st, f, nil, args, site)
		}
		if sig == nil {
			panic(abort{"call of " + K(fv)})
		}
		st.event(&Event{kind: "callback", name: f.op, args: args, pos: posOf(site)})
		return ret(st, x.freshResults(st, f.op, sig)...)
	}
	panic(abort{"call of " + K(fv)})
}

func posOf(site ssa.Instruction) token.Pos {
	if site == nil {
		return token.NoPos
	}
	return site.Pos()
}

func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		return fn.Origin().String()
	}
	return fn.String()
}

func (x *X) freshResults(st *State, name string, sig *types.Signature) []Val {
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, st.fresh(name, sig.Results().At(i).Type()))
	}
	return r
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "path": true, "path/filepath": true,
	"regexp": true, "errors": true, "fmt": true, "net": true, "unicode/utf8": true, "bytes": true, "math": true, "reflect": true, "runtime": true, "html": true, "encoding/hex": true, "encoding/base64": true, "crypto/sha256": true, "hash/fnv": true}

func (x *X) opaqueCall(st *State, name string, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	x.opaque[name]++
	pkg := name
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg = strings.Trim(name[:i], "(*)")
	}
	if i := strings.LastIndex(pkg, "."); i >= 0 && strings.Contains(name, ")") {
		pkg = pkg[:i]
	}
	st.event(&Event{kind: "opaque", name: name, args: args, pos: posOf(site)})
	if purePkgs[pkg] {
		var as []Val
		for _, a := range args {
			as = append(as, st.snap(a))
		}
		var r []Val
		n := sig.Results().Len()
		for i := 0; i < n; i++ {
			op := "call:" + name
			if n > 1 {
				op += fmt.Sprintf("#%d", i)
			}
			t := sig.Results().At(i).Type()
			tm := T(op, t, as...)
			r = append(r, st.norm(tm))
		}
		return ret(st, r...)
	}
	return ret(st, x.freshResults(st, name, sig)...)
}

// invoke calls an interface method.
func (x *X) invoke(st *State, recv Val, m *types.Func, args []Val, site ssa.Instruction) []Outcome {
	switch r := recv.(type) {
	case *Const:
		return []Outcome{{st: st, kind: oPanic, pv: rtPanic("nil interface method call " + m.Name())}}
	case *Iface:
		if fk, ok := r.val.(*Fake); ok {
			return fk.h(x, st, m.Name(), args, site)
		}
		if fn := x.w.method(r.typ, m); fn != nil {
			if md, ok := x.models[fnName(fn)]; ok {
				return md(x, st, fn, append([]Val{r.val}, args...), site)
			}
			if fn.Blocks != nil {
				return x.exec(st, fn, append([]Val{r.val}, args...), nil, site)
			}
		}
		if md, ok := x.invokes[m.Name()]; ok {
			return md(x, st, recv, m, args, site)
		}
		return x.opaqueCall(st, "("+types.TypeString(r.typ, nil)+")."+m.Name(), m.Type().(*types.Signature), append([]Val{r.val}, args...), site)
	case *Term:
		if md, ok := x.invokes[m.Name()]; ok {
			return md(x, st, recv, m, args, site)
		}
		x.opaque["invoke "+m.FullName()]++
		st.event(&Event{kind: "invoke", name: m.Name(), args: append([]Val{recv}, args...), pos: posOf(site)})
		return ret(st, x.freshResults(st, m.Name(), m.Type().(*types.Signature))...)
	}
	panic(abort{"invoke on " + K(recv)})
}

func (x *X) recover(st *State) Val {
	if n := len(st.panics); n > 0 {
		v := st.panics[n-1]
		st.panics = st.panics[:n-1]
		if _, ok := v.(*Iface); ok {
			return v
		}
		if c, ok := v.(*Const); ok && c.c == nil {
			return rtPanic("panic(nil)")
		}
		return v
	}
	return nilOf(types.NewInterfaceType(nil, nil))
}

func (x *X) builtin(f *frame, in ssa.Instruction, name string, args []Val, c *ssa.CallCommon) ([]*frame, []Outcome, bool) {
	st := f.st
	setv := func(v Val) {
		if sv, ok := in.(ssa.Value); ok {
			x.set(f, sv, v)
		}
		f.idx++
	}
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *Slice:
			n := a.len
			if name == "cap" {
				n = a.cap
			}
			setv(num(n))
		case *Const:
			if s, ok := constStr(a); ok {
				setv(num(len(s)))
			} else {
				setv(num(0))
			}
		case *MapRef:
			if a.obj < 0 {
				setv(num(0))
				break
			}
			if x.onMap != nil {
				x.onMap(st, a, false, in.Pos())
			}
			n := 0
			for _, e := range st.heap[a.obj].entries {
				if e.present {
					n++
				}
			}
			if st.heap[a.obj].unknown {
				if n > 0 {
					// at least n
					setv(T("add", tInt, num(n), st.fresh("maplen", tInt)))
				} else {
					setv(st.fresh("maplen", tInt))
				}
			} else {
				setv(num(n))
			}
		case *Ptr, *Array:
			if arr, ok := under(c.Args[0].Type()).(*types.Array); ok {
				setv(num(int(arr.Len())))
			} else {
				setv(num(int(under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len())))
			}
		case *Term:
			if _, ok := under(a.typ).(*types.Map); ok {
				x.matMap(st, a)
				return nil, nil, false
			}
			setv(lenTerm(a))
		default:
			setv(lenTerm(a))
		}
	case "append":
		if st0, ok := under(c.Args[0].Type()).(*types.Slice); ok && isByteT(st0.Elem()) {
			if s, ok := bytesVal(st, args[0], args[1]); ok {
				setv(T("bytes", c.Args[0].Type(), s))
				break
			}
		}
		for _, a := range args {
			if t, ok := isSliceT(a); ok {
				return x.forkSlice(f, t), nil, true
			}
		}
		var s *Slice
		switch a := args[0].(type) {
		case *Slice:
			s = a
		case *Const:
			s = &Slice{typ: c.Args[0].Type(), isNil: true, obj: -1}
		default:
			setv(T("append", c.Args[0].Type(), st.snap(args[0]), st.snap(args[1])))
			return nil, nil, false
		}
		switch b := args[1].(type) {
		case *Slice:
			var es []Val
			for k := 0; k < b.len; k++ {
				es = append(es, st.sliceGet(b, k))
			}
			if len(es) > 0 && !s.isNil && s.len+len(es) <= s.cap && x.onStore != nil {
				x.onStore(st, &Ptr{s.obj, append(append([]int(nil), s.path...), s.off+s.len)}, nil, es[0], in.Pos())
			}
			setv(x.appendVals(st, s, es, c.Args[0].Type()))
		case *Const:
			if b.c == nil {
				setv(s)
			} else {
				setv(T("append", c.Args[0].Type(), st.snap(s), b))
			}
		default:
			setv(T("append", c.Args[0].Type(), st.snap(s), st.snap(b)))
		}
	case "copy":
		d, ok1 := args[0].(*Slice)
		s, ok2 := args[1].(*Slice)
		if !ok1 || !ok2 {
			setv(st.fresh("copy", tInt))
			break
		}
		n := d.len
		if s.len < n {
			n = s.len
		}
		var es []Val
		for k := 0; k < n; k++ {
			es = append(es, st.sliceGet(s, k))
		}
		for k, e := range es {
			p := &Ptr{d.obj, append(append([]int(nil), d.path...), d.off+k)}
			if x.onStore != nil {
				x.onStore(st, p, st.load(p), e, in.Pos())
			}
			st.store(p, e)
		}
		setv(num(n))
	case "delete":
		m := x.asMap(st, args[0])
		var succ []*frame
		for _, s := range x.mapDelete(st, m, st.snap(args[1]), in.Pos()) {
			n := f.clone(s)
			n.idx++
			succ = append(succ, n)
		}
		return succ, nil, true
	case "clear":
		if m, ok := args[0].(*MapRef); ok && m.obj >= 0 {
			if x.onMap != nil {
				x.onMap(st, m, true, in.Pos())
			}
			o := *st.heap[m.obj]
			o.entries, o.unknown = nil, false
			st.heap[m.obj] = &o
			st.event(&Event{kind: "mapclear", args: []Val{m}, pos: in.Pos()})
		}
		setv(num(0))
	case "recover":
		setv(x.recover(st))
	case "min", "max":
		a, ok1 := constInt(args[0])
		b, ok2 := constInt(args[1])
		if ok1 && ok2 {
			if (a < b) == (name == "min") {
				setv(num(a))
			} else {
				setv(num(b))
			}
		} else {
			setv(T(name, tInt, args...))
		}
	case "ssa:wrapnilchk":
		setv(args[0])
	default:
		if sv, ok := in.(ssa.Value); ok {
			x.set(f, sv, st.fresh(name, sv.Type()))
		}
		f.idx++
	}
	return nil, nil, false
}
