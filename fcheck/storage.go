package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// adapter is a user implementation of the storage interfaces which records its calls.
// Every call may fail, at most maxFaults calls per path do.
func (c *C) adapter(label string, maxFaults int, loads [][]Val, ifaces ...string) *Iface {
	var ts []types.Type
	for _, n := range ifaces {
		ts = append(ts, c.typ("storage", n))
	}
	return c.fake(label, func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		var as []Val
		switch method {
		case "AddRule", "RemoveRule", "AddRules", "RemoveRules":
			as = append(as, st.snap(args[0]))
		}
		type alt struct {
			st   *State
			fail bool
		}
		alts := []alt{{st, false}}
		if len(eventsOf(st, nil, "fault")) < maxFaults {
			alts = nil
			for _, b := range x.fails(st, label+"."+method, as, site) {
				alts = append(alts, alt{b.st, b.v})
			}
		}
		var outs []Outcome
		for _, a := range alts {
			e := &Event{kind: "adapter", name: method, args: as, pos: posOf(site), res: []Val{str(label), boolean(a.fail)}}
			if method != "LoadPolicy" || a.fail {
				a.st.event(e)
			}
			fail := newError(str("adapter failure"))
			switch {
			case method == "LoadPolicy":
				// the failure comes after the first rule
				n := len(loads)
				if a.fail && n > 1 {
					n = 1
				}
				cur := []*State{a.st}
				var errs []Outcome
				for _, l := range loads[:n] {
					var nxt []*State
					for _, s := range cur {
						for _, o := range x.invokeByName(s, args[0], "AddRule", []Val{s.newSlice(types.NewSlice(tString), l)}, site) {
							switch {
							case o.kind != oRet:
								errs = append(errs, o)
							case c.isErr(o.st, o.rets[1]) == tYes:
								errs = append(errs, ret(o.st, o.rets[1])...)
							default:
								nxt = append(nxt, o.st)
							}
						}
					}
					cur = nxt
				}
				outs = append(outs, errs...)
				for _, s := range cur {
					if !a.fail {
						s.event(e)
					}
					if a.fail {
						outs = append(outs, ret(s, fail)...)
					} else {
						outs = append(outs, ret(s, nilErr)...)
					}
				}
			case method == "SavePolicy" && !a.fail:
				// save all rules
				for _, o := range x.invokeByName(a.st, args[0], "RangeRules", []Val{saver(label)}, site) {
					if o.kind != oRet {
						outs = append(outs, o)
						continue
					}
					outs = append(outs, ret(o.st, nilErr)...)
				}
			case a.fail:
				outs = append(outs, ret(a.st, fail)...)
			default:
				outs = append(outs, ret(a.st, nilErr)...)
			}
		}
		return outs
	}, ts...)
}

func saver(label string) *Native {
	return &Native{name: "save", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		st.event(&Event{kind: "save", name: label, args: []Val{st.snap(args[0])}, pos: posOf(site)})
		return ret(st, boolean(true))
	}}
}

// invokeByName calls a method of an interface value.
func (x *X) invokeByName(st *State, recv Val, name string, args []Val, site ssa.Instruction) []Outcome {
	i, ok := st.norm(recv).(*Iface)
	if !ok {
		panic(abort{"invoke " + name + " on " + K(recv)})
	}
	if fk, ok := i.val.(*Fake); ok {
		return fk.h(x, st, name, args, site)
	}
	return x.call(st, &Func{fn: x.w.meth(i.typ, name)}, append([]Val{i.val}, args...), site)
}

// sop is one change of the rules.
type sop struct {
	add  bool
	rule Val
}

func (o sop) show(st *State) string {
	if o.add {
		return "+" + st.show(o.rule)
	}
	return "-" + st.show(o.rule)
}

func showOps(st *State, ops []sop) string {
	s := "["
	for i, o := range ops {
		if i > 0 {
			s += ", "
		}
		s += o.show(st)
	}
	return s + "]"
}

// acall is a call of the adapter, flattened to single rules.
type acall struct {
	method string
	ops    []sop
	fail   bool
	label  string
	pos    token.Pos
}

func adapterCalls(st *State, mark *Event) []acall {
	var out []acall
	for _, e := range eventsOf(st, mark, "adapter") {
		l, _ := constStr(e.res[0])
		a := acall{method: e.name, fail: isTrue(e.res[1]), label: l, pos: e.pos}
		switch e.name {
		case "AddRule", "RemoveRule":
			a.ops = []sop{{e.name == "AddRule", e.args[0]}}
		case "AddRules", "RemoveRules":
			if t, ok := e.args[0].(*Term); ok && t.op == "list" {
				for _, r := range t.args {
					a.ops = append(a.ops, sop{e.name == "AddRules", r})
				}
			}
		}
		out = append(out, a)
	}
	return out
}

// sst is a state of a history of storage operations together with its specification.
type sst struct {
	st       *State
	set      []Val // rules of the model
	pending  []sop
	enabled  bool
	autosave bool
	wait     int
	desc     string
	dead     bool // the pending operations are not known any more
}

// storeSys is an enforcer with an adapter and the rules used by the operations.
type storeSys struct {
	c     *C
	st    *State
	enf   Val
	model Val
	sc    Val
	kind  string
	rules [][]Val
	loads [][]Val
	rule  map[string]string // facet -> rule of the check
	bad   bool              // the operation contains a malformed rule
}

// badRule is a rule no model accepts.
func (s *storeSys) badRule(st *State, kind rune) Val {
	c := s.c
	switch kind {
	case 'e': // no values
		return c.strs(st)
	case 'k': // empty key
		return c.strs(st, str(""), in("q0"))
	case 'u': // unknown policy
		return c.strs(st, str("p9"), in("q0"), in("q1"))
	case 's': // unknown section
		return c.strs(st, str("zz"), in("q0"))
	}
	return c.strs(st, str("g"), in("q0")) // a role rule with one name
}

var adapterKinds = map[string][]string{
	"SimpleAdapter":       {"SimpleAdapter"},
	"BatchAdapter":        {"BatchAdapter"},
	"Simple+BatchAdapter": {"SimpleAdapter", "BatchAdapter"},
}

func (c *C) storeSys(kind string, maxFaults int, rule map[string]string) *storeSys {
	s := &storeSys{c: c, kind: kind, rule: rule}
	s.rules = [][]Val{{str("p"), in("x0"), in("x1")}, {str("p"), in("y0"), in("y1")}, {str("g"), in("z0"), in("z1")}}
	s.loads = [][]Val{{str("p"), in("l0"), in("l1")}, {str("g"), in("m0"), in("m1")}}
	ad := c.adapter("adapter", maxFaults, s.loads, adapterKinds[kind]...)
	st, model := c.newModel(c.start(), [3]string{"p", "p", "a, b"}, [3]string{"g", "g", "_,_"})
	s.st, s.enf = c.enforcerWith(st, model, ad)
	s.model = model
	o := c.one(c.call(s.st, c.m("", "Enforcer", "GetStorageController"), s.enf), "GetStorageController")
	s.st, s.sc = o.st, o.rets[0]
	return s
}

func (c *C) enforcerWith(st *State, model, ad Val, opts ...Val) (*State, Val) {
	os := c.call(st, c.fn("", "NewEnforcer"), &Iface{c.ptr("model", "Model"), model}, ad, c.optSlice(st, opts...))
	o := c.one(os, "NewEnforcer")
	if c.isErr(o.st, o.rets[1]) != tNo {
		panic(abort{"NewEnforcer fails"})
	}
	return o.st, o.rets[0]
}

func (c *C) optSlice(st *State, opts ...Val) Val {
	t := types.NewSlice(c.typ("", "Option"))
	if len(opts) == 0 {
		return &Slice{typ: t, obj: -1, isNil: true}
	}
	return st.newSlice(t, opts)
}

func (c *C) option(st *State, name string, b bool) (*State, Val) {
	o := c.one(c.call(st, c.fn("", name), boolean(b)), name)
	return o.st, o.rets[0]
}

func (s *storeSys) ob(facet, cons string, r tri, st *State, pos token.Pos, format string, a ...interface{}) {
	if rl, ok := s.rule[facet]; ok {
		s.c.ob(rl, cons, r, st, pos, format, a...)
	}
}

// effects of a change on the set of rules; forks on equality.
func (s *storeSys) effect(h sst, add bool, rule Val) []sst {
	var out []sst
	for _, mb := range s.c.member(setState{h.st, h.set}, rule) {
		n := h
		n.st = mb.st
		n.pending = append([]sop{}, h.pending...)
		if add && mb.idx < 0 {
			n.set = append(append([]Val{}, h.set...), rule)
		} else if !add && mb.idx >= 0 {
			n.set = without(h.set, mb.idx)
		} else {
			out = append(out, n)
			continue
		}
		if h.enabled {
			n.pending = append(n.pending, sop{add, rule})
		}
		out = append(out, n)
	}
	return out
}

// step runs an operation and compares the calls of the adapter with the specification.
func (s *storeSys) step(h sst, op string) []sst {
	c := s.c
	desc := h.desc + op + "; "
	c.scen = s.kind + ": " + desc
	verb, arg := verbKind(op)
	st := h.st.clone()
	mark := st.trace
	et := c.ptr("", "Enforcer")
	cons := s.kind + " Enforcer."
	var os []Outcome
	type change struct {
		add  bool
		rule Val
	}
	var changes []change
	errIdx := 0
	s.bad = false
	one := func(i rune) (Val, Val) {
		if i >= bulkRule {
			i -= bulkRule - '0'
		} else if i < '0' || i > '9' {
			s.bad = true
			return s.badRule(st, i), nil
		}
		r := c.strs(st, s.rules[i-'0']...)
		return r, st.snap(r)
	}
	switch verb {
	case "add", "remove":
		r, content := one(rune(arg[0]))
		name := map[string]string{"add": "AddRule", "remove": "RemoveRule"}[verb]
		cons += name
		if content != nil {
			changes = []change{{verb == "add", content}}
		}
		errIdx = 1
		os = c.call(st, c.meth(et, name), s.enf, r)
	case "addall", "removeall":
		var rs []Val
		if arg == "*" {
			arg = ""
			for i := range s.rules {
				arg += string(rune(bulkRule + i))
			}
		}
		for _, i := range arg {
			r, content := one(i)
			rs = append(rs, r)
			if content != nil { // malformed rules are the last ones
				changes = append(changes, change{verb == "addall", content})
			}
		}
		name := map[string]string{"addall": "AddRules", "removeall": "RemoveRules"}[verb]
		cons += name
		os = c.call(st, c.meth(et, name), s.enf, c.strss(st, rs...))
	case "flush":
		cons += "Flush"
		os = c.call(st, c.meth(et, "Flush"), s.enf)
	case "load":
		cons += "LoadPolicy"
		os = c.call(st, c.meth(et, "LoadPolicy"), s.enf)
		for _, l := range s.loads {
			changes = append(changes, change{true, st.snap(c.strs(st, l...))})
		}
	case "save":
		cons += "SavePolicy"
		os = c.call(st, c.meth(et, "SavePolicy"), s.enf)
	case "autosave", "storage":
		cons += "SetOption(" + verb + ")"
		st, o := c.option(st, map[string]string{"autosave": "OptionAutosave", "storage": "OptionStorage"}[verb], arg == "on")
		os = c.call(st, c.meth(et, "SetOption"), s.enf, o)
		if verb == "autosave" {
			h.autosave = arg == "on"
		} else {
			h.enabled = arg == "on"
		}
	case "wait":
		cons += "AddWait"
		os = c.call(st, c.m("storage", "StorageController", "AddWait"), s.sc, num(int(arg[0]-'0')))
		errIdx = -1
		h.wait += int(arg[0] - '0')
	}
	var out []sst
	for _, o := range os {
		if o.kind == oPanic {
			s.ob("panic", cons, tNo, o.st, o.pos, "%s panics: %s", cons, o.st.show(o.pv))
			continue
		}
		s.ob("panic", cons, tYes, o.st, token.NoPos, "")
		cur := []sst{{st: o.st, set: h.set, pending: h.pending, enabled: h.enabled, autosave: h.autosave, wait: h.wait, desc: desc, dead: h.dead}}
		failed := len(faults(o.st, mark)) > 0
		chs := changes
		if verb == "load" && failed {
			chs = chs[:1]
		}
		for _, ch := range chs {
			var nxt []sst
			for _, x := range cur {
				if verb == "load" {
					x.enabled = false
				}
				for _, y := range s.effect(x, ch.add, ch.rule) {
					y.enabled = h.enabled
					nxt = append(nxt, y)
				}
			}
			cur = nxt
		}
		for _, x := range cur {
			n := len(x.pending) - len(h.pending)
			x = s.compare(x, verb, cons, o, mark, n, errIdx)
			out = append(out, x)
		}
	}
	return out
}

// compare checks the calls of the adapter during one step; n is the number of new pending operations.
func (s *storeSys) compare(h sst, verb, cons string, o Outcome, mark *Event, n int, errIdx int) sst {
	c := s.c
	st := h.st
	calls := adapterCalls(st, mark)
	rest := h.pending
	accepted := 0
	r := tYes
	var pos token.Pos
	why := ""
	nfail := 0
	var writes []acall
	for _, a := range calls {
		switch a.method {
		case "LoadPolicy", "SavePolicy":
			if a.fail {
				nfail++
			}
			continue
		}
		writes = append(writes, a)
		if a.fail {
			nfail++
		}
		if len(a.ops) == 0 || len(a.ops) > len(rest) {
			r, pos, why = tNo, a.pos, fmt.Sprintf("%s is called with %s, the pending changes are %s", a.method, showOps(st, a.ops), showOps(st, rest))
			break
		}
		for i, op := range a.ops {
			t := tNo
			if op.add == rest[i].add {
				t = c.same(st, op.rule, rest[i].rule)
			}
			if t != tYes {
				pos, why = a.pos, fmt.Sprintf("%s stores %s, the pending changes are %s", a.method, op.show(st), showOps(st, rest))
			}
			r = allOf(r, t)
		}
		if r != tYes {
			break
		}
		if !a.fail {
			rest = rest[len(a.ops):]
			accepted += len(a.ops)
		}
	}
	if h.dead {
		return h
	}
	if len(writes) > 0 {
		s.ob("order", cons, r, st, pos, "%s: %s", h.desc, why)
	}
	if r != tYes {
		h.dead = true
		return h
	}
	changing := verb == "add" || verb == "remove" || verb == "addall" || verb == "removeall"
	switch {
	case verb == "flush":
		h.wait = 0
		if nfail == 0 {
			s.ob("lost", cons, triOf(len(rest) == 0), st, token.NoPos, "%s: Flush reports no failure but %s is not stored", h.desc, showOps(st, rest))
		}
	case verb == "load":
		s.ob("echo", cons, triOf(len(writes) == 0), st, token.NoPos, "%s: loaded rules are written back by %d calls of the adapter", h.desc, len(writes))
	case changing && !h.autosave:
		s.ob("early", cons, triOf(len(writes) == 0), st, token.NoPos, "%s: autosave is disabled but %s is stored", h.desc, showOps(st, h.pending[:accepted]))
	case changing && n > 0 && (verb == "add" || verb == "remove"):
		h.wait--
		if h.wait > 0 {
			s.ob("early", cons, triOf(len(writes) == 0), st, token.NoPos, "%s: %d more changes are awaited but %s is stored", h.desc, h.wait, showOps(st, h.pending[:accepted]))
		} else {
			h.wait = 0
			if nfail == 0 {
				s.ob("prompt", cons, triOf(len(rest) == 0), st, token.NoPos, "%s: autosave is enabled but %s is not stored", h.desc, showOps(st, rest))
			}
		}
	case changing && verb != "add" && verb != "remove":
		h.wait = 0
		if nfail == 0 && n > 0 {
			s.ob("prompt", cons, triOf(len(rest) == 0), st, token.NoPos, "%s: autosave is enabled but %s is not stored", h.desc, showOps(st, rest))
		}
	case !changing:
		s.ob("early", cons, triOf(len(writes) == 0), st, token.NoPos, "%s: %s changes the storage", h.desc, cons)
	}
	h.pending = append([]sop{}, rest...)
	if errIdx >= 0 {
		err := o.rets[errIdx]
		if s.bad {
			s.ob("report", cons, c.isErr(st, err), st, token.NoPos, "%s: a rule is malformed but no error is returned", h.desc)
		} else if nfail > 0 {
			s.ob("report", cons, c.isErr(st, err), st, token.NoPos, "%s: the adapter failed but no error is returned", h.desc)
		} else {
			s.ob("clean", cons, negate(c.isErr(st, err)), st, token.NoPos, "%s: nothing failed but the error %s is returned", h.desc, st.show(err))
		}
	}
	// the settings
	for _, f := range []struct {
		name string
		want bool
	}{{"Enabled", h.enabled}, {"AutosaveEnabled", h.autosave}} {
		if _, ok := s.rule["settings"]; !ok {
			break
		}
		for _, q := range c.call(st, c.m("storage", "StorageController", f.name), s.sc) {
			if q.kind != oRet {
				continue
			}
			t := c.truth(q.st, q.rets[0])
			if !f.want {
				t = negate(t)
			}
			s.ob("settings", cons, t, st, token.NoPos, "%s: %s() is %s afterwards", h.desc, f.name, st.show(q.rets[0]))
		}
	}
	return h
}

// allOps are the operations of the enforcer, with well-formed and malformed rules.
var allOps = []string{"add 0", "remove 0", "add 2", "remove 2", "addall 12", "removeall 20", "flush", "load", "save", "autosave on", "autosave off", "storage off", "storage on", "wait 2",
	"add e", "add u", "add g", "remove e", "remove k", "remove s", "remove g", "addall 0u", "addall 2e", "removeall 0g", "removeall 2e", "addall", "removeall"}

// breadth runs all short histories over all operations.
func (s *storeSys) breadth(thorough bool) {
	d := 2
	if thorough && s.kind != "Simple+BatchAdapter" {
		d = 3
	}
	for _, first := range [][]string{nil, {"autosave on"}, {"add 0", "add 2"}, {"autosave on", "add 2"}, {"add 2", "storage off"}} {
		s.explore(d, first, allOps, nil)
		if s.kind == "Simple+BatchAdapter" {
			return
		}
	}
}

// explore runs all histories over the operations.
func (s *storeSys) explore(depth int, first, ops []string, at func(h sst)) {
	cur := []sst{{st: s.st, enabled: true}}
	if len(first) > 0 {
		for _, op := range first {
			var nxt []sst
			for _, h := range cur {
				nxt = append(nxt, s.step(h, op)...)
			}
			cur = nxt
		}
	}
	for d := 0; d < depth; d++ {
		var nxt []sst
		for _, h := range cur {
			for _, op := range ops {
				nxt = append(nxt, s.step(h, op)...)
			}
		}
		cur = nxt
		if at != nil {
			for _, h := range cur {
				at(h)
			}
		}
		s.c.scenario("%s: %d histories of %d operations out of %v after %v", s.kind, len(cur), d+1, ops, first)
	}
}

// bulkRule is the rune of the first rule of a bulk operation
const bulkRule = 0x1000

// bulk runs a history with many distinct rules.
func (s *storeSys) bulk(n int, ops ...string) {
	s.rules = nil
	for i := 0; i < n; i++ {
		s.rules = append(s.rules, []Val{str("p"), str(fmt.Sprintf("u%d", i)), str("x")})
	}
	cur := []sst{{st: s.st, enabled: true}}
	for i, op := range ops {
		var nxt []sst
		for _, h := range cur {
			nxt = append(nxt, s.step(h, op)...)
		}
		cur = nxt
		s.c.scenario("%s: %d rules, %d histories of %v", s.kind, n, len(cur), ops[:i+1])
	}
}

var kindsOrdered = []string{"SimpleAdapter", "BatchAdapter", "Simple+BatchAdapter"}

func init() {
	register(&Check{
		id:        "C09",
		technique: "abstract interpretation of histories of rule changes and flushes with a failing adapter",
		rules: map[string]string{
			"order": "the adapter receives exactly the pending changes, oldest first, each with its kind and its rule, whatever failed before",
			"lost":  "a change that is not stored stays pending: after a Flush without failure every change has been stored exactly once",
		},
		run: func(c *C) {
			depth := 4
			if c.thorough {
				depth = 5
			}
			for _, k := range kindsOrdered {
				s := c.storeSys(k, 2, map[string]string{"order": "order", "lost": "lost"})
				d := depth
				if k == "Simple+BatchAdapter" {
					d--
				}
				s.explore(d, nil, []string{"add 0", "remove 0", "addall 12", "flush"}, nil)
				n := 200
				if k == "SimpleAdapter" {
					n = 40
				}
				c.storeSys(k, 1, map[string]string{"order": "order", "lost": "lost"}).bulk(n, "addall *", "flush", "removeall *", "flush", "flush")
				s = c.storeSys(k, 2, map[string]string{"order": "order", "lost": "lost"})
				s.explore(2, []string{"addall 012"}, []string{"add 0", "removeall 02", "removeall 10", "flush"}, func(h sst) { s.step(h, "flush") })
				s.explore(3, []string{"autosave on"}, []string{"add 0", "remove 0", "addall 12", "removeall 01", "flush"}, nil)
				s.explore(3, []string{"autosave on"}, smallBatches, func(h sst) { s.step(h, "flush") })
				s.explore(2, nil, smallBatches, func(h sst) { s.step(h, "flush") })
				s.explore(2, []string{"add 0", "storage off", "add 1"}, []string{"remove 0", "storage on", "add 2", "flush"}, func(h sst) { s.step(h, "flush") })
				s.explore(2, []string{"add 0", "load"}, []string{"remove 0", "add 1", "flush", "load"}, func(h sst) { s.step(h, "flush") })
				s = c.storeSys(k, 6, map[string]string{"order": "order", "lost": "lost"})
				s.history("add 0", "flush", "flush", "flush", "flush", "flush", "flush", "add 2", "flush")
				s = c.storeSys(k, 4, map[string]string{"order": "order", "lost": "lost"})
				s.history("autosave on", "add 0", "addall 12", "removeall 01", "flush", "flush")
				s = c.storeSys(k, 1, map[string]string{"order": "order", "lost": "lost"})
				s.breadth(c.thorough)
			}
		},
	})
}

// history runs a single history.
func (s *storeSys) history(ops ...string) {
	cur := []sst{{st: s.st, enabled: true}}
	for _, op := range ops {
		var nxt []sst
		for _, h := range cur {
			nxt = append(nxt, s.step(h, op)...)
		}
		cur = nxt
	}
	s.c.scenario("%s: %d histories of %v", s.kind, len(cur), ops)
}
