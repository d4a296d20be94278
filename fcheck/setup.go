package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C14: adapter and model of an enforcer can be exchanged.

type setupCase struct {
	autosave, storage bool
}

// writes of the adapter with the given label.
func (c *C) writesOf(st *State, mark *Event, label string) []sop {
	var out []sop
	for _, a := range adapterCalls(st, mark) {
		if a.label == label {
			out = append(out, a.ops...)
		}
	}
	return out
}

func (c *C) sameOps(st *State, a []sop, b ...sop) tri {
	if len(a) != len(b) {
		return tNo
	}
	r := tYes
	for i := range a {
		if a[i].add != b[i].add {
			return tNo
		}
		r = allOf(r, c.same(st, a[i].rule, b[i].rule))
	}
	return r
}

// seq runs calls one after another on every path; panics are reported.
func (c *C) seq(rule, cons string, cur []*State, f func(st *State) []Outcome) []Outcome {
	var out []Outcome
	for _, st := range cur {
		for _, o := range f(st.clone()) {
			if c.noPanic(rule, cons, o) {
				out = append(out, o)
			}
		}
	}
	return out
}

func states(os []Outcome) []*State {
	var r []*State
	for _, o := range os {
		r = append(r, o.st)
	}
	return r
}

func (c *C) enf(name string) *ssa.Function { return c.m("", "Enforcer", name) }

func (c *C) rule3(st *State, key string, vs ...Val) (Val, Val) {
	r := c.strs(st, append([]Val{str(key)}, vs...)...)
	return r, st.snap(r)
}

func (c *C) modelDefs() [][3]string {
	return [][3]string{{"r", "r", "a, b"}, {"p", "p", "a, b"}, {"g", "g", "_,_"}, {"e", "e", "some(where (p.eft == allow))"}, {"m", "m", "r.a == p.a && r.b == p.b"}}
}

func (c *C) builtModel(st *State) (*State, Val) {
	st, m := c.newModel(st, c.modelDefs()...)
	o := c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers")
	if c.isErr(o.st, o.rets[0]) != tNo {
		panic(abort{"BuildMatchers fails"})
	}
	return o.st, m
}

func (c *C) checkSettings(rule, cons string, enf Val, autosave, storage bool, st *State) {
	for _, o := range c.call(st, c.enf("GetStorageController"), enf) {
		for _, f := range []struct {
			name string
			want bool
		}{{"AutosaveEnabled", autosave}, {"Enabled", storage}} {
			for _, q := range c.call(o.st, c.m("storage", "StorageController", f.name), o.rets[0]) {
				if q.kind != oRet {
					continue
				}
				t := c.truth(q.st, q.rets[0])
				if !f.want {
					t = negate(t)
				}
				c.ob(rule, cons, t, q.st, token.NoPos, "%s() was %v and is %s afterwards", f.name, f.want, q.st.show(q.rets[0]))
			}
		}
	}
}

func runC14(c *C) {
	kinds := []string{"SimpleAdapter", "BatchAdapter"}
	if c.thorough {
		kinds = kindsOrdered
	}
	load := [][]Val{{str("p"), in("l0"), in("l1")}}
	for _, kind := range kinds {
		for _, sc := range []setupCase{{false, true}, {true, true}, {false, false}, {true, false}} {
			c.swapAdapter(kind, sc, load)
			c.swapModel(kind, sc, load)
		}
	}
	c.creation()
}

// begin creates an enforcer with a model, an adapter A and settings.
func (c *C) begin(kind string, sc setupCase, load [][]Val) (*State, Val, Val) {
	ad := c.adapter("A", 0, load, adapterKinds[kind]...)
	st, m := c.builtModel(c.start())
	st, o1 := c.option(st, "OptionAutosave", sc.autosave)
	st, o2 := c.option(st, "OptionStorage", sc.storage)
	st, enf := c.enforcerWith(st, m, ad, o1, o2)
	return st, m, enf
}

func (c *C) swapAdapter(kind string, sc setupCase, load [][]Val) {
	const cons = "Enforcer.SetAdapter"
	for _, before := range []bool{false, true} {
		c.scenario("%s, autosave %v, storage %v, rules before: %v: SetAdapter, AddRule, RemoveRule, Flush", kind, sc.autosave, sc.storage, before)
		st, _, enf := c.begin(kind, sc, load)
		cur := []*State{st}
		if before {
			cur = states(c.seq("adapter", cons, cur, func(st *State) []Outcome {
				r, _ := c.rule3(st, "p", in("x0"), in("x1"))
				return c.call(st, c.enf("AddRule"), enf, r)
			}))
			cur = states(c.seq("adapter", cons, cur, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }))
		}
		b := c.adapter("B", 0, load, adapterKinds[kind]...)
		for _, kind2 := range []bool{false, true} { // twice the same adapter
			cur2 := cur
			n := 1
			if kind2 {
				n = 2
			}
			for i := 0; i < n; i++ {
				cur2 = states(c.seq("adapter", cons, cur2, func(st *State) []Outcome { return c.call(st, c.enf("SetAdapter"), enf, b) }))
			}
			for _, st := range cur2 {
				for _, o := range c.call(st, c.enf("GetAdapter"), enf) {
					c.ob("adapter", cons, triOf(K(o.st.norm(o.rets[0])) == K(b)), o.st, token.NoPos, "GetAdapter does not return the adapter that was set")
				}
				if sc.storage { // a new adapter of an enforcer without storage: both settings are plausible
					c.checkSettings("settings", cons, enf, sc.autosave, true, st)
				}
			}
			c.useAdapter(cons, enf, sc, cur2)
		}
	}
}

// useAdapter: changes are stored by adapter B only.
func (c *C) useAdapter(cons string, enf Val, sc setupCase, cur []*State) {
	if !sc.storage {
		return
	}
	for _, st := range cur {
		mark := st.trace
		r, content := c.rule3(st, "p", in("y0"), in("y1"))
		for _, o := range c.seq("adapter", cons, []*State{st}, func(st *State) []Outcome { return c.call(st, c.enf("AddRule"), enf, r) }) {
			added := c.truth(o.st, o.rets[0])
			var want []sop
			if added == tYes {
				want = []sop{{true, content}}
			} else if added != tNo {
				continue
			}
			check := func(st *State, what string, exp []sop) {
				c.ob("adapter", cons, c.sameOps(st, c.writesOf(st, mark, "B"), exp...), st, token.NoPos, "after %s the new adapter has stored %s, expected is %s", what, showOps(st, c.writesOf(st, mark, "B")), showOps(st, exp))
				c.ob("adapter", cons, triOf(len(c.writesOf(st, mark, "A")) == 0), st, token.NoPos, "after %s the old adapter is called: %s", what, showOps(st, c.writesOf(st, mark, "A")))
			}
			if sc.autosave {
				check(o.st, "AddRule with autosave", want)
			} else {
				check(o.st, "AddRule without autosave", nil)
			}
			for _, q := range c.seq("adapter", cons, []*State{o.st}, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }) {
				c.ob("adapter", cons, negate(c.isErr(q.st, q.rets[0])), q.st, token.NoPos, "Flush fails")
				check(q.st, "Flush", want)
				for _, s := range c.seq("adapter", cons, []*State{q.st}, func(st *State) []Outcome {
					r, _ := c.rule3(st, "p", in("y0"), in("y1"))
					return c.call(st, c.enf("RemoveRule"), enf, r)
				}) {
					for _, f := range c.seq("adapter", cons, []*State{s.st}, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }) {
						check(f.st, "RemoveRule and Flush", append(append([]sop{}, want...), sop{false, content}))
					}
				}
			}
			for _, verb := range []string{"LoadPolicy", "SavePolicy"} {
				m2 := o.st.trace
				for _, q := range c.seq("adapter", cons, []*State{o.st}, func(st *State) []Outcome { return c.call(st, c.enf(verb), enf) }) {
					n := map[string]int{}
					for _, a := range adapterCalls(q.st, m2) {
						if a.method == verb {
							n[a.label]++
						}
					}
					c.ob("adapter", cons, triOf(n["A"] == 0 && n["B"] == 1), q.st, token.NoPos, "%s calls the old adapter %d times and the new adapter %d times", verb, n["A"], n["B"])
				}
			}
		}
	}
}

func (c *C) swapModel(kind string, sc setupCase, load [][]Val) {
	const cons = "Enforcer.SetModel"
	mT := c.ptr("model", "Model")
	mAdd := c.m("model", "Model", "AddRule")
	for _, n := range []int{1, 2, 3, 4, 5, 6} {
		twice, enable := n, false
		if n > 3 { // storage disabled during the exchange and enabled afterwards
			twice, enable = n-3, true
			if sc.storage {
				continue
			}
		}
		c.scenario("%s, autosave %v, storage %v: SetModel (%d times, storage enabled afterwards: %v), changes of the old and the new model, Flush", kind, sc.autosave, sc.storage, twice, enable)
		sc := sc
		st, m1, enf := c.begin(kind, sc, load)
		// the old model has a rule which has been stored
		cur := states(c.seq("model", cons, []*State{st}, func(st *State) []Outcome {
			r, _ := c.rule3(st, "p", str("old"), str("1"))
			return c.call(st, c.enf("AddRule"), enf, r)
		}))
		cur = states(c.seq("model", cons, cur, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }))
		for _, st := range cur {
			st, m2 := c.builtModel(st)
			st2 := []*State{st}
			other := m1
			last := m2
			set := []Val{m2}
			if twice == 2 {
				set = []Val{m2, m2}
			}
			if twice == 3 {
				set, other, last = []Val{m2, m1}, m2, m1
			}
			for _, m := range set {
				st2 = states(c.seq("model", cons, st2, func(st *State) []Outcome {
					return c.call(st, c.enf("SetModel"), enf, &Iface{mT, m})
				}))
			}
			for _, st := range st2 {
				c.checkSettings("settings", cons, enf, sc.autosave, sc.storage, st)
				for _, o := range c.call(st, c.enf("GetModel"), enf) {
					i, ok := o.st.norm(o.rets[0]).(*Iface)
					c.ob("model", cons, triOf(ok && K(i.val) == K(o.st.norm(last))), o.st, token.NoPos, "GetModel does not return the model that was set")
				}
				if enable {
					st2, on := c.option(st, "OptionStorage", true)
					o := c.one(c.call(st2, c.enf("SetOption"), enf, on), "SetOption")
					st = o.st
					sc.storage = true
					c.checkSettings("settings", cons, enf, sc.autosave, true, st)
				}
				mark := st.trace
				// a change of the model that is not used any more
				for _, o := range c.seq("model", cons, []*State{st}, func(st *State) []Outcome {
					r, _ := c.rule3(st, "p", str("stale"), str("2"))
					return c.call(st, mAdd, other, r)
				}) {
					for _, q := range c.seq("model", cons, []*State{o.st}, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }) {
						c.ob("model", cons, triOf(len(c.writesOf(q.st, mark, "A")) == 0), q.st, token.NoPos, "a change of a model that is not used by the enforcer is stored: %s", showOps(q.st, c.writesOf(q.st, mark, "A")))
						// a change of the new model
						mark := q.st.trace
						for _, direct := range []bool{false, true} {
							var content Val
							for _, a := range c.seq("model", cons, []*State{q.st}, func(st *State) []Outcome {
								r, cn := c.rule3(st, "p", str("new"), in("y"))
								content = cn
								if direct {
									return c.call(st, mAdd, last, r)
								}
								return c.call(st, c.enf("AddRule"), enf, r)
							}) {
								var want []sop
								if sc.storage {
									want = []sop{{true, content}}
								}
								if sc.autosave {
									c.ob("model", cons, c.sameOps(a.st, c.writesOf(a.st, mark, "A"), want...), a.st, token.NoPos, "autosave stores %s, expected is %s", showOps(a.st, c.writesOf(a.st, mark, "A")), showOps(a.st, want))
								}
								for _, f := range c.seq("model", cons, []*State{a.st}, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }) {
									c.ob("model", cons, c.sameOps(f.st, c.writesOf(f.st, mark, "A"), want...), f.st, token.NoPos, "Flush stores %s, expected is %s", showOps(f.st, c.writesOf(f.st, mark, "A")), showOps(f.st, want))
									c.modelUse(cons, enf, last, other, twice == 3, f.st, load)
								}
							}
						}
					}
				}
			}
		}
	}
}

// modelUse: rules and decisions are those of the model in use.
func (c *C) modelUse(cons string, enf, last, other Val, back bool, st *State, load [][]Val) {
	rules := func(vs ...[]Val) []Val {
		var r []Val
		for _, v := range vs {
			r = append(r, st.snap(c.strs(st, append([]Val{str("p")}, v...)...)))
		}
		return r
	}
	want := rules([]Val{str("new"), in("y")})
	unused := rules([]Val{str("old"), str("1")}, []Val{str("stale"), str("2")})
	if back {
		want = rules([]Val{str("old"), str("1")}, []Val{str("new"), in("y")})
		unused = rules([]Val{str("stale"), str("2")})
	}
	for _, m := range c.modelRules(st, last) {
		c.ob("model", cons, c.sameSet(m.st, m.set, want), m.st, token.NoPos, "the model in use has the rules %s, expected are %s", showVals(m.st, m.set), showVals(m.st, want))
	}
	for _, m := range c.modelRules(st, other) {
		c.ob("model", cons, c.sameSet(m.st, m.set, unused), m.st, token.NoPos, "the model not in use has the rules %s, expected are %s", showVals(m.st, m.set), showVals(m.st, unused))
	}
	ask := func(user, obj Val, allowed bool) {
		for _, o := range c.seq("model", cons, []*State{st}, func(st *State) []Outcome {
			return c.call(st, c.enf("Enforce"), enf, c.anys(st, user, obj))
		}) {
			t := c.truth(o.st, o.rets[0])
			if !allowed {
				t = negate(t)
			}
			c.ob("model", cons, allOf(t, negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "after SetModel Enforce(%s, %s) returns %s, %s", o.st.show(user), o.st.show(obj), o.st.show(o.rets[0]), o.st.show(o.rets[1]))
		}
	}
	ask(str("new"), in("y"), true)
	ask(str("stale"), str("2"), false)
	ask(str("old"), str("1"), back)
	mark := st.trace
	for _, o := range c.seq("model", cons, []*State{st}, func(st *State) []Outcome { return c.call(st, c.enf("SavePolicy"), enf) }) {
		var got []Val
		for _, e := range eventsOf(o.st, mark, "save") {
			got = append(got, e.args[0])
		}
		c.ob("model", cons, c.sameSet(o.st, got, want), o.st, token.NoPos, "SavePolicy saves %s, the rules of the model are %s", showVals(o.st, got), showVals(o.st, want))
	}
	for _, o := range c.seq("model", cons, []*State{st}, func(st *State) []Outcome { return c.call(st, c.enf("LoadPolicy"), enf) }) {
		for _, m := range c.modelRules(o.st, other) {
			c.ob("model", cons, c.sameSet(m.st, m.set, unused), m.st, token.NoPos, "LoadPolicy changes a model that is not used")
		}
		c.ob("model", cons, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "LoadPolicy fails: %s", o.st.show(o.rets[0]))
		l := o.st.snap(c.strs(o.st, load[0]...))
		for _, m := range c.modelRules(o.st, last) {
			for _, mb := range c.member(setState{m.st, m.set}, l) {
				c.ob("model", cons, triOf(mb.idx >= 0), mb.st, token.NoPos, "LoadPolicy does not load into the model in use")
			}
		}
	}
}

func (c *C) creation() {
	const cons = "NewEnforcer"
	ne := c.fn("", "NewEnforcer")
	mT := c.ptr("model", "Model")
	nilAny := nilOf(types.NewInterfaceType(nil, nil))
	rule := func(st *State) Val { r, _ := c.rule3(st, "p", in("y0"), in("y1")); return r }
	for _, byValue := range []bool{false, true} {
		model := func(st *State) (*State, Val, Val) {
			st, m := c.builtModel(st)
			if byValue {
				p := m.(*Ptr)
				return st, &Iface{mT.(*types.Pointer).Elem(), st.load(p)}, m
			}
			return st, &Iface{mT, m}, m
		}
		for _, ad := range []string{"adapter", "nil", "file", "missing file"} {
			for _, auto := range []bool{false, true} {
				c.scenario("NewEnforcer(model by value: %v, %s), autosave: %v", byValue, ad, auto)
				st := c.start()
				var a Val = nilAny
				switch ad {
				case "adapter":
					a = c.adapter("A", 0, nil, "SimpleAdapter")
				case "file":
					st.fsPut(str(policyPath), str("p, alice, data1\ng, alice, admin\n"))
					a = &Iface{tString, str(policyPath)}
				case "missing file":
					a = &Iface{tString, str(policyPath)}
				}
				st, mv, _ := model(st)
				st, opt := c.option(st, "OptionAutosave", auto)
				mark := st.trace
				for _, o := range c.seq("create", cons, []*State{st}, func(st *State) []Outcome {
					return c.call(st, ne, mv, a, c.optSlice(st, opt))
				}) {
					e := c.isErr(o.st, o.rets[1])
					if ad == "missing file" {
						c.ob("create", cons, e, o.st, token.NoPos, "NewEnforcer with a missing policy file returns no error")
						continue
					}
					c.ob("create", cons, negate(e), o.st, token.NoPos, "NewEnforcer fails: %s", o.st.show(o.rets[1]))
					if e != tNo {
						continue
					}
					enf := o.rets[0]
					c.checkSettings("create", cons, enf, auto, ad != "nil", o.st)
					c.ob("create", cons, triOf(len(c.writesOf(o.st, mark, "A")) == 0 && len(eventsOf(o.st, mark, "fs")) == 0), o.st, token.NoPos, "creating an enforcer changes the storage")
					for _, q := range c.call(o.st, c.enf("GetAdapter"), enf) {
						r := q.st.norm(q.rets[0])
						t := triOf(!isNilConst(r))
						if ad == "adapter" {
							t = triOf(K(r) == K(a))
						}
						c.ob("create", cons, t, q.st, token.NoPos, "GetAdapter returns %s", q.st.show(r))
					}
					for _, q := range c.seq("create", cons, []*State{o.st}, func(st *State) []Outcome { return c.call(st, c.enf("AddRule"), enf, rule(st)) }) {
						c.ob("create", cons, negate(c.isErr(q.st, q.rets[1])), q.st, token.NoPos, "AddRule fails: %s", q.st.show(q.rets[1]))
						for _, r := range c.seq("create", cons, []*State{q.st}, func(st *State) []Outcome { return c.call(st, c.enf("Enforce"), enf, c.anys(st, in("y0"), in("y1"))) }) {
							c.ob("create", cons, allOf(c.truth(r.st, r.rets[0]), negate(c.isErr(r.st, r.rets[1]))), r.st, token.NoPos, "a rule that was added does not allow: %s, %s", r.st.show(r.rets[0]), r.st.show(r.rets[1]))
						}
						for _, verb := range []string{"SavePolicy", "LoadPolicy"} {
							if ad == "file" {
								continue // done below with constants
							}
							for _, r := range c.seq("create", cons, []*State{q.st}, func(st *State) []Outcome { return c.call(st, c.enf(verb), enf) }) {
								c.ob("create", cons, negate(c.isErr(r.st, r.rets[0])), r.st, token.NoPos, "%s fails", verb)
							}
						}
					}
					if ad == "file" {
						c.fileEnforcer(cons, enf, auto, o.st)
					}
				}
			}
		}
	}
	c.prepared()
	// invalid arguments
	for _, bad := range []struct {
		name string
		v    Val
	}{{"nil", nilAny}, {"a number", &Iface{tInt, num(3)}}, {"a policy", &Iface{tBool, boolean(true)}}} {
		c.scenario("NewEnforcer(%s)", bad.name)
		st := c.start()
		for _, o := range c.seq("create", cons, []*State{st}, func(st *State) []Outcome { return c.call(st, ne, bad.v, nilAny, c.optSlice(st)) }) {
			c.ob("create", cons, c.isErr(o.st, o.rets[1]), o.st, token.NoPos, "NewEnforcer with %s as model returns no error", bad.name)
		}
	}
	// options
	c.scenario("options of NewEnforcer")
	mk := func(name string) *Native {
		return &Native{name: name, fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
			var outs []Outcome
			for _, b := range x.fails(st, "option "+name, nil, site) {
				if b.v {
					outs = append(outs, ret(b.st, newError(str("option failed")))...)
				} else {
					outs = append(outs, ret(b.st, nilErr)...)
				}
			}
			return outs
		}}
	}
	st, m := c.builtModel(c.start())
	ad := c.adapter("A", 0, nil, "SimpleAdapter")
	for _, o := range c.seq("create", cons, []*State{st}, func(st *State) []Outcome {
		return c.call(st, ne, &Iface{mT, m}, ad, c.optSlice(st, mk("first"), mk("second")))
	}) {
		t := c.isErr(o.st, o.rets[1])
		if len(faults(o.st, st.trace)) == 0 {
			t = negate(t)
		}
		c.ob("create", cons, t, o.st, token.NoPos, "%d options fail, NewEnforcer returns %s", len(faults(o.st, st.trace)), o.st.show(o.rets[1]))
	}
	st2, enf := c.enforcerWith(st, m, ad)
	for _, o := range c.seq("create", "Enforcer.SetOption", []*State{st2}, func(st *State) []Outcome { return c.call(st, c.enf("SetOption"), enf, mk("late")) }) {
		t := c.isErr(o.st, o.rets[0])
		if len(faults(o.st, st2.trace)) == 0 {
			t = negate(t)
		}
		c.ob("create", "Enforcer.SetOption", t, o.st, token.NoPos, "%d options fail, SetOption returns %s", len(faults(o.st, st2.trace)), o.st.show(o.rets[0]))
	}
}

// prepared: the enforcer uses the model it is given, with its rules, functions, role managers, effectors and request definitions.
func (c *C) prepared() {
	mT := c.ptr("model", "Model")
	nilAny := nilOf(anyT)
	x, y := []Val{in("x0"), in("x1")}, []Val{in("y0"), in("y1")}
	own := linkedFn("own")
	denied := c.fake("deniesAll", func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		return ret(st, c.effectVal("Deny"), c.nilStrs(), nilErr)
	}, c.typ("model/effector", "IEffector"))
	for _, how := range []string{"pointer", "value", "SetModel"} {
		for _, effector := range []bool{false, true} {
			cons := "NewEnforcer"
			rule := "create"
			if how == "SetModel" {
				cons, rule = "Enforcer.SetModel", "model"
			}
			c.scenario("%s (%s) with a model that has rules, a function, a role manager, custom effector: %v", cons, how, effector)
			st, m := c.newModel(c.start(), [3]string{"r", "r", "a, b"}, [3]string{"p", "p", "a, b"}, [3]string{"g", "g", "_,_"}, [3]string{"e", "e", "some(where (p.eft == allow))"}, [3]string{"m", "m", "g(r.a, p.a) && own(r.b, p.b)"})
			st = c.setRM(st, m, "g", c.recorder("R"))
			st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), m, str("own"), own), "SetFunction").st
			if effector {
				st = c.one(c.call(st, c.m("model", "Model", "SetEffector"), m, str("e"), denied), "SetEffector").st
			}
			st = c.one(c.call(st, c.m("model", "Model", "BuildMatchers"), m), "BuildMatchers").st
			r := c.strs(st, str("p"), y[0], y[1])
			st = c.one(c.call(st, c.m("model", "Model", "AddRule"), m, r), "AddRule").st
			var os []Outcome
			switch how {
			case "pointer":
				os = c.seq(rule, cons, []*State{st}, func(st *State) []Outcome {
					return c.call(st, c.fn("", "NewEnforcer"), &Iface{mT, m}, nilAny, c.optSlice(st))
				})
			case "value":
				os = c.seq(rule, cons, []*State{st}, func(st *State) []Outcome {
					return c.call(st, c.fn("", "NewEnforcer"), &Iface{mT.(*types.Pointer).Elem(), st.load(m.(*Ptr))}, nilAny, c.optSlice(st))
				})
			case "SetModel":
				st, other := c.builtModel(st)
				st, enf := c.enforcer(st, other)
				os = c.seq(rule, cons, []*State{st}, func(st *State) []Outcome {
					return c.call(st, c.enf("SetModel"), enf, &Iface{mT, m})
				})
				for i := range os {
					os[i].rets = []Val{enf, nilErr}
				}
			}
			for _, o := range os {
				c.ob(rule, cons, negate(c.isErr(o.st, o.rets[1])), o.st, token.NoPos, "the model is refused: %s", o.st.show(o.rets[1]))
				if c.isErr(o.st, o.rets[1]) != tNo {
					continue
				}
				enf := o.rets[0]
				for _, q := range c.seq(rule, cons, []*State{o.st}, func(st *State) []Outcome { return c.call(st, c.enf("Enforce"), enf, c.anys(st, x...)) }) {
					got := allOf(c.truth(q.st, q.rets[0]), negate(c.isErr(q.st, q.rets[1])))
					if effector {
						c.ob(rule, cons, negate(got), q.st, token.NoPos, "the effector of the model denies everything, Enforce returns %s", q.st.show(q.rets[0]))
						continue
					}
					for _, b := range c.x.split(q.st, T("in:linked:R", tBool, x[0], y[0])) {
						for _, d := range c.x.split(b.st, T("in:linked:own", tBool, x[1], y[1])) {
							t := c.truth(d.st, q.rets[0])
							if !(b.v && d.v) {
								t = negate(t)
							}
							c.ob(rule, cons, allOf(t, negate(c.isErr(d.st, q.rets[1]))), d.st, token.NoPos, "the rule of the model matches: %v, Enforce returns %s, %s", b.v && d.v, d.st.show(q.rets[0]), d.st.show(q.rets[1]))
						}
					}
				}
				for _, q := range c.seq(rule, cons, []*State{o.st}, func(st *State) []Outcome { return c.call(st, c.enf("AddRule"), enf, c.strs(st, str("p"), y[0], y[1])) }) {
					c.ob(rule, cons, negate(c.truth(q.st, q.rets[0])), q.st, token.NoPos, "the rule of the model can be added again")
				}
			}
		}
	}
}

// fileEnforcer: rules of the file are loaded and changes are written to it.
func (c *C) fileEnforcer(cons string, enf Val, auto bool, st *State) {
	for _, o := range c.call(st, c.enf("GetModel"), enf) {
		m := o.st.norm(o.rets[0]).(*Iface).val
		lst := func(vs ...string) Val { return o.st.snap(c.strs(o.st, strVals(vs)...)) }
		a, g, n := lst("p", "alice", "data1"), lst("g", "alice", "admin"), lst("p", "bob", "data2")
		for _, r := range c.modelRules(o.st, m) {
			c.ob("create", cons, c.sameSet(r.st, r.set, []Val{a, g}), r.st, token.NoPos, "the rules loaded from the file are %s", showVals(r.st, r.set))
		}
		for _, q := range c.seq("create", cons, []*State{o.st}, func(st *State) []Outcome {
			return c.call(st, c.enf("AddRule"), enf, c.strs(st, str("p"), str("bob"), str("data2")))
		}) {
			f := &fileSys{c: c}
			for _, ao := range c.call(q.st, c.enf("GetAdapter"), enf) {
				i, ok := ao.st.norm(ao.rets[0]).(*Iface)
				if !ok {
					continue
				}
				read := func(st *State, want []Val, what string) {
					mark := st.trace
					for _, r := range c.icall(st, i, "LoadPolicy", c.sink()) {
						if !c.noPanic("create", cons, r) {
							continue
						}
						var got []Val
						for _, e := range eventsOf(r.st, mark, "loaded") {
							got = append(got, e.args[0])
						}
						c.ob("create", cons, c.sameSet(r.st, got, want), r.st, token.NoPos, "%s: the file contains %s, expected is %s", what, showVals(r.st, got), showVals(r.st, want))
					}
				}
				if auto {
					read(ao.st, []Val{a, g, n}, "AddRule with autosave")
				} else {
					read(ao.st, []Val{a, g}, "AddRule without autosave")
				}
				for _, r := range c.seq("create", cons, []*State{ao.st}, func(st *State) []Outcome { return c.call(st, c.enf("Flush"), enf) }) {
					c.ob("create", cons, negate(c.isErr(r.st, r.rets[0])), r.st, token.NoPos, "Flush fails: %s", r.st.show(r.rets[0]))
					read(r.st, []Val{a, g, n}, "Flush")
				}
				for _, r := range c.seq("create", cons, []*State{ao.st}, func(st *State) []Outcome { return c.call(st, c.enf("SavePolicy"), enf) }) {
					c.ob("create", cons, negate(c.isErr(r.st, r.rets[0])), r.st, token.NoPos, "SavePolicy fails: %s", r.st.show(r.rets[0]))
					read(r.st, []Val{a, g, n}, "SavePolicy")
				}
			}
			_ = f
		}
	}
}

func init() {
	register(&Check{
		id:        "C14",
		technique: "abstract interpretation of entry sequences that exchange adapter and model, with two adapters and two models",
		rules: map[string]string{
			"adapter":  "after SetAdapter every change is stored exactly once by the new adapter and never by the old one, and rules are loaded from and saved to the new one",
			"model":    "after SetModel rules and decisions are those of the new model; its changes are stored exactly once, changes of a former model are not stored",
			"settings": "SetModel keeps the settings for autosave and storage, SetAdapter the setting for autosave",
			"create":   "NewEnforcer uses the model and the adapter it is given: a file name, an adapter or nil (nothing is stored); other models, missing files and failing options are errors",
		},
		run: runC14,
	})
}
