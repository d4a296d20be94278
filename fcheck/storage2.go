package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// replay applies the successful writes of the adapter to a set of rules.
func (c *C) replay(st *State, stored ...Val) []setState {
	cur := []setState{{st, stored}}
	for _, a := range adapterCalls(st, nil) {
		if a.fail {
			continue
		}
		for _, op := range a.ops {
			var nxt []setState
			for _, s := range cur {
				for _, mb := range c.member(s, op.rule) {
					switch {
					case op.add && mb.idx < 0:
						nxt = append(nxt, setState{mb.st, append(append([]Val{}, s.set...), op.rule)})
					case !op.add && mb.idx >= 0:
						nxt = append(nxt, setState{mb.st, without(s.set, mb.idx)})
					default:
						nxt = append(nxt, setState{mb.st, s.set})
					}
				}
			}
			cur = nxt
		}
	}
	return cur
}

// modelRules enumerates the rules of the model.
func (c *C) modelRules(st *State, model Val) []setState {
	mark := st.trace
	var out []setState
	for _, o := range c.call(st, c.m("model", "Model", "RangeRules"), model, collector(boolean(true))) {
		if o.kind == oRet {
			out = append(out, setState{o.st, callbackArgs(o.st, mark)})
		}
	}
	return out
}

// registered: policies and role managers registered by SetPolicy and
// SetRoleManager, with or without a definition, are enumerated and saved.
func (c *C) registered() {
	m := func(name string) *ssa.Function { return c.m("model", "Model", name) }
	for _, cons := range []string{"NewRoleManager", "NewDomainManager"} {
		for _, defined := range []bool{false, true} {
			c.scenario("SetPolicy(p2), SetRoleManager(g2, %s), definitions of the keys: %v, rules, RangeRules and SavePolicy", cons, defined)
			ds := c.modelDefs()
			if defined {
				ds = append(ds, [3]string{"p", "p2", "a, b"}, [3]string{"g", "g2", "_,_"})
			}
			st, model := c.newModel(c.start(), ds...)
			o := c.one(c.call(st, c.fn("rbac", cons), num(10)), cons)
			rm := &Iface{c.ptr("rbac", strings.TrimPrefix(cons, "New")), o.rets[0]}
			o = c.one(c.call(o.st, m("SetRoleManager"), model, str("g2"), rm), "SetRoleManager")
			d := c.one(c.call(o.st, c.fn("model/defs", "NewPolicyDef"), str("p2"), str("a, b")), "NewPolicyDef")
			q := c.one(c.call(d.st, c.fn("model/policy", "NewPolicy"), d.rets[0]), "NewPolicy")
			o = c.one(c.call(q.st, m("SetPolicy"), model, str("p2"), &Iface{c.ptr("model/policy", "Policy"), q.rets[0]}), "SetPolicy")
			o = c.one(c.call(o.st, m("BuildMatchers"), model), "BuildMatchers")
			st, enf := c.enforcerWith(o.st, model, c.adapter("A", 0, nil, "SimpleAdapter"))
			cur := []*State{st}
			var want []Val
			for _, k := range []string{"p", "p2", "g", "g2"} {
				if len(cur) > 1 {
					panic(abort{"AddRule of constants has more than one path"})
				}
				cur = states(c.seq("save", cons, cur, func(st *State) []Outcome {
					r, content := c.rule3(st, k, str(k+"-a"), str(k+"-b"))
					want = append(want, content)
					return c.call(st, c.enf("AddRule"), enf, r)
				}))
			}
			for _, st := range cur {
				for _, r := range c.modelRules(st, model) {
					c.ob("save", cons, c.sameSet(r.st, r.set, want), r.st, token.NoPos, "RangeRules enumerates %s, expected are %s", showVals(r.st, r.set), showVals(r.st, want))
				}
				mark := st.trace
				for _, o := range c.seq("save", cons, []*State{st}, func(st *State) []Outcome { return c.call(st, c.enf("SavePolicy"), enf) }) {
					var got []Val
					for _, e := range eventsOf(o.st, mark, "save") {
						got = append(got, e.args[0])
					}
					c.ob("save", cons, c.sameSet(o.st, got, want), o.st, token.NoPos, "SavePolicy saves %s, the rules are %s", showVals(o.st, got), showVals(o.st, want))
				}
			}
		}
	}
}

// batches without rules or with a single one
var smallBatches = []string{"addall", "addall 1", "removeall 1", "removeall", "add 0", "flush"}

func init() {
	register(&Check{
		id:        "C10",
		technique: "abstract interpretation of histories of rule changes with a failing adapter; the calls of the adapter are replayed and compared with the rules of the model",
		rules: map[string]string{
			"replica": "when Flush reports success the rules the adapter has stored are exactly the rules of the enforcer",
			"save":    "SavePolicy passes every rule of the enforcer exactly once to the adapter, with its key, and nothing else",
			"load":    "after LoadPolicy the enforcer has its former rules and all rules of the adapter",
		},
		run: func(c *C) {
			depth := 3
			if c.thorough {
				depth = 4
			}
			saved := func(s *storeSys) func(h sst) {
				return func(h sst) {
					mark := h.st.trace
					for _, o := range c.call(h.st, c.m("", "Enforcer", "SavePolicy"), s.enf) {
						if o.kind != oRet || c.isErr(o.st, o.rets[0]) != tNo {
							continue
						}
						var got []Val
						for _, e := range eventsOf(o.st, mark, "save") {
							got = append(got, e.args[0])
						}
						c.ob("save", s.kind, c.sameSet(o.st, got, h.set), o.st, token.NoPos, "%ssave: %s is saved, the rules are %s", h.desc, showVals(o.st, got), showVals(o.st, h.set))
					}
				}
			}
			check := func(s *storeSys) func(h sst) {
				return func(h sst) {
					st := h.st.clone()
					for _, o := range c.call(st, c.m("", "Enforcer", "Flush"), s.enf) {
						if o.kind != oRet || c.isErr(o.st, o.rets[0]) != tNo {
							continue
						}
						for _, r := range c.replay(o.st) {
							for _, m := range c.modelRules(r.st, s.model) {
								c.ob("replica", s.kind, c.sameSet(m.st, r.set, m.set), m.st, token.NoPos, "%sflush: the adapter has stored %s, the rules of the enforcer are %s", h.desc, showVals(m.st, r.set), showVals(m.st, m.set))
							}
						}
					}
					saved(s)(h)
				}
			}
			c.registered()
			// with rules the storage had before
			loaded := func(s *storeSys) func(h sst) {
				return func(h sst) {
					st := h.st.clone()
					var stored []Val
					for _, l := range s.loads {
						stored = append(stored, st.snap(c.strs(st, l...)))
					}
					for _, o := range c.call(st, c.m("", "Enforcer", "Flush"), s.enf) {
						if o.kind != oRet || c.isErr(o.st, o.rets[0]) != tNo {
							continue
						}
						for _, r := range c.replay(o.st, stored...) {
							for _, m := range c.modelRules(r.st, s.model) {
								c.ob("replica", s.kind, c.sameSet(m.st, r.set, m.set), m.st, token.NoPos, "%sflush: the adapter has stored %s, the rules of the enforcer are %s", h.desc, showVals(m.st, r.set), showVals(m.st, m.set))
							}
						}
					}
				}
			}
			for _, k := range kindsOrdered {
				for _, first := range [][]string{{"addall 02"}, {"autosave on", "add 0"}} {
					s := c.storeSys(k, 0, nil)
					s.explore(1, first, []string{"load"}, loaded(s))
					s.explore(1, append(append([]string{}, first...), "load"), []string{"add 1", "remove 0", "flush", "load"}, loaded(s))
				}
			}
			for _, k := range kindsOrdered {
				s := c.storeSys(k, 1, nil)
				d := depth
				if k == "Simple+BatchAdapter" {
					d--
				}
				s.explore(d, nil, []string{"add 0", "add 1", "remove 0", "addall 12", "removeall 02"}, check(s))
				s = c.storeSys(k, 1, nil)
				s.explore(d-1, []string{"autosave on"}, []string{"add 0", "remove 0", "addall 12", "removeall 02"}, check(s))
				s.explore(d-1, []string{"autosave on"}, smallBatches, check(s))
				var ops []string
				for _, op := range allOps {
					if v, _ := verbKind(op); v != "storage" && v != "load" {
						ops = append(ops, op)
					}
				}
				for i, first := range [][]string{{"autosave on"}, {"add 2"}} {
					if k != "Simple+BatchAdapter" || i == 0 {
						s = c.storeSys(k, 1, nil)
						s.explore(2, first, ops, check(s))
					}
				}
				for _, first := range [][]string{{"storage off"}, {"add 0", "storage off"}, {"autosave on", "storage off", "add 1"}} {
					s = c.storeSys(k, 1, nil)
					s.explore(2, first, []string{"add 0", "removeall 02", "addall 12", "save", "load", "storage on", "flush"}, saved(s))
				}
				s = c.storeSys(k, 1, nil)
				s.explore(2, []string{"storage off", "add 0"}, []string{"load", "add 1", "storage on"}, func(h sst) {
					for _, m := range c.modelRules(h.st, s.model) {
						c.ob("load", s.kind, c.sameSet(m.st, m.set, h.set), m.st, token.NoPos, "%s: the rules are %s, expected are %s", h.desc, showVals(m.st, m.set), showVals(m.st, h.set))
					}
				})
				s = c.storeSys(k, 1, nil)
				s.explore(2, []string{"addall 02"}, []string{"load", "add 1", "remove 2"}, func(h sst) {
					for _, m := range c.modelRules(h.st, s.model) {
						c.ob("load", s.kind, c.sameSet(m.st, m.set, h.set), m.st, token.NoPos, "%s: the rules are %s, expected are %s", h.desc, showVals(m.st, m.set), showVals(m.st, h.set))
					}
				})
			}
		},
	})
	register(&Check{
		id:        "C11",
		technique: "abstract interpretation of histories of rule changes and settings, calls of the adapter compared with a specification automaton",
		rules: map[string]string{
			"prompt":   "with autosave every change of AddRule, RemoveRule, AddRules and RemoveRules has been stored when the call returns (AddWait(n): when n changes have gathered)",
			"early":    "without autosave, while changes are awaited, or by an operation that changes nothing, nothing is stored before Flush",
			"settings": "the settings for autosave and storage change only when they are set; every operation leaves them as they were, also when it fails",
			"order":    "changes made while the storage is disabled are not stored, not even later; the others are",
		},
		run: func(c *C) {
			depth := 3
			if c.thorough {
				depth = 4
			}
			facets := map[string]string{"prompt": "prompt", "early": "early", "settings": "settings", "order": "order", "lost": "order"}
			for _, k := range kindsOrdered {
				s := c.storeSys(k, 1, facets)
				d := depth
				if k == "Simple+BatchAdapter" {
					d--
				}
				s.explore(d, []string{"autosave on"}, []string{"add 0", "remove 0", "addall 12", "removeall 01", "autosave off"}, nil)
				s.explore(d, nil, []string{"add 0", "remove 0", "addall 12", "autosave on", "flush"}, nil)
				s.explore(d, []string{"add 0"}, []string{"storage off", "storage on", "add 1", "removeall 10", "flush"}, nil)
				s.explore(d, []string{"autosave on", "wait 2"}, []string{"add 0", "remove 0", "add 2", "addall 12", "flush"}, nil)
				s.explore(2, []string{"autosave on", "wait 3", "add 0"}, []string{"add 1", "add 2", "remove 0", "wait 1"}, nil)
				s.explore(2, nil, []string{"load", "save", "autosave on", "storage off", "add 0"}, nil)
				s.explore(2, []string{"autosave on"}, smallBatches, nil)
				s.explore(2, nil, smallBatches, nil)
				s.explore(2, []string{"autosave on", "wait 2"}, smallBatches, nil)
				s.failingBatch()
				s.breadth(c.thorough)
			}
		},
	})
	register(&Check{
		id:        "C12",
		technique: "abstract interpretation of LoadPolicy within histories, calls of the adapter compared with a specification automaton",
		rules: map[string]string{
			"echo":     "rules loaded by LoadPolicy are never written back to the adapter, neither by LoadPolicy nor by a later Flush or autosave",
			"settings": "LoadPolicy leaves storage and autosave enabled or disabled as they were, also when it fails",
			"order":    "changes made before and after LoadPolicy are stored as usual",
		},
		run: func(c *C) {
			depth := 3
			if c.thorough {
				depth = 4
			}
			facets := map[string]string{"echo": "echo", "settings": "settings", "order": "order", "lost": "order"}
			c.fileLoads()
			for _, k := range kindsOrdered {
				s := c.storeSys(k, 2, facets)
				d := depth
				if k == "Simple+BatchAdapter" {
					d--
				}
				s.explore(d, nil, []string{"load", "add 0", "flush", "remove 0"}, func(h sst) { s.step(h, "flush") })
				s.explore(d, []string{"autosave on"}, []string{"load", "add 0", "removeall 02", "storage off", "autosave off"}, nil)
				s.explore(2, []string{"storage off"}, []string{"load", "add 0", "storage on", "flush"}, nil)
				s.explore(2, []string{"autosave on", "load"}, []string{"addall", "addall 1", "removeall 2", "load", "flush"}, nil)
				s = c.storeSys(k, 1, facets)
				s.breadth(c.thorough)
			}
		},
	})
	register(&Check{
		id:        "C13",
		technique: "abstract interpretation of the storage operations with a failing adapter (fault propagation on every path)",
		rules: map[string]string{
			"report": "if a call of the adapter fails, the operation that caused the call (Flush, LoadPolicy, SavePolicy, or with autosave AddRule, RemoveRule, AddRules, RemoveRules) returns an error",
			"clean":  "if no call of the adapter fails and the rules are valid, no error is returned, also not after an earlier failure",
			"type":   "an adapter that can store neither rules nor batches makes Flush fail",
		},
		run: func(c *C) {
			depth := 3
			if c.thorough {
				depth = 4
			}
			facets := map[string]string{"report": "report", "clean": "clean", "panic": "report"}
			for _, k := range kindsOrdered {
				s := c.storeSys(k, 2, facets)
				d := depth
				if k == "Simple+BatchAdapter" {
					d--
				}
				s.explore(d, nil, []string{"addall 012", "removeall 02", "flush", "load", "save"}, nil)
				s.explore(d, []string{"autosave on"}, []string{"add 0", "remove 0", "addall 12", "removeall 01", "flush"}, nil)
				s.explore(2, []string{"autosave on", "wait 2"}, []string{"add 0", "add 1", "flush", "load"}, nil)
				s.explore(d, []string{"autosave on"}, smallBatches, nil)
				s.explore(2, nil, smallBatches, nil)
				s = c.storeSys(k, 1, facets)
				s.breadth(c.thorough)
			}
			c.plainAdapter()
		},
	})
}

// plainAdapter: an adapter without the methods to store rules.
func (c *C) plainAdapter() {
	c.scenario("adapter without AddRule and AddRules")
	ad := c.adapter("plain", 0, nil, "Adapter")
	st, model := c.newModel(c.start(), [3]string{"p", "p", "a, b"})
	st, enf := c.enforcerWith(st, model, ad)
	for _, o := range c.call(st, c.m("", "Enforcer", "AddRule"), enf, c.strs(st, str("p"), in("x0"), in("x1"))) {
		if o.kind != oRet {
			continue
		}
		for _, q := range c.call(o.st, c.m("", "Enforcer", "Flush"), enf) {
			if c.noPanic("type", "Enforcer.Flush", q) {
				c.ob("type", "Enforcer.Flush", c.isErr(q.st, q.rets[0]), q.st, token.NoPos, "the adapter can't store the pending change but Flush returns no error")
			}
		}
	}
}

// failingBatch: AddRules and RemoveRules with an invalid rule keep the settings and store what has been changed.
func (s *storeSys) failingBatch() {
	c := s.c
	for _, name := range []string{"AddRules", "RemoveRules"} {
		for _, auto := range []bool{true, false} {
			c.scenario("%s: %s with an invalid rule (autosave: %v)", s.kind, name, auto)
			st := s.st.clone()
			base := sst{st: st, enabled: true}
			first := []string{"add 0"}
			if auto {
				first = append(first, "autosave on")
			}
			cur := []sst{base}
			for _, op := range first {
				var nxt []sst
				for _, h := range cur {
					nxt = append(nxt, s.step(h, op)...)
				}
				cur = nxt
			}
			for _, h := range cur {
				st := h.st.clone()
				var rs []Val
				rs = append(rs, c.strs(st, s.rules[0]...), c.strs(st, s.rules[1]...), c.strs(st, str("zz"), in("q0")), c.strs(st, s.rules[2]...))
				mark := st.trace
				for _, o := range c.call(st, c.m("", "Enforcer", name), s.enf, c.strss(st, rs...)) {
					if o.kind != oRet {
						continue
					}
					for _, q := range c.call(o.st, c.m("storage", "StorageController", "AutosaveEnabled"), s.sc) {
						t := c.truth(q.st, q.rets[0])
						if !auto {
							t = negate(t)
						}
						c.ob("settings", s.kind+" Enforcer."+name, t, q.st, token.NoPos, "autosave was %v before %s failed and is %s afterwards", auto, name, q.st.show(q.rets[0]))
						if auto && len(faults(q.st, mark)) == 0 {
							for _, r := range c.replay(q.st) {
								for _, m := range c.modelRules(r.st, s.model) {
									c.ob("prompt", s.kind+" Enforcer."+name, c.sameSet(m.st, r.set, m.set), m.st, token.NoPos, "%s failed after some changes: stored are %s, the rules are %s", name, showVals(m.st, r.set), showVals(m.st, m.set))
								}
							}
						}
					}
				}
			}
		}
	}
}

var _ = constant.MakeBool
var _ = types.Typ

// fileLoads: an enforcer that is created with a policy file, the rules it loads stay in the file only.
func (c *C) fileLoads() {
	const cons = "NewEnforcer(file)"
	for _, opts := range [][]string{nil, {"OptionAutosave"}, {"OptionStorage"}, {"OptionStorage", "OptionAutosave"}} {
		st := c.start()
		st.fsPut(str(policyPath), str("p, alice, data1\ng, alice, admin\n"))
		st, m := c.builtModel(st)
		var os []Val
		for _, n := range opts {
			var o Val
			st, o = c.option(st, n, true)
			os = append(os, o)
		}
		c.scenario("NewEnforcer with a policy file and the options %v", opts)
		mark := st.trace
		quiet := func(what string, o Outcome, err int) bool {
			if !c.noPanic("echo", cons, o) {
				return false
			}
			c.ob("echo", cons, triOf(len(eventsOf(o.st, mark, "fs")) == 0), o.st, token.NoPos, "%s with the options %v: the file is written although no rule was changed", what, opts)
			return c.isErr(o.st, o.rets[err]) == tNo
		}
		for _, o := range c.call(st, c.fn("", "NewEnforcer"), &Iface{c.ptr("model", "Model"), m}, &Iface{tString, str(policyPath)}, c.optSlice(st, os...)) {
			if !quiet("NewEnforcer", o, 1) {
				continue
			}
			enf := o.rets[0]
			for _, p := range c.call(o.st.clone(), c.enf("Flush"), enf) {
				quiet("NewEnforcer, Flush", p, 0)
			}
			for _, l := range c.call(o.st, c.enf("LoadPolicy"), enf) {
				if !quiet("NewEnforcer, LoadPolicy", l, 0) {
					continue
				}
				for _, p := range c.call(l.st.clone(), c.enf("Flush"), enf) {
					quiet("NewEnforcer, LoadPolicy, Flush", p, 0)
				}
				// a change that is made afterwards is the only one that is pending
				ch := l.st.clone()
				for _, a := range c.call(ch, c.enf("RemoveRule"), enf, c.strs(ch, str("p"), str("alice"), str("data1"))) {
					if !c.noPanic("echo", cons, a) {
						continue
					}
					for _, p := range c.call(a.st, c.enf("Flush"), enf) {
						if !c.noPanic("echo", cons, p) || c.isErr(p.st, p.rets[0]) != tNo {
							continue
						}
						na := c.one(c.call(p.st, c.fn("storage/adapter", "NewFileAdapter"), str(policyPath)), "NewFileAdapter")
						mark := na.st.trace
						for _, r := range c.icall(na.st, &Iface{c.ptr("storage/adapter", "FileAdapter"), na.rets[0]}, "LoadPolicy", c.sink()) {
							if !c.noPanic("order", cons, r) {
								continue
							}
							var got []Val
							for _, e := range eventsOf(r.st, mark, "loaded") {
								got = append(got, e.args[0])
							}
							c.ob("order", cons, c.sameSet(r.st, got, []Val{r.st.snap(c.strs(r.st, str("g"), str("alice"), str("admin")))}), r.st, token.NoPos, "after RemoveRule and Flush the file contains %s", showVals(r.st, got))
						}
					}
				}
			}
		}
	}
}
