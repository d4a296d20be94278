package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: rules are never confused. C21: caches. C22: iterations.

var trickyLists = [][]string{
	{"a", "b"}, {"a,b"}, {`a","b`}, {`"a","b"`}, {"a", "", "b"}, {"a", ""}, {"", "a"}, {"a"}, {""}, {"", ""}, {"", "", ""},
	{"a", "b", ""}, {"", "a", "b"}, {"a b"}, {"a", "b,c"}, {"a,b", "c"}, {"a", "b", "c"}, {`a\`, `b`}, {`a\","b`}, {"a;b"}, {"a::b"}, {"a", ":b"}, {"a:", "b"},
	{"a/b"}, {"a\nb"}, {"a\x00b"}, {"a\x00", "b"}, {"a", "\x00b"}, {"1:a"}, {"1", "a"}, {"A", "b"}, {" a", "b"}, {"a ", "b"}, {"\xff", "b"}, {"\xfe", "b"}, {"\ufffd", "b"}, {"a|b"}, {"a$$b"}, {"a#b"}, {"a\tb"},
}

func runC06(c *C) {
	// the key of a rule
	hash := c.fn("util", "Hash")
	c.scenario("keys of %d constant rules", len(trickyLists))
	byKey := map[string][]string{}
	st := c.start()
	for _, l := range trickyLists {
		for _, o := range c.call(st, hash, c.strs(st, strVals(l)...)) {
			if !c.noPanic("key", "util.Hash", o) {
				continue
			}
			k := K(o.st.norm(o.rets[0]))
			if _, ok := o.st.norm(o.rets[0]).(*Const); !ok {
				c.ob("key", "util.Hash", tUnknown, o.st, token.NoPos, "")
				continue
			}
			if old, ok := byKey[k]; ok {
				c.ob("key", "util.Hash", tNo, o.st, token.NoPos, "the rules %q and %q have the same key %s", old, l, k)
			} else {
				c.ob("key", "util.Hash", tYes, o.st, token.NoPos, "")
			}
			byKey[k] = l
		}
	}
	max := 3
	if c.thorough {
		max = 4
	}
	for n := 1; n <= max; n++ {
		for m := 1; m <= n; m++ {
			c.scenario("keys of two arbitrary rules with %d and %d values", n, m)
			st := c.start()
			a, b := c.strs(st, inVals("x", n)...), c.strs(st, inVals("y", m)...)
			for _, o := range c.call(st, hash, a) {
				for _, q := range c.call(o.st, hash, b) {
					if !c.noPanic("key", "util.Hash", q) {
						continue
					}
					for _, s := range c.splitEq(q.st, o.rets[0], q.rets[0]) {
						t := c.same(s.st, a, b)
						if !s.v {
							t = negate(t)
						}
						c.ob("key", "util.Hash", t, s.st, token.NoPos, "two rules have equal keys: %v, equal values: %s", s.v, []string{"no", "yes", "maybe", "unknown"}[c.same(s.st, a, b)])
					}
				}
			}
		}
	}
	c.mixedLengths("confusion")
	c.distinct()
	c.domains()
}

// mixedLengths: policies keep rules of different lengths apart.
func (c *C) mixedLengths(tag string) {
	for _, rs := range c.ruleSets() {
		min := 1
		role := strings.Contains(rs.name, "RolePolicy")
		if role {
			min = 2
		}
		if strings.HasPrefix(rs.name, "model.Model") || strings.HasSuffix(rs.name, "/RoleManager") || rs.name == "policy.Policy" && rs.n != 3 {
			continue
		}
		// constants
		c.scenario("%s: rules with similar values", rs.name)
		var lists [][]string
		for _, l := range trickyLists {
			if role {
				l = append([]string{"u"}, l...)
			}
			if len(l) >= min {
				lists = append(lists, l)
			}
		}
		cur := []*State{rs.st}
		step := func(what string, f func(st *State, r Val) []Outcome, ls [][]string, want bool) {
			for _, l := range ls {
				var nxt []*State
				for _, st := range cur {
					for _, o := range f(st, c.strs(st, strVals(l)...)) {
						if !c.noPanic(tag, rs.name, o) {
							continue
						}
						t := c.truth(o.st, o.rets[0])
						if !want {
							t = negate(t)
						}
						c.ob(tag, rs.name, t, o.st, token.NoPos, "%s(%q) returns %s, other rules with similar values are present", what, l, o.st.show(o.rets[0]))
						nxt = append(nxt, o.st)
					}
				}
				cur = nxt
			}
		}
		check := func(ls [][]string) {
			for _, st := range cur {
				var set []Val
				for _, l := range ls {
					set = append(set, st.snap(c.strs(st, strVals(l)...)))
				}
				mark := st.trace
				for _, o := range rs.rang(st, collector(boolean(true))) {
					if !c.noPanic(tag, rs.name, o) {
						continue
					}
					var got []Val
					for _, e := range eventsOf(o.st, mark, "callback") {
						got = append(got, e.args[0])
					}
					c.ob(tag, rs.name, c.sameSet(o.st, got, set), o.st, token.NoPos, "%d rules are present, %d are enumerated: %s", len(set), len(got), showVals(o.st, got))
					break // the order does not matter
				}
			}
		}
		var even, odd [][]string
		for i, l := range lists {
			if i%2 == 0 {
				even = append(even, l)
			} else {
				odd = append(odd, l)
			}
		}
		step("AddRule", rs.add, even, true)
		step("RemoveRule", rs.remove, odd, false)
		step("AddRule", rs.add, odd, true)
		check(lists)
		step("AddRule", rs.add, lists, false)
		step("RemoveRule", rs.remove, even, true)
		check(odd)
		// arbitrary values
		for n := min; n <= min+2; n++ {
			for m := min; m <= min+2; m++ {
				if m == n {
					continue
				}
				c.scenario("%s: two arbitrary rules with %d and %d values", rs.name, n, m)
				for _, verb := range []string{"AddRule", "RemoveRule"} {
					for _, o := range rs.add(rs.st, c.strs(rs.st, inVals("x", n)...)) {
						f := rs.add
						if verb == "RemoveRule" {
							f = rs.remove
						}
						for _, q := range f(o.st, c.strs(o.st, inVals("y", m)...)) {
							if !c.noPanic(tag, rs.name, q) {
								continue
							}
							t := c.truth(q.st, q.rets[0])
							if verb == "RemoveRule" {
								t = negate(t)
							}
							c.ob(tag, rs.name, t, q.st, token.NoPos, "with a rule of %d values %s of a rule of %d values returns %s", n, verb, m, q.st.show(q.rets[0]))
						}
					}
				}
			}
		}
	}
}

// distinct: GetDistinct returns every combination of values once.
func (c *C) distinct() {
	type sys struct {
		name string
		st   *State
		recv Val
		typ  types.Type
	}
	st, p := c.newPolicy(c.start(), "p", "a,b,c")
	all := []sys{{"policy.Policy", st, p, c.ptr("model/policy", "Policy")}}
	st, dm := c.newDM(c.start())
	o := c.one(c.call(st, c.fn("rbac", "NewRolePolicy"), &Iface{c.ptr("rbac", "DomainManager"), dm}), "NewRolePolicy")
	all = append(all, sys{"rbac.RolePolicy", o.st, o.rets[0], c.ptr("rbac", "RolePolicy")})
	n := 2
	for _, s := range all {
		if c.thorough && s.name == "policy.Policy" {
			n = 3
		} else {
			n = 2
		}
		cur := []*State{s.st}
		rules := [][]Val{inVals("x", 3), inVals("y", 3), inVals("z", 3)}[:n]
		if s.name == "rbac.RolePolicy" { // fewer cases: the domain is fixed
			for i := range rules {
				rules[i][2] = str("d")
			}
		}
		for _, r := range rules {
			cur = states(c.seq("distinct", s.name+".AddRule", cur, func(st *State) []Outcome {
				return c.call(st, c.meth(s.typ, "AddRule"), s.recv, c.strs(st, r...))
			}))
		}
		for _, cols := range [][]int{{0}, {1}, {2}, {0, 1}, {1, 0}, {2, 1}, {0, 1, 2}, {1, 1}} {
			c.scenario("%s.GetDistinct(%v) of %d arbitrary rules", s.name, cols, n)
			for _, st := range cur {
				var cv []Val
				for _, i := range cols {
					cv = append(cv, num(i))
				}
				// expected
				exp := []setState{{st, nil}}
				for _, r := range rules {
					var vs []Val
					for _, i := range cols {
						vs = append(vs, r[i])
					}
					pr := st.snap(c.strs(st, vs...))
					var nxt []setState
					for _, e := range exp {
						for _, mb := range c.member(e, pr) {
							if mb.idx >= 0 {
								nxt = append(nxt, setState{mb.st, e.set})
							} else {
								nxt = append(nxt, setState{mb.st, append(append([]Val{}, e.set...), pr)})
							}
						}
					}
					exp = nxt
				}
				for _, e := range exp {
					s0 := e.st.clone()
					for _, o := range c.call(s0, c.meth(s.typ, "GetDistinct"), s.recv, s0.newSlice(types.NewSlice(tInt), cv)) {
						if !c.noPanic("distinct", s.name+".GetDistinct", o) {
							continue
						}
						got := c.listOf(o.st, o.rets[0])
						c.ob("distinct", s.name+".GetDistinct", allOf(c.sameSet(o.st, got, e.set), negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "GetDistinct(%v) of the rules returns %s, expected is %s", cols, showVals(o.st, got), showVals(o.st, e.set))
					}
				}
			}
		}
		// one call after another, between changes
		{
			lits := map[string][]string{"A": {"k1", "k2", "d"}, "B": {"k1", "k4", "d"}, "C": {"k3", "k2", "d2"}}
			has := []string{}
			cur := []*State{s.st.clone()}
			desc := s.name
			for _, op := range []string{"add A", "?", "add B", "?", "add C", "?", "remove A", "?", "?", "add A", "?", "clear", "?", "add C", "?", "remove C", "?"} {
				verb, arg := verbKind(op)
				desc += "; " + op
				c.scenario("%s", desc)
				switch verb {
				case "add":
					has = append(has, arg)
					cur = states(c.seq("distinct", s.name+".AddRule", cur, func(st *State) []Outcome {
						return c.call(st, c.meth(s.typ, "AddRule"), s.recv, c.strs(st, strVals(lits[arg])...))
					}))
				case "remove":
					var rest []string
					for _, k := range has {
						if k != arg {
							rest = append(rest, k)
						}
					}
					has = rest
					cur = states(c.seq("distinct", s.name+".RemoveRule", cur, func(st *State) []Outcome {
						return c.call(st, c.meth(s.typ, "RemoveRule"), s.recv, c.strs(st, strVals(lits[arg])...))
					}))
				case "clear":
					has = nil
					cur = states(c.seq("distinct", s.name+".Clear", cur, func(st *State) []Outcome { return c.call(st, c.meth(s.typ, "Clear"), s.recv) }))
				default:
					for _, cols := range [][]int{{0}, {1}, {2}, {0, 1}, {1, 0}, {2, 1}, {0, 1, 2}, {1, 1}} {
						var cv []Val
						for _, i := range cols {
							cv = append(cv, num(i))
						}
						seen := map[string]bool{}
						var want [][]string
						for _, k := range has {
							var r []string
							for _, i := range cols {
								r = append(r, lits[k][i])
							}
							if !seen[strings.Join(r, ",")] {
								seen[strings.Join(r, ",")] = true
								want = append(want, r)
							}
						}
						var nxt []*State
						for _, o := range c.seq("distinct", s.name+".GetDistinct", cur, func(st *State) []Outcome {
							return c.call(st, c.meth(s.typ, "GetDistinct"), s.recv, st.newSlice(types.NewSlice(tInt), cv))
						}) {
							got := c.listOf(o.st, o.rets[0])
							var ws []Val
							for _, w := range want {
								ws = append(ws, o.st.snap(c.strs(o.st, strVals(w)...)))
							}
							c.ob("distinct", s.name+".GetDistinct", allOf(c.sameSet(o.st, got, ws), negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%s(%v) returns %s, expected is %s", desc, cols, showVals(o.st, got), showVals(o.st, ws))
							nxt = append(nxt, o.st)
						}
						cur = nxt
					}
				}
			}
		}
		for _, bad := range []int{-1, 3, 100} {
			c.scenario("%s.GetDistinct(%d)", s.name, bad)
			for _, st := range cur {
				s0 := st.clone()
				for _, o := range c.call(s0, c.meth(s.typ, "GetDistinct"), s.recv, s0.newSlice(types.NewSlice(tInt), []Val{num(0), num(bad)})) {
					if c.noPanic("distinct", s.name+".GetDistinct", o) {
						c.ob("distinct", s.name+".GetDistinct", c.isErr(o.st, o.rets[1]), o.st, token.NoPos, "GetDistinct of column %d returns no error", bad)
					}
				}
			}
		}
	}
}

// domains: domains are listed once each.
func (c *C) domains() {
	dt := c.ptr("rbac", "DomainManager")
	for _, ds := range [][][]Val{
		{{in("d")}, {in("e")}},
		{{str("a"), in("d")}, {str("a"), in("e")}},
		{{}, {in("d")}},
		{{str("a")}, {str("a"), in("d")}},
	} {
		st, dm := c.newDM(c.start())
		cur := []*State{st}
		c.scenario("domains %s and %s", showVals(st, ds[0]), showVals(st, ds[1]))
		for i, d := range ds {
			cur = states(c.seq("domains", "DomainManager.AddLink", cur, func(st *State) []Outcome {
				return c.call(st, c.meth(dt, "AddLink"), dm, str(fmt.Sprintf("u%d", i)), str("r"), c.strs(st, d...))
			}))
		}
		for _, st := range cur {
			for _, eq := range c.splitEq(st, st.snap(c.strs(st, ds[0]...)), st.snap(c.strs(st, ds[1]...))) {
				join := func(d []Val) Val {
					var ps []Val
					for i, v := range d {
						if i > 0 {
							ps = append(ps, str("/"))
						}
						ps = append(ps, v)
					}
					return eq.st.norm(cat(ps...))
				}
				all := []Val{join(ds[0]), join(ds[1])}
				u0, u1 := all[:1], all[1:]
				if eq.v {
					all = all[:1]
				}
				query := func(name string, want []Val, args ...Val) {
					for _, o := range c.call(eq.st, c.meth(dt, name), append([]Val{dm}, args...)...) {
						if !c.noPanic("domains", "DomainManager."+name, o) {
							continue
						}
						got := c.listOf(o.st, o.rets[0])
						c.ob("domains", "DomainManager."+name, allOf(c.sameSet(o.st, got, want), negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%s returns %s, expected is %s", name, showVals(o.st, got), showVals(o.st, want))
					}
				}
				query("GetAllDomains", all)
				query("GetDomains", u0, str("u0"))
				query("GetDomains", u1, str("u1"))
				query("GetDomains", all, str("r"))
				query("GetDomains", nil, str("nobody"))
			}
		}
	}
}

// ---- C21 ----

func runC21(c *C) {
	depth := 4
	if c.thorough {
		depth = 5
	}
	for _, tn := range []string{"LRUCache", "SyncLRUCache"} {
		for capa := 1; capa <= 2; capa++ {
			d := depth
			if capa == 2 && d < 5 {
				d = 5 // an entry that was used is kept longer than one that was put later
			}
			c.cacheHistories(tn, capa, d, -1)
		}
	}
	// one of the values is nil
	for op := 0; op < depth-1; op++ {
		d := depth
		if op == 0 && d < 5 {
			d = 5
		}
		c.cacheHistories("LRUCache", 2, d, op)
		if op < 2 {
			c.cacheHistories("SyncLRUCache", 1, depth-1, op)
		}
	}
	// longer histories of larger caches, with constant keys
	more := 5
	if c.thorough {
		more = 6
	}
	c.cacheKeys("LRUCache", 3, 3+more, 99, 5, 3)
	c.cacheKeys("SyncLRUCache", 3, 6, 99, 5, 3)
	c.cacheKeys("LRUCache", 4, 4+more-1, 99, 6, 4)
	c.scenario("a cache without capacity")
	for _, tn := range []string{"LRUCache", "SyncLRUCache"} {
		for _, capa := range []int{0, -1} {
			o := c.one(c.call(c.start(), c.fn("util", "New"+tn), num(capa)), "New"+tn)
			t := c.ptr("util", tn)
			for _, q := range c.call(o.st, c.meth(t, "Put"), o.rets[0], &Iface{tString, str("k")}, &Iface{tString, str("v")}) {
				if !c.noPanic("bounded", tn, q) {
					continue
				}
				for _, r := range c.call(q.st, c.meth(t, "Get"), o.rets[0], &Iface{tString, str("k")}) {
					if c.noPanic("bounded", tn, r) {
						c.ob("bounded", tn, tYes, r.st, token.NoPos, "")
					}
				}
			}
		}
	}
}

type cacheState struct {
	st   *State
	ents [][2]Val // key, value; most recently used last
	desc string
}

// cacheHistories: a cache never returns anything but the last value of a key.
func (c *C) cacheHistories(tn string, capa, depth, special int) {
	c.cacheKeys(tn, capa, depth, special, 3, 0)
}

// cacheKeys: histories over some keys, the first operations put new ones.
func (c *C) cacheKeys(tn string, capa, depth, special, nkeys, prefix int) {
	t := c.ptr("util", tn)
	o := c.one(c.call(c.start(), c.fn("util", "New"+tn), num(capa)), "New"+tn)
	recv := o.rets[0]
	cur := []cacheState{{o.st, nil, fmt.Sprintf("%s(%d):", tn, capa)}}
	keys := []Val{in("k"), in("l"), in("m")}
	if special >= 0 {
		keys = nil
		for i := 0; i < nkeys; i++ {
			keys = append(keys, str(string(rune('k'+i))))
		}
	}
	cons := tn
	n := 0
	for d := 0; d < depth; d++ {
		var nxt []cacheState
		for _, h := range cur {
			for ki, key := range keys {
				if ki > d || capa == 1 && ki == 2 {
					break // keys are introduced in order
				}
				if d < prefix && ki != d {
					continue
				}
				for _, put := range []bool{true, false} {
					if d < prefix && !put {
						continue
					}
					k := &Iface{tString, key}
					st := h.st.clone()
					n++
					var v Val = in(fmt.Sprintf("v%d", d))
					var vi Val = &Iface{tString, v}
					if d == special {
						v, vi = nilOf(anyT), nilOf(anyT)
					}
					var os []Outcome
					desc := h.desc
					if put {
						desc += " Put(" + K(key) + ", " + K(v) + ")"
						os = c.call(st, c.meth(t, "Put"), recv, k, vi)
					} else {
						desc += " Get(" + K(key) + ")"
						os = c.call(st, c.meth(t, "Get"), recv, k)
					}
					c.scen = desc
					for _, o := range os {
						if !c.noPanic("fresh", cons, o) {
							continue
						}
						// which entry is meant?
						type alt struct {
							st  *State
							idx int
						}
						alts := []alt{}
						rest := []*State{o.st}
						for i, e := range h.ents {
							var r2 []*State
							for _, s := range rest {
								for _, b := range c.splitEq(s, e[0], key) {
									if b.v {
										alts = append(alts, alt{b.st, i})
									} else {
										r2 = append(r2, b.st)
									}
								}
							}
							rest = r2
						}
						for _, s := range rest {
							alts = append(alts, alt{s, -1})
						}
						for _, a := range alts {
							ents := append([][2]Val{}, h.ents...)
							if put {
								if a.idx >= 0 {
									ents = append(ents[:a.idx], ents[a.idx+1:]...)
								}
								ents = append(ents, [2]Val{key, v})
								nxt = append(nxt, cacheState{a.st, ents, desc})
								continue
							}
							hit := c.truth(a.st, o.rets[1])
							switch {
							case a.idx < 0:
								c.ob("fresh", cons, negate(hit), a.st, token.NoPos, "%s returns a value for a key that was never put", desc)
							default:
								if hit != tNo {
									var got Val = a.st.norm(o.rets[0])
									if i, ok := got.(*Iface); ok {
										got = i.val
									}
									c.ob("fresh", cons, c.same(a.st, got, ents[a.idx][1]), a.st, token.NoPos, "%s returns %s, the last value put for the key is %s", desc, a.st.show(got), a.st.show(ents[a.idx][1]))
								}
								// the least recently used entries are given up first
								if len(ents)-a.idx <= capa {
									c.ob("kept", cons, hit, a.st, token.NoPos, "%s misses although only %d other keys were used since", desc, len(ents)-a.idx-1)
								} else {
									c.ob("bounded", cons, negate(hit), a.st, token.NoPos, "%s hits although %d other keys were used since and the capacity is %d", desc, len(ents)-a.idx-1, capa)
								}
								if hit == tYes {
									e := ents[a.idx]
									ents = append(ents[:a.idx], ents[a.idx+1:]...)
									ents = append(ents, e)
								} else {
									// it is gone
									ents = append(ents[:a.idx], ents[a.idx+1:]...)
								}
							}
							nxt = append(nxt, cacheState{a.st, ents, desc})
						}
					}
				}
			}
		}
		cur = nxt
	}
	c.scenario("%s of capacity %d: %d histories of %d operations", tn, capa, len(cur), depth)
}

// ---- C22 ----

// stopper is a callback with an arbitrary answer to every call.
func stopper() *Native {
	return &Native{name: "callback", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		st.nfresh++
		var outs []Outcome
		for _, b := range x.split(st, st.fresh("in:continue", tBool)) {
			b.st.event(&Event{kind: "callback", name: map[bool]string{true: "continue", false: "stop"}[b.v], pos: posOf(site)})
			outs = append(outs, ret(b.st, boolean(b.v))...)
		}
		return outs
	}}
}

// changer is a callback that removes the rule it gets (without its first skip values) and stops or goes on.
func (c *C) changer(fn *ssa.Function, recv Val) *Native {
	return &Native{name: "callback", fn: func(x *X, st *State, args []Val, site ssa.Instruction) []Outcome {
		st.nfresh++
		var outs []Outcome
		for _, b := range x.split(st, st.fresh("in:continue", tBool)) {
			b.st.event(&Event{kind: "callback", name: map[bool]string{true: "continue", false: "stop"}[b.v], args: []Val{b.st.snap(args[0])}, pos: posOf(site)})
			for _, o := range x.call(b.st, &Func{fn: fn}, []Val{recv, args[0]}, site) {
				if o.kind != oRet {
					outs = append(outs, o)
					continue
				}
				outs = append(outs, ret(o.st, boolean(b.v))...)
			}
		}
		return outs
	}}
}

func runC22(c *C) {
	check := func(cons string, total int, os []Outcome, mark *Event, errIdx int) {
		for _, o := range os {
			if !c.noPanic("stop", cons, o) {
				continue
			}
			stopped := false
			after, n := 0, 0
			for _, e := range eventsOf(o.st, mark, "callback") {
				n++
				if stopped {
					after++
				}
				if e.name == "stop" {
					stopped = true
				}
			}
			c.ob("stop", cons, triOf(after == 0), o.st, token.NoPos, "the callback is called %d times after it has returned false", after)
			if !stopped {
				c.ob("complete", cons, triOf(n == total), o.st, token.NoPos, "the callback always returned true and was called %d times, there are %d rules", n, total)
			}
			if errIdx >= 0 {
				c.ob("stop", cons, negate(c.isErr(o.st, o.rets[errIdx])), o.st, token.NoPos, "the iteration returns an error after the callback returned false")
			}
		}
	}
	// rules of policies
	add := func(cons string, st *State, f func(st *State, r Val) []Outcome, rules ...[]string) *State {
		for _, r := range rules {
			o := c.one(f(st, c.strs(st, strVals(r)...)), cons)
			st = o.st
		}
		return st
	}
	st, p := c.newPolicy(c.start(), "p", "a,b")
	pt := c.ptr("model/policy", "Policy")
	c.scenario("Range of a policy with three rules")
	st = add("AddRule", st, func(st *State, r Val) []Outcome { return c.call(st, c.meth(pt, "AddRule"), p, r) }, []string{"a", "b"}, []string{"c", "d"}, []string{"e", "f"})
	check("policy.Policy.Range", 3, c.call(st, c.meth(pt, "Range"), p, stopper()), st.trace, -1)
	c.scenario("Range of a policy with three rules, the callback removes the rule it gets")
	check("policy.Policy.Range", 3, c.call(st, c.meth(pt, "Range"), p, c.changer(c.meth(pt, "RemoveRule"), p)), st.trace, -1)
	for _, dm := range []bool{false, true} {
		name := "RoleManager"
		st, rm := c.newRM(c.start())
		if dm {
			name = "DomainManager"
			st, rm = c.newDM(c.start())
		}
		t := c.ptr("rbac", name)
		for _, links := range [][][]string{
			{{"a", "b"}, {"a", "c"}, {"d", "c"}},
			{{"a", "b"}, {"c", "d"}, {"e", "f"}},
			{{"a", "b", "d1"}, {"a", "c", "d1"}, {"a", "b", "d2"}},
			{{"a", "b"}, {"a", "c", "d1"}, {"a", "b", "d2", "s"}},
			{{"a", "b", ""}, {"a", "x", ""}, {"a", "y"}},
			{{"a", "b", "", "d"}, {"a", "x", "", ""}, {"a", "", "d", ""}},
		} {
			if len(links[0])+len(links[2]) > 4 && !dm {
				continue
			}
			c.scenario("Range of a %s with the links %v", name, links)
			cur := st.clone()
			for _, l := range links {
				var nxt []Outcome = c.call(cur, c.meth(t, "AddLink"), rm, str(l[0]), str(l[1]), c.strs(cur, strVals(l[2:])...))
				cur = nxt[0].st
			}
			check("rbac."+name+".Range", 3, c.call(cur, c.meth(t, "Range"), rm, stopper()), cur.trace, -1)
			o := c.one(c.call(cur, c.fn("rbac", "NewRolePolicy"), &Iface{t, rm}), "NewRolePolicy")
			check("rbac.RolePolicy.Range", 3, c.call(o.st, c.m("rbac", "RolePolicy", "Range"), o.rets[0], stopper()), o.st.trace, -1)
		}
	}
	// rules of a model
	for _, rules := range [][][]string{
		{{"p", "a", "b"}, {"p", "c", "d"}, {"g", "x", "y"}},
		{{"p", "a", "b"}, {"p2", "c", "d"}, {"p3", "x", "y"}},
		{{"g", "a", "b"}, {"g", "c", "d"}, {"g2", "x", "y", "z"}},
		{{"g", "a", "b"}, {"g3", "c", "d"}, {"g2", "x", "y", "z"}},
	} {
		c.scenario("Model.RangeRules of %v", rules)
		for _, all := range []bool{true, false} { // with definitions that have no rules
			var ds [][3]string
			for _, d := range [][3]string{{"p", "p", "a, b"}, {"p", "p2", "a, b"}, {"p", "p3", "a, b"}, {"g", "g", "_,_"}, {"g", "g2", "_,_,_"}, {"g", "g3", "_,_"}} {
				used := all
				for _, r := range rules {
					used = used || r[0] == d[1]
				}
				if used {
					ds = append(ds, d)
				}
			}
			st, m := c.newModel(c.start(), ds...)
			st = add("AddRule", st, func(st *State, r Val) []Outcome { return c.call(st, c.m("model", "Model", "AddRule"), m, r) }, rules...)
			check("model.Model.RangeRules", 3, c.call(st, c.m("model", "Model", "RangeRules"), m, stopper()), st.trace, -1)
			if rules[0][0] == "p" && rules[2][0] == "p3" {
				c.scenario("Model.RangeRules of %v, the callback removes the rule it gets", rules)
				check("model.Model.RangeRules", 3, c.call(st, c.m("model", "Model", "RangeRules"), m, c.changer(c.m("model", "Model", "RemoveRule"), m)), st.trace, -1)
			}
		}
	}
	// matches
	alts := []string{"r.rx == p.a", "r.rx == p.a && p.b == r.ry", `r.rx == "no"`, `r.rx == p.a && (p.b == r.ry || p.c != "x")`}
	exprs := []string{}
	for _, a := range alts {
		for _, b := range alts {
			exprs = append(exprs, a+" || "+b)
			for _, d := range alts {
				exprs = append(exprs, a+" || "+b+" || "+d)
			}
		}
	}
	for _, expr := range append(exprs, "r.rx == p.a", "r.rx == p.a && r.ry == p.b", "r.rx == p.a || r.ry == p.b", "r.rx == p.a && (r.ry == p.b || r.ry == p.c)", "true", "p.c == r.ry || p.b == r.ry || p.a == r.rx", `p.a == "u" && p.b == "o"`) {
		for _, n := range []int{2, 3} {
			m := c.newMM([]string{"a", "b", "c"}, []string{"rx", "ry"}, "some(where (p.eft == allow))", nil)
			st := m.st
			for i := 0; i < n; i++ {
				cs := []string{"u", "o", fmt.Sprint(i)}
				if i == 2 {
					cs[1] = "o2"
				}
				o := c.one(c.call(st, c.m("model", "Model", "AddRule"), m.model, c.strs(st, strVals(append([]string{"p"}, cs...))...)), "AddRule")
				st = o.st
			}
			c.scenario("matches of %s over %d rules", expr, n)
			os := c.matchersFor(st, m.model, expr)
			for _, mo := range os {
				if mo.kind != oRet || c.isErr(mo.st, mo.rets[1]) != tNo {
					continue
				}
				stop := func(cons string, os []Outcome, mark *Event, errIdx int) {
					for _, o := range os {
						if !c.noPanic("stop", cons, o) {
							continue
						}
						stopped, after := false, 0
						for _, e := range eventsOf(o.st, mark, "callback") {
							if stopped {
								after++
							}
							stopped = stopped || e.name == "stop"
						}
						c.ob("stop", cons, triOf(after == 0), o.st, token.NoPos, "%s: the callback is called %d times after it has returned false", expr, after)
						c.ob("stop", cons, negate(c.isErr(o.st, o.rets[errIdx])), o.st, token.NoPos, "%s: an error is returned after the callback returned false", expr)
					}
				}
				mark := mo.st.trace
				stop("model.Model.RangeMatches", c.call(mo.st, c.m("model", "Model", "RangeMatches"), m.model, mo.rets[0], c.rDef(mo.st, m.model), c.anys(mo.st, str("u"), str("o")), stopper()), mark, 0)
				if !strings.Contains(expr, "c != ") {
					s3 := mo.st.clone()
					stop("model.Model.RangeMatches", c.call(s3, c.m("model", "Model", "RangeMatches"), m.model, mo.rets[0], c.rDef(s3, m.model), c.anys(s3, str("u"), str("o")), c.changer(c.m("model", "Model", "RemoveRule"), m.model)), mark, 0)
				}
				s2, enf := c.enforcer(mo.st, m.model)
				mark = s2.trace
				opt := c.one(c.call(s2, c.fn("", "SetMatcher"), &Iface{tString, str(expr)}), "SetMatcher")
				params := c.anys(opt.st, &Iface{c.typ("", "ContextOption"), opt.rets[0]}, str("u"), str("o"))
				stop("Enforcer.RangeMatches", c.call(opt.st, c.enf("RangeMatches"), enf, params, stopper()), mark, 0)
			}
		}
	}
}

func init() {
	register(&Check{
		id:        "C06",
		technique: "abstract interpretation with an injectivity theory for quoted and length prefixed texts; constant rules with separators",
		rules: map[string]string{
			"key":       "two rules have equal keys exactly if they have the same values in the same order",
			"confusion": "adding, removing and enumerating rules keeps rules apart whose values look alike when they are joined",
			"distinct":  "GetDistinct returns every combination of the values of the columns exactly once; a column that does not exist is an error",
			"domains":   "GetAllDomains and GetDomains return every domain with links exactly once",
		},
		run: runC06,
	})
	register(&Check{
		id:        "C21",
		technique: "abstract interpretation of histories of cache operations with opaque keys and values",
		rules: map[string]string{
			"fresh":   "Get returns the value put last for the key, or nothing",
			"kept":    "a key is found as long as fewer other keys than the capacity were used since its last use",
			"bounded": "more keys than the capacity are not kept, the least recently used goes first; a capacity of zero does not panic",
		},
		run: runC21,
	})
	register(&Check{
		id:        "C22",
		technique: "abstract interpretation of every iteration with a callback that may stop at any call",
		rules: map[string]string{
			"stop":     "once a callback has returned false it is not called again",
			"complete": "a callback that always returns true is called for every rule",
		},
		run: runC22,
	})
}
