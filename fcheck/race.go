package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: queries do not race with each other (lockset analysis over all paths of all queries).
// C18: queries change nothing.

type query struct {
	name  string
	run   func(st *State) []Outcome
	judge func(rule string, st *State, rets []Val, es []*Event)
}

type access struct {
	loc      string // object and path
	obj      int
	write    bool
	sync     bool // operation of a sync.Map
	op       string
	locks    []lock
	pos      token.Pos
	fn, desc string
}

func (a *access) key() string {
	return fmt.Sprint(a.loc, a.write, a.sync, a.op, a.locks, a.pos)
}

func (a *access) String() string {
	return map[bool]string{true: "write", false: "read"}[a.write] + " of " + a.desc + " in " + a.fn
}

// order is the lock order: held -> acquired.
type order map[[2]string]token.Pos

// accesses runs the query and returns its accesses to memory that existed before.
func (c *C) accesses(st *State, q query, ord order) []*access {
	x := c.x
	limit := len(st.heap)
	seen := map[string]*access{}
	var out []*access
	add := func(st *State, a *access) {
		a.locks = append([]lock(nil), st.locks...)
		if len(st.fnames) > 0 {
			a.fn = st.fnames[len(st.fnames)-1]
		}
		if a.pos == token.NoPos && len(st.stack) > 0 {
			a.pos = st.stack[len(st.stack)-1]
		}
		k := a.key()
		if seen[k] == nil {
			seen[k] = a
			out = append(out, a)
		}
	}
	desc := func(st *State, obj int, path []int) string {
		o := st.heap[obj]
		if o.site != "" && len(path) == 0 {
			return o.site
		}
		d := o.site
		v := o.val
		for _, i := range path {
			if v == nil {
				break
			}
			v = expand(v, nil)
			switch s := v.(type) {
			case *Struct:
				d = strings.TrimPrefix(types.TypeString(s.typ, func(*types.Package) string { return "" }), ".") + "." + under(s.typ).(*types.Struct).Field(i).Name()
				v = s.fields[i]
			case *Array:
				d += "[]"
				if i < len(s.elems) {
					v = s.elems[i]
				} else {
					v = nil
				}
			default:
				v = nil
			}
		}
		return d
	}
	cell := func(st *State, p *Ptr, write bool, pos token.Pos) {
		if p.obj < limit && p.obj >= 0 {
			add(st, &access{loc: fmt.Sprint(p.obj, p.path), obj: p.obj, write: write, pos: pos, desc: desc(st, p.obj, p.path)})
		}
	}
	x.onLoad = func(st *State, p *Ptr, pos token.Pos) { cell(st, p, false, pos) }
	x.onStore = func(st *State, p *Ptr, old, v Val, pos token.Pos) { cell(st, p, true, pos) }
	x.onMap = func(st *State, m *MapRef, write bool, pos token.Pos) {
		if m.obj >= 0 && m.obj < limit && st.heap[m.obj].site != "sync" {
			add(st, &access{loc: fmt.Sprint("map", m.obj), obj: m.obj, write: write, pos: pos, desc: "map " + st.heap[m.obj].site})
		}
	}
	x.onSync = func(st *State, p *Ptr, op string, pos token.Pos) {
		if p.obj < limit {
			add(st, &access{loc: "sync" + fmt.Sprint(p.obj, p.path), obj: p.obj, write: op != "Load" && op != "Range", sync: true, op: op, pos: pos, desc: "the sync.Map " + desc(st, p.obj, p.path)})
		}
	}
	x.onLock = func(st *State, key string, pos token.Pos) {
		for _, l := range st.locks {
			if _, ok := ord[[2]string{l.key, key}]; !ok {
				ord[[2]string{l.key, key}] = pos
			}
		}
	}
	defer func() { x.onLoad, x.onStore, x.onMap, x.onSync, x.onLock = nil, nil, nil, nil, nil }()
	for _, o := range q.run(st.clone()) {
		c.noPanic("locks", q.name, o)
		res := triOf(len(o.st.locks) == len(st.locks))
		c.ob("locks", q.name, res, o.st, token.NoPos, "%s returns while it still holds a lock", q.name)
	}
	return out
}

// overlap: one location is part of the other.
func overlap(a, b string) bool {
	if a == b {
		return true
	}
	if strings.HasPrefix(a, "map") || strings.HasPrefix(a, "sync") || strings.HasPrefix(b, "map") || strings.HasPrefix(b, "sync") {
		return false
	}
	x, y := strings.TrimSuffix(a, "]"), strings.TrimSuffix(b, "]")
	sub := func(x, y string) bool {
		return strings.HasPrefix(y, x) && (strings.HasSuffix(x, "[") || strings.HasPrefix(y[len(x):], " "))
	}
	return sub(x, y) || sub(y, x)
}

func guarded(a, b *access) bool {
	for _, k := range a.locks {
		for _, l := range b.locks {
			if k.key == l.key && (k.write || l.write) {
				return true
			}
		}
	}
	return false
}

// races compares the accesses of all pairs of queries.
func (c *C) races(st *State, qs []query) {
	type rec struct {
		q  query
		as []*access
	}
	var recs []rec
	ord := order{}
	for _, q := range qs {
		scen := c.scen
		c.scen = scen + "; " + q.name
		recs = append(recs, rec{q, c.accesses(st, q, ord)})
		c.scen = scen
	}
	for e, pos := range ord {
		// reachable from the acquired lock back to the held one
		seen, work := map[string]bool{e[1]: true}, []string{e[1]}
		for len(work) > 0 {
			k := work[0]
			work = work[1:]
			for f := range ord {
				if f[0] == k && !seen[f[1]] {
					seen[f[1]] = true
					work = append(work, f[1])
				}
			}
		}
		c.ob("locks", "order", triOf(!seen[e[0]]), st, pos, "two locks are acquired in both orders, concurrent queries may deadlock")
	}
	scen := c.scen
	for i, r := range recs {
		writes := 0
		for j := i; j < len(recs); j++ {
			s := recs[j]
			var bad [2]*access
			pairs := 0
			for _, a := range r.as {
				for _, b := range s.as {
					if !a.write && !b.write || a.obj != b.obj || !overlap(a.loc, b.loc) {
						continue
					}
					if a.sync {
						continue // safe by itself, see the rule isolated
					}
					pairs++
					if bad[0] == nil && !guarded(a, b) {
						bad = [2]*access{a, b}
					}
				}
			}
			writes += pairs
			c.scen = fmt.Sprintf("%s; %s concurrently with %s", scen, r.q.name, s.q.name)
			cons := r.q.name + " and " + s.q.name
			if bad[0] != nil {
				pos := bad[0].pos
				what := "unsynchronised " + bad[0].String() + " and " + bad[1].String() + " (" + c.x.w.pos(bad[1].pos) + ")"
				c.ob("race", cons, tNo, st, pos, "%s", what)
			} else {
				c.ob("race", cons, tYes, st, token.NoPos, "")
			}
		}
		c.extra["conflicting pairs: "+r.q.name] = writes
	}
	c.scen = scen
}

// roleQueries lists the queries of a role manager.
func (c *C) roleQueries(rs *roleSys, h roleState, names []string, doms [][]string) []query {
	var qs []query
	add := func(m, what string, args func(st *State) []Val, judge func(rule string, st *State, rets []Val, es []*Event)) {
		qs = append(qs, query{rs.name + "." + m + what, func(st *State) []Outcome {
			return c.call(st, c.meth(rs.typ, m), append([]Val{rs.recv}, args(st)...)...)
		}, judge})
	}
	for _, d := range doms {
		d := d
		for i, u := range names {
			u := u
			l := rlink{u, names[(i+1)%len(names)], d}
			add("HasLink", l.String(), func(st *State) []Val { return c.linkArgs(st, l) }, func(rule string, st *State, rets []Val, es []*Event) {
				c.judgeLink(rs, h, rule, l, st, rets)
			})
			for _, m := range []string{"GetRoles", "GetUsers"} {
				m := m
				add(m, fmt.Sprint("(", strings.Join(append([]string{u}, d...), ", "), ")"), func(st *State) []Val { return []Val{str(u), c.strs(st, strVals(d)...)} },
					func(rule string, st *State, rets []Val, es []*Event) { c.judgeList(rs, h, rule, m, u, d, st, rets) })
			}
		}
	}
	for _, u := range names {
		u := u
		add("GetDomains", "("+u+")", func(st *State) []Val { return []Val{str(u)} }, nil)
	}
	add("GetAllDomains", "", func(st *State) []Val { return nil }, nil)
	add("Range", "", func(st *State) []Val { return []Val{collector(boolean(true))} }, func(rule string, st *State, rets []Val, es []*Event) {
		c.judgeLinks(rs, h, rule, es, st)
	})
	return qs
}

// interrupt explores a with b running at any of its synchronisation points.
func (c *C) interrupt(st *State, a, b query) {
	x := c.x
	scen := c.scen
	c.scen = fmt.Sprintf("%s; %s while %s is running", scen, b.name, a.name)
	type done struct {
		rets []Val
		es   []*Event
	}
	const key = "interrupted"
	var results []done
	x.preempt = func(st *State) []*State {
		if _, ok := st.vars[key]; ok {
			return nil
		}
		saved, blocked, pre := st.locks, x.blocked, x.preempt
		st.locks = nil
		x.blocked, x.preempt = saved, nil
		defer func() { x.blocked, x.preempt = blocked, pre }()
		mark := st.trace
		var out []*State
		for _, o := range b.run(st) {
			c.noPanic("isolated", b.name, o)
			if o.kind != oRet {
				continue
			}
			results = append(results, done{o.rets, eventsOf(o.st, mark, "callback")})
			o.st.vars[key] = num(len(results) - 1)
			o.st.locks = append([]lock(nil), saved...)
			// the callbacks of b are not those of a
			o.st.event(&Event{kind: "interrupted", prev: nil})
			out = append(out, o.st)
		}
		return out
	}
	mark := st.trace
	os := a.run(st.clone())
	x.preempt, x.blocked = nil, nil
	for _, o := range os {
		v, ok := o.st.vars[key]
		if !ok || !c.noPanic("isolated", a.name, o) {
			continue
		}
		i, _ := constInt(v)
		r := results[i]
		if a.judge != nil {
			var es []*Event
			own := map[*Event]bool{}
			for _, e := range r.es {
				own[e] = true
			}
			for _, e := range eventsOf(o.st, mark, "callback") {
				if !own[e] {
					es = append(es, e)
				}
			}
			a.judge("isolated", o.st, o.rets, es)
		}
		if b.judge != nil {
			b.judge("isolated", o.st, r.rets, r.es)
		}
	}
	c.scen = scen
}

// roleStart is a role manager with matchers and links, and the state after a first query.
func (c *C) roleStart(s roleScen, probes int) (*roleSys, []roleState) {
	rs, st := c.newRoleSys(s)
	cur := c.setMatchers(rs, roleState{st: st, desc: s.name}, s.roles, s.dom)
	for _, l := range s.links {
		var nxt []roleState
		for _, h := range cur {
			nxt = append(nxt, c.toggle(rs, h, l)...)
		}
		cur = nxt
	}
	out := cur
	if probes > 0 {
		for _, h := range cur {
			d := s.doms[0]
			out = append(out, c.probe(rs, h, "HasLink", s.names[0], s.names[1], d)...)
		}
	}
	return rs, out
}

func raceScens() []roleScen {
	return []roleScen{
		{"RoleManager", []rlink{L("a", "b"), L("b", "c")}, [][]string{{}}, []string{"a", "c", "x"}, "", "", 0, 0},
		{"RoleManager", []rlink{L("u*", "r"), L("r", "s*")}, [][]string{{}}, []string{"u1", "r", "s1"}, "roles", "", 0, 0},
		{"DomainManager", []rlink{L("a", "b", "d"), L("b", "c")}, [][]string{{"d"}, {"x"}, {}}, []string{"a", "c"}, "", "", 0, 0},
		{"DomainManager", []rlink{L("a", "b", "d*"), L("u*", "b", "d1")}, [][]string{{"d1"}, {"d2"}}, []string{"a", "u1"}, "roles", "doms", 0, 0},
	}
}

// enforcerFor returns an enforcer with rules, role rules and a built matcher.
func (c *C) enforcerFor(expr string, doms bool, rules [][]Val, groles [][]Val) ([]*State, Val, Val) {
	g := "_,_"
	if doms {
		g = "_,_,_"
	}
	st, model := c.newModel(c.start(), [3]string{"r", "r", "x, y"}, [3]string{"p", "p", "a, b, c"}, [3]string{"g", "g", g},
		[3]string{"e", "e", "some(where (p.eft == allow))"})
	st = c.one(c.call(st, c.m("model", "Model", "SetFunction"), model, str("f"), boolFn("f", false)), "SetFunction").st
	st = c.one(c.call(st, c.m("model", "Model", "SetDef"), model, byteVal('m'), str("m"), str(expr)), "SetDef").st
	for _, o := range c.call(st, c.m("model", "Model", "BuildMatchers"), model) {
		st = o.st
		break
	}
	st, enf := c.enforcer(st, model)
	cur := []*State{st}
	for _, r := range append(append([][]Val{}, rules...), groles...) {
		var nxt []*State
		for _, st := range cur {
			for _, o := range c.call(st, c.m("model", "Model", "AddRule"), model, c.strs(st, r...)) {
				if o.kind != oRet {
					panic(abort{"AddRule"})
				}
				nxt = append(nxt, o.st)
			}
		}
		cur = nxt
	}
	return cur, enf, model
}

func (c *C) enforcerQueries(enf, model Val, req []Val) []query {
	var qs []query
	wrap := func(name string, opts func(st *State) (*State, []Val)) {
		for _, a := range c.deciders(enf, model, opts, req) {
			a := a
			qs = append(qs, query{a.name + name, func(st *State) []Outcome {
				var os []Outcome
				for _, d := range a.run(st) {
					os = append(os, d.o)
				}
				return os
			}, nil})
		}
	}
	wrap("", noOptions)
	wrap(" with an expression", func(st *State) (*State, []Val) {
		st, a := c.ctxOption(st, "SetMatcher", &Iface{tString, str("r.x == p.a && f(p.b)")})
		return st, []Val{a}
	})
	add := func(name string, f *ssa.Function, args func(st *State) []Val) {
		qs = append(qs, query{name, func(st *State) []Outcome { return c.call(st, f, args(st)...) }, nil})
	}
	add("Model.RangeRules", c.m("model", "Model", "RangeRules"), func(st *State) []Val { return []Val{model, collector(boolean(true))} })
	add("Model.String", c.m("model", "Model", "String"), func(st *State) []Val { return []Val{model} })
	return qs
}

func runC17(c *C) {
	for _, s := range raceScens() {
		rs, hs := c.roleStart(s, 1)
		for _, h := range hs {
			c.scenario("%s", h.desc)
			qs := c.roleQueries(rs, h, s.names, s.doms)
			c.races(h.st, qs)
			if !isPat(s.links[0].u+s.links[0].r) && h.desc != hs[0].desc && !c.thorough {
				continue
			}
			for _, a := range qs {
				for _, b := range qs {
					if strings.Contains(a.name, ".Has") || c.thorough || strings.Contains(b.name, ".Has") {
						c.interrupt(h.st, a, b)
					}
				}
			}
		}
	}
	p := [][]Val{append([]Val{str("p")}, inVals("x", 3)...), append([]Val{str("p")}, strVals([]string{"g1", "b", "c"})...)}
	for _, doms := range []bool{false, true} {
		g := [][]Val{strVals([]string{"g", "u1", "g1"})}
		expr := "g(r.x, p.a) && r.y == p.b && f(p.c)"
		if doms {
			g = [][]Val{strVals([]string{"g", "u1", "g1", "d1"})}
			expr = "g(r.x, p.a, r.y) && f(p.c)"
		}
		c.scenario("enforcer with the matcher %s", expr)
		scen := c.scen
		sts, enf, model := c.enforcerFor(expr, doms, p, g)
		for _, st := range sts {
			for _, req := range [][]Val{{str("u1"), str("d1")}, {str("u2"), str("d2")}} {
				c.scen = scen + fmt.Sprintf(", request (%s, %s)", st.show(req[0]), st.show(req[1]))
				c.races(st, c.enforcerQueries(enf, model, req))
			}
		}
	}
}

func init() {
	register(&Check{
		id:        "C17",
		technique: "lockset analysis: abstract interpretation collects the accesses of every query to shared memory with the locks held, conflicting accesses of any two queries must share a lock",
		rules: map[string]string{
			"race":     "two queries never access the same memory without a common lock if one of them writes",
			"isolated": "a query of a role manager answers the same if another query runs between any two of its steps",
			"locks":    "a query releases every lock it takes, locks are always taken in the same order",
		},
		run:    runC17,
		shared: map[string]bool{"closure": true, "explicit": true},
	})
}
