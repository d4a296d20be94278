package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: role queries agree with the links. C27: matchers get (name, pattern). C28: the time of setting a matcher does not matter.

type needSplit struct{ t Val }

// forks runs f on every refinement of st that decides the conditions f asks for.
func (c *C) forks(st *State, f func(st *State, q func(Val) bool)) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		var need Val
		func() {
			defer func() {
				if r := recover(); r != nil {
					if n, ok := r.(needSplit); ok {
						need = n.t
						return
					}
					panic(r)
				}
			}()
			f(s, func(t Val) bool {
				t = s.norm(t)
				k, b := s.decide(t)
				if !k {
					panic(needSplit{t})
				}
				return b
			})
		}()
		if need != nil {
			for _, b := range c.x.split(s, need) {
				work = append(work, b.st)
			}
		}
	}
}

func isPat(s string) bool { return strings.Contains(s, "*") }

// patMatch is the condition that name matches pattern according to the matcher with the label.
func patMatch(label, name, pattern string) Val {
	if !isPat(pattern) {
		return boolean(name == pattern)
	}
	if name == "" || pattern[0] != name[0] && pattern[0] != '*' {
		return boolean(false)
	}
	return T("in:"+label, tBool, str(name), str(pattern))
}

// imatcher is an arbitrary matcher: strings with * are patterns, a pattern may match any name with the same first letter.
func (c *C) imatcher(label string) *Iface {
	return c.fake(label, func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		var ss []string
		for _, a := range args {
			s, ok := constStr(st.norm(a))
			if !ok {
				panic(abort{"matcher of an unknown name"})
			}
			ss = append(ss, s)
		}
		switch method {
		case "IsPattern":
			return ret(st, boolean(isPat(ss[0])))
		case "Match":
			st.event(&Event{kind: "match", name: label, args: args, pos: posOf(site)})
			outs := ret(st, st.norm(patMatch(label, ss[0], ss[1])))
			if _, ok := st.vars["mayPanic"]; ok {
				p := st.clone()
				p.event(&Event{kind: "fault", name: "Match", args: args, pos: posOf(site)})
				outs = append(outs, Outcome{st: p, kind: oPanic, pv: rtPanic("matcher"), pos: posOf(site)})
			}
			return outs
		}
		panic(abort{"matcher." + method})
	}, c.typ("util", "IMatcher"))
}

type rlink struct {
	u, r string
	d    []string
}

func (l rlink) String() string {
	return "(" + strings.Join(append([]string{l.u, l.r}, l.d...), ", ") + ")"
}

// rmSpec answers queries from the links.
type rmSpec struct {
	links        []rlink
	roles, doms  string // labels of the matchers, "" without
	q            func(Val) bool
	domain       []string
	domainsExist bool
}

func (s *rmSpec) applies(l rlink) bool {
	if len(l.d) != len(s.domain) {
		return false
	}
	for i, d := range l.d {
		if d == s.domain[i] {
			continue
		}
		if s.doms == "" || !isPat(d) || isPat(s.domain[i]) || !s.q(patMatch(s.doms, s.domain[i], d)) {
			return false
		}
	}
	return true
}

func (s *rmSpec) names(extra ...string) []string {
	seen := map[string]bool{}
	var r []string
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			r = append(r, n)
		}
	}
	for _, l := range s.links {
		if s.applies(l) {
			add(l.u)
			add(l.r)
		}
	}
	for _, n := range extra {
		add(n)
	}
	return r
}

func (s *rmSpec) matches(n, p string) bool {
	return s.roles != "" && n != p && isPat(p) && s.q(patMatch(s.roles, n, p))
}

// direct roles of n: those given by a link of n or of a pattern that matches n.
func (s *rmSpec) direct(n string, universe []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, l := range s.links {
		if !s.applies(l) || l.u != n && !s.matches(n, l.u) {
			continue
		}
		if !seen[l.r] {
			seen[l.r] = true
			r = append(r, l.r)
		}
		if l.u == n && isPat(l.r) {
			for _, m := range universe {
				if s.matches(m, l.r) && !seen[m] {
					seen[m] = true
					r = append(r, m)
				}
			}
		}
	}
	return r
}

func (s *rmSpec) hasLink(u, r string, known ...string) bool {
	if u == r || s.matches(u, r) {
		return true
	}
	universe := s.names(append([]string{u, r}, known...)...)
	seen := map[string]bool{u: true}
	work := []string{u}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		for _, m := range s.direct(n, universe) {
			if m == r || s.matches(m, r) {
				return true
			}
			if !seen[m] {
				seen[m] = true
				work = append(work, m)
			}
		}
	}
	return false
}

// roleSys is a role manager with a history.
type roleSys struct {
	name  string
	typ   types.Type
	recv  Val
	links []rlink    // links that may be present
	doms  [][]string // domains queried
	names []string   // names queried
}

// patterns returns the patterns of roles among the links.
func (rs *roleSys) patterns() (ps []string) {
	for _, l := range rs.links {
		for _, n := range []string{l.u, l.r} {
			if isPat(n) && !hasStr(ps, n) && len(ps) < 2 {
				ps = append(ps, n)
			}
		}
	}
	return ps
}

type roleState struct {
	st          *State
	links       []rlink
	roles, doms string
	desc        string
}

func (c *C) roleCall(rs *roleSys, rule string, st *State, name string, args ...Val) []Outcome {
	cons := rs.name + "." + name
	cuts := c.nCut
	var out []Outcome
	for _, o := range c.call(st, c.meth(rs.typ, name), append([]Val{rs.recv}, args...)...) {
		if c.noPanic(rule, cons, o) {
			out = append(out, o)
		}
	}
	if c.nCut > cuts {
		c.ob(rule, cons, tNo, st, token.NoPos, "%s does not terminate within the bounds of the analysis", name)
	}
	return out
}

func (c *C) linkArgs(st *State, l rlink) []Val {
	return []Val{str(l.u), str(l.r), c.strs(st, strVals(l.d)...)}
}

// toggle adds or removes a link.
func (c *C) toggle(rs *roleSys, h roleState, l rlink) []roleState {
	idx := -1
	for i, k := range h.links {
		if k.String() == l.String() {
			idx = i
		}
	}
	name, rest := "AddLink", append(append([]rlink{}, h.links...), l)
	if idx >= 0 {
		name, rest = "DeleteLink", append(append([]rlink{}, h.links[:idx]...), h.links[idx+1:]...)
	}
	desc := h.desc + "; " + name + l.String()
	c.scen = desc
	var out []roleState
	st := h.st.clone()
	for _, o := range c.roleCall(rs, "closure", st, name, c.linkArgs(st, l)...) {
		c.ob("explicit", rs.name+"."+name, allOf(c.truth(o.st, o.rets[0]), negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos, "%s returns %s, %s although the link %s", name, o.st.show(o.rets[0]), o.st.show(o.rets[1]), map[bool]string{true: "is present", false: "is absent"}[idx >= 0])
		out = append(out, roleState{o.st, rest, h.roles, h.doms, desc})
	}
	return out
}

func (c *C) setMatchers(rs *roleSys, h roleState, roles, doms string) []roleState {
	cur := []roleState{h}
	for _, s := range []struct{ f, label string }{{"SetMatcher", roles}, {"SetDomainMatcher", doms}} {
		if s.label == "" {
			continue
		}
		var nxt []roleState
		for _, h := range cur {
			desc := h.desc + "; " + s.f + "(" + s.label + ")"
			c.scen = desc
			var arg Val = nilOf(c.typ("util", "IMatcher"))
			if s.label != "nil" {
				arg = c.matchers(s.label)
			}
			for _, o := range c.roleCall(rs, "closure", h.st, s.f, arg) {
				n := h
				n.st, n.desc = o.st, desc
				l := s.label
				if l == "nil" {
					l = ""
				}
				if s.f == "SetMatcher" {
					n.roles = l
				} else {
					n.doms = l
				}
				nxt = append(nxt, n)
			}
		}
		cur = nxt
	}
	return cur
}

var matcherCache = map[string]*Iface{}

func (c *C) matchers(label string) *Iface {
	if matcherCache[label] == nil {
		matcherCache[label] = c.imatcher(label)
	}
	return matcherCache[label]
}

func nameList(st *State, vs []Val) ([]string, bool) {
	var r []string
	for _, v := range vs {
		s, ok := constStr(st.norm(v))
		if !ok {
			return nil, false
		}
		r = append(r, s)
	}
	return r, true
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (c *C) specOf(h roleState, q func(Val) bool, d []string) *rmSpec {
	return &rmSpec{links: h.links, roles: h.roles, doms: h.doms, q: q, domain: d}
}

// judgeLink compares the result of HasLink with the specification.
func (c *C) judgeLink(rs *roleSys, h roleState, rule string, l rlink, st *State, rets []Val) {
	c.forks(st, func(st *State, q func(Val) bool) {
		if isPat(l.r) {
			// patterns that match each other are not judged
			ps := rs.patterns()
			for _, a := range ps {
				for _, b := range ps {
					if a != b && q(patMatch(h.roles, a, b)) {
						return
					}
				}
			}
		}
		want := c.specOf(h, q, l.d).hasLink(l.u, l.r)
		if isPat(l.r) && !want && c.specOf(h, q, l.d).hasLink(l.u, l.r, rs.names...) {
			return // a pattern may have matched a name that is not part of a link any more
		}
		t := c.truth(st, rets[0])
		if !want {
			t = negate(t)
		}
		c.ob(rule, rs.name+".HasLink", allOf(t, negate(c.isErr(st, rets[1]))), st, token.NoPos, "HasLink%s returns %s, %s; the links are %v", l, st.show(rets[0]), st.show(rets[1]), h.links)
	})
}

// judgeList compares the result of GetRoles or GetUsers with the specification.
func (c *C) judgeList(rs *roleSys, h roleState, rule, name, u string, d []string, st *State, rets []Val) {
	got, ok := nameList(st, c.listOf(st, rets[0]))
	if !ok {
		c.ob(rule, rs.name+"."+name, tUnknown, st, token.NoPos, "")
		return
	}
	c.forks(st, func(st *State, q func(Val) bool) {
		s := c.specOf(h, q, d)
		res, why := true, ""
		known, universe := s.names(u), s.names(rs.names...)
		for _, n := range universe {
			if isPat(n) {
				continue
			}
			a, b := u, n
			if name == "GetUsers" {
				a, b = n, u
			}
			if !hasStr(got, n) {
				if hasStr(known, n) && hasStr(s.direct(a, known), b) {
					res, why = false, n+" is missing"
				}
			} else if !hasStr(s.direct(a, universe), b) && !s.hasLink(a, b) {
				res, why = false, n+" is wrong"
			}
		}
		for _, g := range got {
			if !isPat(g) && !hasStr(universe, g) {
				res, why = false, g+" is wrong"
			}
		}
		c.ob(rule, rs.name+"."+name, allOf(triOf(res), negate(c.isErr(st, rets[1]))), st, token.NoPos, "%s(%s) in %v returns %v, %s: %s; the links are %v", name, u, d, got, st.show(rets[1]), why, h.links)
	})
}

// judgeLinks compares the links passed by Range after mark with the specification.
func (c *C) judgeLinks(rs *roleSys, h roleState, rule string, es []*Event, st *State) {
	var got []Val
	for _, e := range es {
		all := append([]Val{}, e.args[:2]...)
		all = append(all, c.flat(st, e.args[2])...)
		got = append(got, st.snap(c.strs(st, all...)))
	}
	var want []Val
	for _, l := range h.links {
		want = append(want, st.snap(c.strs(st, strVals(append([]string{l.u, l.r}, l.d...))...)))
	}
	c.ob(rule, rs.name+".Range", c.sameSet(st, got, want), st, token.NoPos, "the links are %v, Range passes %s", h.links, showVals(st, got))
}

// queryRoles compares all queries with the specification; rule names the rule of the closure.
func (c *C) queryRoles(rs *roleSys, h roleState, rule string) {
	for _, d := range rs.doms {
		for _, u := range rs.names {
			if isPat(u) {
				continue
			}
			for _, r := range append(append([]string{}, rs.names...), rs.patterns()...) {
				if isPat(r) && h.roles == "" {
					continue
				}
				l := rlink{u, r, d}
				c.scen = h.desc + "; HasLink" + l.String()
				st := h.st.clone()
				for _, o := range c.roleCall(rs, rule, st, "HasLink", c.linkArgs(st, l)...) {
					c.judgeLink(rs, h, rule, l, o.st, o.rets)
				}
			}
			for _, name := range []string{"GetRoles", "GetUsers"} {
				c.scen = h.desc + "; " + name + "(" + u + ", " + strings.Join(d, ", ") + ")"
				st := h.st.clone()
				for _, o := range c.roleCall(rs, rule, st, name, str(u), c.strs(st, strVals(d)...)) {
					c.judgeList(rs, h, rule, name, u, d, o.st, o.rets)
				}
			}
		}
	}
	// explicit links
	c.scen = h.desc + "; Range"
	mark := h.st.trace
	for _, o := range c.roleCall(rs, "explicit", h.st, "Range", collector(boolean(true))) {
		c.judgeLinks(rs, h, "explicit", eventsOf(o.st, mark, "callback"), o.st)
	}
}

// flat returns the elements of a list term or slice.
func (c *C) flat(st *State, v Val) []Val {
	if t, ok := v.(*Term); ok && t.op == "list" {
		return t.args
	}
	return elemsOf(st, v)
}

// domainQueries compares GetDomains and GetAllDomains with the links.
func (c *C) domainQueries(rs *roleSys, h roleState, rule string) {
	var doms [][]string
	seen := map[string]bool{}
	for _, l := range h.links {
		if k := strings.Join(l.d, "/"); len(l.d) > 0 && !seen[k] {
			seen[k] = true
			doms = append(doms, l.d)
		}
	}
	judge := func(cons, what string, o Outcome, want func(d []string, q func(Val) bool) bool, pats bool) {
		got, ok := nameList(o.st, c.listOf(o.st, o.rets[0]))
		if !ok {
			c.ob(rule, cons, tUnknown, o.st, token.NoPos, "")
			return
		}
		c.forks(o.st, func(st *State, q func(Val) bool) {
			res, why := true, ""
			for _, d := range doms {
				k := strings.Join(d, "/")
				if !pats && isPat(k) {
					continue
				}
				if w := want(d, q); w != hasStr(got, k) {
					res, why = false, k+map[bool]string{true: " is missing", false: " is wrong"}[w]
				}
			}
			for _, g := range got {
				if g != "" && !seen[g] {
					res, why = false, g+" is wrong"
				}
			}
			c.ob(rule, cons, triOf(res), st, token.NoPos, "%s returns %v: %s; the links are %v", what, got, why, h.links)
		})
	}
	c.scen = h.desc + "; GetAllDomains"
	for _, o := range c.roleCall(rs, rule, h.st.clone(), "GetAllDomains") {
		judge(rs.name+".GetAllDomains", "GetAllDomains", o, func(d []string, q func(Val) bool) bool { return true }, true)
	}
	if h.roles != "" {
		return
	}
	for _, n := range rs.names {
		c.scen = h.desc + "; GetDomains(" + n + ")"
		for _, o := range c.roleCall(rs, rule, h.st.clone(), "GetDomains", str(n)) {
			judge(rs.name+".GetDomains", "GetDomains("+n+")", o, func(d []string, q func(Val) bool) bool {
				s := &rmSpec{links: h.links, doms: h.doms, q: q, domain: d}
				for _, l := range h.links {
					if s.applies(l) && (l.u == n || l.r == n) {
						return true
					}
				}
				return false
			}, false)
		}
	}
}

type roleScen struct {
	name        string // RoleManager or DomainManager
	links       []rlink
	doms        [][]string
	names       []string
	roles, dom  string
	depth, deep int
}

func (c *C) newRoleSys(s roleScen) (*roleSys, *State) {
	rs := &roleSys{name: s.name, typ: c.ptr("rbac", s.name), links: s.links, doms: s.doms, names: s.names}
	var st *State
	if s.name == "RoleManager" {
		st, rs.recv = c.newRM(c.start())
	} else {
		st, rs.recv = c.newDM(c.start())
	}
	return rs, st
}

func L(u, r string, d ...string) rlink { return rlink{u, r, d} }

// roleHist explores all toggle sequences.
func (c *C) roleHist(rs *roleSys, h roleState, depth int, rule string, visit func(h roleState, left int) []roleState) {
	for _, h := range visit(h, depth) {
		if depth == 0 {
			continue
		}
		for _, l := range rs.links {
			for _, n := range c.toggle(rs, h, l) {
				c.roleHist(rs, n, depth-1, rule, visit)
			}
		}
	}
}

func (c *C) queryAll(rs *roleSys, h roleState, rule string) {
	c.queryRoles(rs, h, rule)
	if rs.name == "DomainManager" {
		c.domainQueries(rs, h, "domains")
	}
}

func roleScens() []roleScen {
	nodom := [][]string{{}}
	abc := []string{"a", "b", "c"}
	return []roleScen{
		{"RoleManager", []rlink{L("a", "b"), L("b", "c"), L("c", "a"), L("b", "a"), L("a", "a")}, nodom, abc, "", "", 3, 4},
		{"DomainManager", []rlink{L("a", "b"), L("a", "b", "d"), L("b", "c", "d"), L("b", "c", "e"), L("b", "c", "d", "s")}, [][]string{{}, {"d"}, {"e"}, {"d", "s"}, {"x"}, {"d", "x"}}, abc, "", "", 3, 4},
		{"RoleManager", []rlink{L("u1", "r"), L("u*", "r"), L("r", "s*"), L("s1", "t")}, nodom, []string{"u1", "u2", "r", "s1", "s2", "t"}, "roles", "", 3, 4},
		{"RoleManager", []rlink{L("r", "s*"), L("s1", "r"), L("s*", "r")}, nodom, []string{"r", "s1", "s2"}, "roles", "", 3, 4},
		{"RoleManager", []rlink{L("u*", "r"), L("u*2", "r"), L("r", "t"), L("u1", "t")}, nodom, []string{"u1", "u2", "r", "t"}, "roles", "", 3, 4},
		{"RoleManager", []rlink{L("x", "s*"), L("y", "s*1"), L("s1", "t")}, nodom, []string{"x", "y", "s1", "t"}, "roles", "", 3, 4},
		{"DomainManager", []rlink{L("a", "b", "d*"), L("a", "b", "d1"), L("b", "c", "d1"), L("b", "c", "d*")}, [][]string{{}, {"d1"}, {"d2"}, {"e"}}, abc, "", "doms", 3, 4},
		{"DomainManager", []rlink{L("a", "b", "d*"), L("a", "b", "d*2"), L("a", "b", "d1"), L("b", "c", "**")}, [][]string{{}, {"d1"}, {"d2"}}, abc, "", "doms", 3, 4},
		{"DomainManager", []rlink{L("a", "b", "d*", "s1"), L("a", "b", "d1", "s*"), L("a", "b", "d*", "s*"), L("b", "c", "d1", "s1")}, [][]string{{"d1"}, {"d1", "s1"}, {"d1", "s2"}, {"d2", "s1"}}, abc, "", "doms", 3, 4},
		{"DomainManager", []rlink{L("u*", "b", "d*"), L("u1", "b", "d1"), L("b", "c", "d1")}, [][]string{{"d1"}, {"d2"}}, []string{"u1", "u2", "b", "c"}, "roles", "doms", 3, 4},
	}
}

func runC19(c *C) {
	for _, s := range roleScens() {
		rs, st := c.newRoleSys(s)
		depth := s.depth
		if c.thorough {
			depth = s.deep
		}
		c.scenario("%s, histories of %d changes of the links %v, matchers %q %q", s.name, depth, s.links, s.roles, s.dom)
		for _, h := range c.setMatchers(rs, roleState{st: st, desc: s.name}, s.roles, s.dom) {
			c.roleHist(rs, h, depth, "closure", func(h roleState, left int) []roleState {
				c.queryAll(rs, h, "closure")
				return []roleState{h}
			})
		}
	}
	c.separators()
	c.interleaved()
	c.chains()
	c.limits()
}

// separators: names, patterns and domains that look alike when they are joined by some character.
func (c *C) separators() {
	seps := []string{"", ":", "::", ",", ", ", "/", "|", "-", "_", ".", " ", "\x00", "\n", "\t", "#", ";", "->", "=", "@", "&", "+", "$"}
	c.scenario("names, patterns and domains that are equal when they are joined by one of %q", seps)
	L := func(u, r string, d ...string) rlink { return rlink{u, r, d} }
	for _, sep := range seps {
		long, pat, longPat := "x"+sep+"x", "x*", "x"+sep+"x*"
		type hist struct {
			roleScen
			ask, judge rlink
		}
		for _, s := range []hist{
			{roleScen{name: "RoleManager", doms: [][]string{{}}, links: []rlink{L(pat, "a"), L(longPat, "b")}, roles: "roles"}, L(long, "a"), L("x", "b")},
			{roleScen{name: "RoleManager", doms: [][]string{{}}, links: []rlink{L(pat, "a"), L(longPat, "b")}, roles: "roles"}, L("x", "b"), L(long, "a")},
			{roleScen{name: "DomainManager", doms: [][]string{{long}, {"x"}}, links: []rlink{L("a", "b", pat), L("c", "d", longPat)}, dom: "doms"}, L("a", "b", long), L("c", "d", "x")},
			{roleScen{name: "DomainManager", doms: [][]string{{long}, {"x"}}, links: []rlink{L("a", "b", pat), L("c", "d", longPat)}, dom: "doms"}, L("c", "d", "x"), L("a", "b", long)},
		} {
			rs, st := c.newRoleSys(s.roleScen)
			cur := c.setMatchers(rs, roleState{st: st, desc: s.name}, s.roles, s.dom)
			for _, l := range s.links {
				var nxt []roleState
				for _, h := range cur {
					nxt = append(nxt, c.toggle(rs, h, l)...)
				}
				cur = nxt
			}
			for _, h := range cur {
				for _, w := range c.probe(rs, h, "HasLink", s.ask.u, s.ask.r, s.ask.d) {
					st := w.st.clone()
					for _, o := range c.roleCall(rs, "closure", st, "HasLink", c.linkArgs(st, s.judge)...) {
						c.judgeLink(rs, w, "closure", s.judge, o.st, o.rets)
					}
				}
			}
		}
		rs, st := c.newRoleSys(roleScen{name: "DomainManager"})
		cur := []roleState{{st: st, desc: "DomainManager"}}
		for _, l := range []rlink{L("u", "v", "x"+sep+"y"), L("w", "z", "x", "y")} {
			var nxt []roleState
			for _, h := range cur {
				nxt = append(nxt, c.toggle(rs, h, l)...)
			}
			cur = nxt
		}
		for _, h := range cur {
			for _, l := range h.links {
				want := strings.Join(l.d, "/")
				c.scen = h.desc + "; GetDomains(" + l.u + ")"
				for _, o := range c.roleCall(rs, "domains", h.st.clone(), "GetDomains", str(l.u)) {
					got, ok := nameList(o.st, c.listOf(o.st, o.rets[0]))
					t := triOf(hasStr(got, want))
					if !ok {
						t = tUnknown
					}
					c.ob("domains", rs.name+".GetDomains", t, o.st, token.NoPos, "GetDomains(%s) returns %v, %q is missing; the links are %v", l.u, got, want, h.links)
				}
			}
		}
	}
}

// probe runs an unjudged query and continues with the state it leaves.
func (c *C) probe(rs *roleSys, h roleState, name, u, r string, d []string) []roleState {
	args := []Val{str(u)}
	desc := h.desc + "; " + name + "(" + u
	if name == "HasLink" {
		args = append(args, str(r))
		desc += ", " + r
	}
	if name == "GetDomains" {
		d = nil
	} else {
		args = append(args, nil)
	}
	st := h.st.clone()
	if name != "GetDomains" {
		args[len(args)-1] = c.strs(st, strVals(d)...)
	}
	c.scen = desc + ", ...)"
	var out []roleState
	for _, o := range c.roleCall(rs, "closure", st, name, args...) {
		n := h
		n.st, n.desc = o.st, desc+strings.Join(append([]string{""}, d...), ", ")+")"
		out = append(out, n)
	}
	return out
}

// interleaved: a query before every change, it may concern names and domains that are not known yet.
func (c *C) interleaved() {
	type q struct {
		name, u, r string
		d          []string
	}
	scens := []struct {
		roleScen
		probes []q
	}{
		{roleScen{"RoleManager", []rlink{L("a", "b"), L("b", "c")}, [][]string{{}}, []string{"a", "b", "c"}, "", "", 3, 4},
			[]q{{"HasLink", "a", "c", nil}, {"GetRoles", "a", "", nil}, {"GetUsers", "b", "", nil}}},
		{roleScen{"RoleManager", []rlink{L("u*", "r"), L("r", "s*")}, [][]string{{}}, []string{"u1", "r", "s1"}, "roles", "", 3, 4},
			[]q{{"HasLink", "u1", "s1", nil}, {"GetRoles", "u1", "", nil}, {"GetUsers", "s1", "", nil}}},
		{roleScen{"DomainManager", []rlink{L("a", "b", "d*"), L("b", "c", "d1")}, [][]string{{"d1"}, {"d2"}}, []string{"a", "b", "c"}, "", "doms", 3, 4},
			[]q{{"HasLink", "a", "c", []string{"d1"}}, {"GetRoles", "a", "", []string{"d2"}}, {"GetDomains", "a", "", nil}}},
	}
	for _, s := range scens {
		rs, st := c.newRoleSys(s.roleScen)
		depth := s.depth
		if c.thorough {
			depth = s.deep
		}
		c.scenario("%s, a query before each of %d changes of the links %v", s.name, depth, s.links)
		for _, h := range c.setMatchers(rs, roleState{st: st, desc: s.name}, s.roles, s.dom) {
			c.roleHist(rs, h, depth, "closure", func(h roleState, left int) []roleState {
				if left == 0 {
					c.queryAll(rs, h, "closure")
					return nil
				}
				var out []roleState
				for _, p := range s.probes {
					out = append(out, c.probe(rs, h, p.name, p.u, p.r, p.d)...)
				}
				return out
			})
		}
	}
}

// chains of the documented length hold, cycles terminate.
func (c *C) chains() {
	for _, name := range []string{"RoleManager", "DomainManager"} {
		for _, cyclic := range []bool{false, true} {
			n := 6
			var links []rlink
			var names []string
			for i := 0; i < n; i++ {
				l := L(fmt.Sprintf("r%d", i), fmt.Sprintf("r%d", i+1))
				if cyclic && i == n-1 {
					l.r = "r0"
				}
				if name == "DomainManager" {
					l.d = []string{"d"}
				}
				links = append(links, l)
			}
			names = []string{"r0", "r3", "r5", "r6", "x"}
			doms := [][]string{{}}
			if name == "DomainManager" {
				doms = [][]string{{"d"}}
			}
			rs, st := c.newRoleSys(roleScen{name: name, links: links, doms: doms, names: names})
			c.scenario("%s, chain of %d links, cyclic: %v", name, n, cyclic)
			cur := []roleState{{st: st, desc: name}}
			for _, l := range links {
				var nxt []roleState
				for _, h := range cur {
					nxt = append(nxt, c.toggle(rs, h, l)...)
				}
				cur = nxt
			}
			for _, h := range cur {
				c.queryRoles(rs, h, "closure")
			}
		}
	}
}

// limits: chains are followed up to the maximum level and not any further, whatever else is linked.
func (c *C) limits() {
	for _, level := range []int{4, 5, 10} {
		for _, doms := range [][]string{nil, {}, {"d"}, {"d", "s"}} {
			name, limit := "RoleManager", level-1
			if doms != nil {
				name, limit = "DomainManager", level-2-len(doms)
			}
			if limit < 1 {
				continue
			}
			for _, shape := range []string{"chain", "three chains", "ladder", "cycle"} {
				var links [][2]string
				node := func(i int, s string) string {
					if i == 0 || i > limit {
						s = ""
					}
					return fmt.Sprint("r", i, s)
				}
				for i := 0; i <= limit; i++ {
					switch shape {
					case "chain", "cycle":
						links = append(links, [2]string{node(i, ""), node(i+1, "")})
					case "three chains":
						for _, s := range []string{"", "b", "c"} {
							links = append(links, [2]string{node(i, s), node(i+1, s)})
						}
					case "ladder":
						for _, s := range []string{"", "b"} {
							for _, t := range []string{"", "b"} {
								links = append(links, [2]string{node(i, s), node(i+1, t)})
							}
						}
					}
				}
				if shape == "cycle" { // and a way back
					links = append(links, [2]string{node(1, ""), node(0, "")}, [2]string{node(limit, ""), node(limit-1, "")})
				}
				c.scenario("%s(%d), domains %v, %s of %d links", name, level, doms, shape, limit+1)
				t := c.ptr("rbac", name)
				o := c.one(c.call(c.start(), c.fn("rbac", "New"+name), num(level)), "New"+name)
				st, recv := o.st, o.rets[0]
				seen := map[[2]string]bool{}
				for _, l := range links {
					if seen[l] {
						continue
					}
					seen[l] = true
					st = c.one(c.call(st, c.meth(t, "AddLink"), recv, str(l[0]), str(l[1]), c.strs(st, strVals(doms)...)), "AddLink").st
				}
				for _, q := range []struct {
					u, r int
					want bool
				}{{0, 1, true}, {0, limit, true}, {1, limit + 1, true}, {0, limit + 1, false}, {limit + 1, 0, false}} {
					st := st.clone()
					for _, o := range c.call(st, c.meth(t, "HasLink"), recv, str(node(q.u, "")), str(node(q.r, "")), c.strs(st, strVals(doms)...)) {
						if !c.noPanic("limit", name+".HasLink", o) {
							continue
						}
						r := c.truth(o.st, o.rets[0])
						if !q.want {
							r = negate(r)
						}
						c.ob("limit", name+".HasLink", allOf(r, negate(c.isErr(o.st, o.rets[1]))), o.st, token.NoPos,
							"HasLink over %d links returns %s, the limit is %d", q.r-q.u, o.st.show(o.rets[0]), limit)
					}
				}
			}
		}
	}
}

// C28: setting a matcher before, between or after the links has the same effect.
// warmRoles continues after queries for every name.
func (c *C) warmRoles(rs *roleSys, h roleState) []roleState {
	cur := []roleState{h}
	for i, u := range rs.names {
		for _, q := range []string{"HasLink", "GetRoles", "GetUsers"} {
			var nxt []roleState
			for _, h := range cur {
				nxt = append(nxt, c.probe(rs, h, q, u, rs.names[(i+1)%len(rs.names)], rs.doms[0])...)
			}
			cur = nxt
		}
	}
	return cur
}

// bare: names without links are matched by the matcher set last.
func (c *C) bare() {
	for _, s := range []roleScen{
		{name: "RoleManager", doms: [][]string{{}}},
		{name: "DomainManager", doms: [][]string{{"d1"}, {"d1", "s1"}, {}}},
	} {
		s.names = []string{"u1", "r"}
		s.links = []rlink{L("x", "y", s.doms[0]...)}
		for _, d := range s.doms {
			rs, st := c.newRoleSys(s)
			pats := []string{"u*", "*"}
			c.scenario("%s, matchers replaced while there are no links, queries in %v", s.name, d)
			var rec func(h roleState, left int)
			rec = func(h roleState, left int) {
				for _, u := range rs.names {
					for _, p := range pats {
						l := rlink{u, p, d}
						c.scen = h.desc + "; HasLink" + l.String()
						st := h.st.clone()
						for _, o := range c.roleCall(rs, "matchers", st, "HasLink", c.linkArgs(st, l)...) {
							c.forks(o.st, func(st *State, q func(Val) bool) {
								t := c.truth(st, o.rets[0])
								if !c.specOf(h, q, d).matches(u, p) {
									t = negate(t)
								}
								c.ob("matchers", rs.name+".HasLink", allOf(t, negate(c.isErr(st, o.rets[1]))), st, token.NoPos, "HasLink%s returns %s, %s; there is no link of these names", l, st.show(o.rets[0]), st.show(o.rets[1]))
							})
						}
					}
				}
				if left == 0 {
					return
				}
				warm := []roleState{h}
				for _, p := range pats {
					var nxt []roleState
					for _, w := range warm {
						nxt = append(nxt, c.probe(rs, w, "HasLink", rs.names[0], p, d)...)
					}
					warm = nxt
				}
				for _, w := range append(warm, h) {
					for _, m := range []string{"roles", "roles2", "nil"} {
						for _, n := range c.setMatchers(rs, w, m, "") {
							rec(n, left-1)
						}
					}
				}
				if left > 1 {
					for _, n := range c.toggle(rs, h, rs.links[0]) {
						rec(n, left-1)
					}
				}
			}
			n := 2
			if c.thorough {
				n = 3
			}
			rec(roleState{st: st, desc: s.name}, n)
		}
	}
}

func runC28(c *C) {
	c.bare()
	scens := []struct {
		roleScen
		sets [][2]string
	}{
		{roleScen{"RoleManager", []rlink{L("u*", "r"), L("u1", "t"), L("r", "s*")}, [][]string{{}}, []string{"u1", "r", "s1", "t"}, "", "", 3, 4},
			[][2]string{{"roles", ""}, {"roles2", ""}, {"nil", ""}}},
		{roleScen{"DomainManager", []rlink{L("a", "b", "d*"), L("b", "c", "d1"), L("u*", "b", "d1")}, [][]string{{"d1"}, {"d2"}}, []string{"a", "b", "c", "u1"}, "", "", 3, 4},
			[][2]string{{"roles", ""}, {"nil", ""}, {"", "doms"}, {"", "doms2"}, {"", "nil"}}},
		{roleScen{"DomainManager", []rlink{L("a", "b", "d*", "s*"), L("b", "c", "d1", "s1")}, [][]string{{"d1", "s1"}, {"d2", "s1"}}, []string{"a", "b", "c"}, "", "", 3, 4},
			[][2]string{{"roles", ""}, {"", "doms"}, {"", "nil"}}},
	}
	for _, s := range scens {
		rs, st := c.newRoleSys(s.roleScen)
		depth := s.depth
		if c.thorough {
			depth = s.deep
		}
		c.scenario("%s, histories of %d changes of the links %v and of the matchers %v", s.name, depth, s.links, s.sets)
		var rec func(h roleState, left int, set bool)
		rec = func(h roleState, left int, set bool) {
			if left == 0 {
				if set {
					c.queryRoles(rs, h, "matchers")
				}
				return
			}
			for _, l := range rs.links {
				for _, n := range c.toggle(rs, h, l) {
					rec(n, left-1, set)
				}
			}
			for _, m := range s.sets {
				for _, n := range c.setMatchers(rs, h, m[0], m[1]) {
					rec(n, left-1, true)
				}
			}
			if left > 1 && !c.thorough {
				return
			}
			// queries before the matcher is replaced
			for _, w := range c.warmRoles(rs, h) {
				for _, m := range s.sets {
					for _, n := range c.setMatchers(rs, w, m[0], m[1]) {
						rec(n, left-1, true)
					}
				}
			}
		}
		rec(roleState{st: st, desc: s.name}, depth, false)
		// all links were added with the first matchers
		roles, doms := "", ""
		for _, m := range s.sets {
			if roles == "" {
				roles = m[0]
			}
			if doms == "" {
				doms = m[1]
			}
		}
		cur := c.setMatchers(rs, roleState{st: st, desc: s.name}, roles, doms)
		for _, l := range s.links {
			var nxt []roleState
			for _, h := range cur {
				nxt = append(nxt, c.toggle(rs, h, l)...)
			}
			cur = nxt
		}
		for _, h := range cur {
			rec(h, depth-2, true)
		}
	}
}

func init() {
	register(&Check{
		id:        "C19",
		technique: "abstract interpretation of histories of role links with arbitrary matchers, compared with the transitive closure of the links",
		rules: map[string]string{
			"closure":  "HasLink, GetRoles and GetUsers agree with the links present, in every domain",
			"explicit": "AddLink and DeleteLink report their effect and Range passes exactly the links that were added and not deleted",
			"domains":  "GetAllDomains passes the domains of the links, GetDomains those in which a name has a link",
			"limit":    "HasLink follows chains up to the maximum level and no longer ones",
		},
		run: runC19,
	})
	register(&Check{
		id:        "C28",
		technique: "abstract interpretation of histories of role links and matchers, compared with the transitive closure of the links under the matchers set last",
		rules: map[string]string{
			"matchers": "the queries agree with the links present and the matchers set last",
			"explicit": "AddLink and DeleteLink report their effect, the links survive a change of the matcher",
			"closure":  "no call panics or runs forever",
		},
		run: runC28,
	})
}
