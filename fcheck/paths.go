package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: path patterns. Paths and patterns have a bounded number of segments of bounded length, every byte of a segment is arbitrary (but no separator).

// segs makes a path: the lengths of its segments, -1 is the segment "*".
func segs(name, sep string, lens []int) (Val, [][]Val) {
	var ps []Val
	var r [][]Val
	for i, l := range lens {
		if i > 0 {
			ps = append(ps, str(sep))
		}
		var bs []Val
		for k := 0; k < l; k++ {
			bs = append(bs, inByte(fmt.Sprintf("%s%d%c", name, i, 'a'+k)))
		}
		if l < 0 {
			bs = []Val{num('*')}
		}
		ps = append(ps, ofBytes(bs))
		r = append(r, bs)
	}
	return cat(ps...), r
}

func isStar(seg []Val, ask func(Val) bool) bool {
	return len(seg) == 1 && ask(T("eq", tBool, seg[0], num('*')))
}

func isParam(seg []Val, prefix, suffix byte, ask func(Val) bool) bool {
	if len(seg) == 0 {
		return false
	}
	return (prefix == 0 || ask(T("eq", tBool, seg[0], num(int(prefix))))) && (suffix == 0 || ask(T("eq", tBool, seg[len(seg)-1], num(int(suffix)))))
}

// pathSpec is the documented relation.
func pathSpec(path, pat [][]Val, prefix, suffix byte, ask func(Val) bool) bool {
	if len(pat) == 0 {
		return len(path) == 0
	}
	if len(path) == 0 {
		return false
	}
	if isStar(pat[0], ask) {
		for n := 1; n <= len(path); n++ {
			if pathSpec(path[n:], pat[1:], prefix, suffix, ask) {
				return true
			}
		}
		return false
	}
	if !isParam(pat[0], prefix, suffix, ask) {
		if len(path[0]) != len(pat[0]) {
			return false
		}
		for i := range pat[0] {
			if !ask(T("eq", tBool, path[0][i], pat[0][i])) {
				return false
			}
		}
	}
	return pathSpec(path[1:], pat[1:], prefix, suffix, ask)
}

type pathFn struct {
	name, sep      string
	prefix, suffix byte
	match, isPat   func(st *State, args ...Val) []Outcome
}

func (c *C) util(name string) func(st *State, args ...Val) []Outcome {
	fn := c.fn("util", name)
	return func(st *State, args ...Val) []Outcome { return c.call(st, fn, args...) }
}

// gvar is an exported variable of a package.
func (c *C) gvar(st *State, rel, name string) Val {
	g, ok := c.pkg(rel).Members[name].(*ssa.Global)
	if !ok {
		panic(abort{rel + "." + name + " is missing"})
	}
	return st.norm(st.load(c.x.global(g, st).(*Ptr)))
}

func (c *C) skeletons(max int, lens []int) [][]int {
	var r [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			r = append(r, append([]int(nil), cur...))
		}
		if len(cur) == max {
			return
		}
		for _, l := range lens {
			rec(append(cur, l))
		}
	}
	rec(nil)
	return r
}

func (c *C) pathStart(sep string, ss ...[][]Val) *State {
	st := c.start()
	for _, s := range ss {
		for _, seg := range s {
			for _, b := range seg {
				if _, ok := b.(*Const); ok {
					continue
				}
				for i := 0; i < len(sep); i++ {
					if !st.assume(T("eq", tBool, b, num(int(sep[i]))), false) {
						panic(abort{"pathStart"})
					}
				}
			}
		}
	}
	return st
}

func (c *C) judgePath(f pathFn, rule string, paths, pats [][]int) {
	for _, pl := range paths {
		for _, ql := range pats {
			p, ps := segs("s", f.sep, pl)
			q, qs := segs("p", f.sep, ql)
			c.scenario("%s: a path of segments with %v bytes, a pattern of segments with %v bytes", f.name, pl, ql)
			for _, o := range f.match(c.pathStart(f.sep, ps, qs), p, q) {
				if !c.noPanic(rule, f.name, o) {
					continue
				}
				c.forks(o.st, func(st *State, ask func(Val) bool) {
					want := len(qs) == 1 && isStar(qs[0], ask) || pathSpec(ps, qs, f.prefix, f.suffix, ask)
					t := c.truth(st, o.rets[0])
					if !want {
						t = negate(t)
					}
					c.ob(rule, f.name, t, st, token.NoPos, "%s(%s, %s) returns %s, expected %v", f.name, st.show(p), st.show(q), st.show(o.rets[0]), want)
				})
			}
		}
	}
}

func (c *C) judgeIsPattern(f pathFn, pats [][]int) {
	for _, ql := range pats {
		q, qs := segs("p", f.sep, ql)
		c.scenario("%s: is a name of segments with %v bytes a pattern", f.name, ql)
		for _, o := range f.isPat(c.pathStart(f.sep, qs), q) {
			if !c.noPanic("recognised", f.name, o) {
				continue
			}
			c.forks(o.st, func(st *State, ask func(Val) bool) {
				want := false
				for _, s := range qs {
					want = want || isStar(s, ask) || isParam(s, f.prefix, f.suffix, ask)
				}
				t := c.truth(st, o.rets[0])
				if !want {
					t = negate(t)
				}
				c.ob("recognised", f.name, t, st, token.NoPos, "%s: the name %s is a pattern: %s, expected %v", f.name, st.show(q), st.show(o.rets[0]), want)
			})
		}
	}
}

// asFunction unwraps the result of a matcher function.
func (c *C) asFunction(fv func(st *State) Val) func(st *State, args ...Val) []Outcome {
	return func(st *State, args ...Val) []Outcome {
		var as []Val
		for _, a := range args {
			as = append(as, &Iface{tString, a})
		}
		st = st.clone()
		var outs []Outcome
		for _, o := range c.callv(st, fv(st), c.anys(st, as...)) {
			if o.kind == oRet {
				if c.isErr(o.st, o.rets[1]) != tNo {
					c.ob("match", "matcher function", negate(c.isErr(o.st, o.rets[1])), o.st, token.NoPos, "the function returns an error: %s", o.st.show(o.rets[1]))
				}
				v := o.st.norm(o.rets[0])
				if i, ok := v.(*Iface); ok {
					v = i.val
				}
				o.rets = []Val{v}
			}
			outs = append(outs, o)
		}
		return outs
	}
}

func (c *C) matcherVar(name, method string) func(st *State, args ...Val) []Outcome {
	fn := c.m("util", "Matcher", method)
	return func(st *State, args ...Val) []Outcome {
		return c.call(st, fn, append([]Val{c.gvar(st, "util", name)}, args...)...)
	}
}

func runC33(c *C) {
	helper := func(sep string, prefix, suffix byte) pathFn {
		m, p := c.util("PathMatchHelper"), c.util("IsPathPatternHelper")
		tail := []Val{str(sep), num(int(prefix)), num(int(suffix))}
		return pathFn{fmt.Sprintf("PathMatchHelper(%q, %q, %q)", sep, strings.Trim(string(rune(prefix)), "\x00"), strings.Trim(string(rune(suffix)), "\x00")), sep, prefix, suffix,
			func(st *State, a ...Val) []Outcome { return m(st, append(append([]Val(nil), a...), tail...)...) },
			func(st *State, a ...Val) []Outcome { return p(st, append(append([]Val(nil), a...), tail...)...) }}
	}
	main := []pathFn{{"PathMatch", "/", ':', 0, c.util("PathMatch"), c.util("IsPathPattern")}, {"PathMatch2", "/", '{', '}', c.util("PathMatch2"), c.util("IsPathPattern2")}}
	builtin := func(name string) func(st *State) Val {
		return func(st *State) Val {
			o := c.one(c.call(st.clone(), c.fn("model/fm", "DefaultFunctionMap")), "DefaultFunctionMap")
			o = c.one(c.call(o.st, c.m("model/fm", "FunctionMap", "GetFunctions"), o.rets[0]), "GetFunctions")
			for _, r := range c.x.mapLookup(o.st, c.x.asMap(o.st, o.st.norm(o.rets[0])), str(name)) {
				if r.ok {
					return r.v
				}
			}
			panic(abort{"no function " + name})
		}
	}
	other := []pathFn{
		{"PathMatcher", "/", ':', 0, c.matcherVar("PathMatcher", "Match"), c.matcherVar("PathMatcher", "IsPattern")},
		{"PathMatcher2", "/", '{', '}', c.matcherVar("PathMatcher2", "Match"), c.matcherVar("PathMatcher2", "IsPattern")},
		{"PathMatchFunc", "/", ':', 0, c.asFunction(func(st *State) Val { return c.gvar(st, "util", "PathMatchFunc") }), nil},
		{"PathMatchFunc2", "/", '{', '}', c.asFunction(func(st *State) Val { return c.gvar(st, "util", "PathMatchFunc2") }), nil},
		{"pathMatch", "/", ':', 0, c.asFunction(builtin("pathMatch")), nil},
		{"pathMatch2", "/", '{', '}', c.asFunction(builtin("pathMatch2")), nil},
		helper(".", '$', 0), helper("::", '<', '>'), helper("/", 0, '?'),
	}
	n, long := 3, 4
	if c.thorough {
		n, long = 4, 5
	}
	for _, f := range main {
		c.judgePath(f, "match", c.skeletons(n, []int{0, 1, 2}), c.skeletons(n, []int{0, 1, 2}))
		c.judgePath(f, "match", c.skeletons(2, []int{0, 1, 3}), c.skeletons(2, []int{3, -1}))
		c.judgePath(f, "long", c.skeletons(long, []int{1}), c.skeletons(long, []int{-1, 1}))
		c.judgeIsPattern(f, c.skeletons(n, []int{0, 1, 2, 3}))
	}
	for _, f := range other {
		c.judgePath(f, "match", c.skeletons(2, []int{0, 1, 2}), c.skeletons(2, []int{0, 1, 2}))
		c.judgePath(f, "long", c.skeletons(3, []int{1}), c.skeletons(3, []int{-1, 1}))
		if f.isPat != nil {
			c.judgeIsPattern(f, c.skeletons(2, []int{0, 1, 2}))
		}
	}
}

func init() {
	register(&Check{
		id:        "C33",
		technique: "abstract interpretation of go/ssa over paths and patterns whose segments consist of arbitrary bytes, compared with the documented relation",
		rules: map[string]string{
			"match":      "a path matches exactly if its segments can be assigned to the segments of the pattern",
			"long":       "the same with more segments",
			"recognised": "a name is a pattern exactly if one of its segments is",
		},
		run: runC33,
	})
}
