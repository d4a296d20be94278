package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Checks of the file adapter, on a model of the file system.

const policyPath = "policy.csv"

type fileSys struct {
	c     *C
	st    *State
	ad    Val
	model Val
}

// sink is an arbitrary receiver of loaded rules.
func (c *C) sink() *Iface {
	return c.fake("sink", func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		st.event(&Event{kind: "loaded", name: "AddRule", args: []Val{st.snap(args[0])}, pos: posOf(site)})
		return ret(st, boolean(true), nilErr)
	}, c.typ("api", "IAddRuleBool"))
}

// source is an arbitrary set of rules.
func (c *C) source(rules [][]Val) *Iface {
	return c.fake("source", func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		outs := []Outcome{{kind: oRet, st: st}}
		for _, r := range rules {
			var nxt, stop []Outcome
			for _, o := range outs {
				for _, q := range x.call(o.st, args[0], []Val{c.strs(o.st, r...)}, site) {
					if q.kind != oRet {
						stop = append(stop, q)
						continue
					}
					for _, b := range x.split(q.st, q.rets[0]) {
						if b.v {
							nxt = append(nxt, Outcome{kind: oRet, st: b.st})
						} else {
							stop = append(stop, Outcome{kind: oRet, st: b.st})
						}
					}
				}
			}
			outs = append(nxt, stop...)
			if len(nxt) == 0 {
				break
			}
		}
		return outs
	}, c.typ("api", "IRangeRules"))
}

func (c *C) fileAdapter(content Val) *fileSys {
	f := &fileSys{c: c}
	st := c.start()
	if content != nil {
		st.fsPut(str(policyPath), content)
	}
	o := c.one(c.call(st, c.fn("storage/adapter", "NewFileAdapter"), str(policyPath)), "NewFileAdapter")
	f.st, f.ad = o.st, o.rets[0]
	return f
}

func (f *fileSys) call(st *State, name string, args ...Val) []Outcome {
	return f.c.call(st, f.c.m("storage/adapter", "FileAdapter", name), append([]Val{f.ad}, args...)...)
}

// load returns the rules that LoadPolicy reads.
func (f *fileSys) load(st *State) (outs []setState, fails []Outcome) {
	mark := st.trace
	for _, o := range f.call(st, "LoadPolicy", f.c.sink()) {
		if o.kind != oRet || f.c.isErr(o.st, o.rets[0]) != tNo {
			fails = append(fails, o)
			continue
		}
		var set []Val
		for _, e := range eventsOf(o.st, mark, "loaded") {
			set = append(set, e.args[0])
		}
		outs = append(outs, setState{o.st, set})
	}
	return
}

type fileOp struct {
	name string
	verb string
	args func(st *State) []Val
}

func (c *C) fileOps() []fileOp {
	R := func(vs ...string) []Val {
		var r []Val
		for _, v := range vs {
			r = append(r, str(v))
		}
		return r
	}
	src := c.source([][]Val{R("p", "carol", "data1", "read"), R("g", "dave", "admin"), R("p", "erin", "data2", "write")})
	one := func(r []Val) func(st *State) []Val {
		return func(st *State) []Val { return []Val{c.strs(st, r...)} }
	}
	two := func(r, s []Val) func(st *State) []Val {
		return func(st *State) []Val { return []Val{c.strss(st, c.strs(st, r...), c.strs(st, s...))} }
	}
	return []fileOp{
		{"SavePolicy(three rules)", "SavePolicy", func(st *State) []Val { return []Val{src} }},
		{"SavePolicy(no rules)", "SavePolicy", func(st *State) []Val { return []Val{c.source(nil)} }},
		{"AddRule", "AddRule", one(R("p", "carol", "data3", "read"))},
		{"AddRule(existing)", "AddRule", one(R("p", "alice", "data1", "read"))},
		{"RemoveRule", "RemoveRule", one(R("p", "alice", "data1", "read"))},
		{"RemoveRule(unknown)", "RemoveRule", one(R("p", "zed", "data1", "read"))},
		{"AddRules", "AddRules", two(R("p", "carol", "data3", "read"), R("g", "carol", "admin"))},
		{"RemoveRules", "RemoveRules", two(R("p", "alice", "data1", "read"), R("p", "bob", "data2", "write"))},
	}
}

const oldPolicy = "p, alice, data1, read\np, bob, data2, write\n"

func runC15(c *C) {
	faults := 1
	if c.thorough {
		faults = 2
	}
	defer func() { c.x.fsFaults, c.x.fsSpills = 0, 0 }()
	for _, old := range []Val{str(oldPolicy), nil} {
		for _, op := range c.fileOps() {
			if old == nil && op.verb != "SavePolicy" {
				continue
			}
			cons := "FileAdapter." + op.verb
			c.scenario("%s, old file: %v", op.name, old != nil)
			// reference: no failures
			c.x.fsFaults, c.x.fsSpills = 0, 0
			f := c.fileAdapter(old)
			news := map[string]bool{}
			var newList []Val
			for _, o := range f.call(f.st, op.verb, op.args(f.st)...) {
				if !c.noPanic("clean", cons, o) {
					continue
				}
				c.ob("clean", cons, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "%s fails although no system call fails", op.name)
				f.leftovers(cons, op.name, o.st)
				if ino := o.st.fsFile(str(policyPath)); ino >= 0 {
					v := o.st.norm(o.st.fsContent(ino))
					if !news[K(v)] {
						news[K(v)] = true
						newList = append(newList, v)
					}
				}
			}
			if len(newList) == 0 {
				continue
			}
			isNew := func(v Val) bool { return news[K(v)] }
			isOld := func(v Val) bool { return old != nil && K(v) == K(old) }
			c.scenario("%s with up to %d failing system calls, old file: %v", op.name, faults, old != nil)
			c.x.fsFaults, c.x.fsSpills = faults, 1
			f = c.fileAdapter(old)
			var failed []*State
			mark := f.st.trace
			for _, o := range f.call(f.st, op.verb, op.args(f.st)...) {
				if !c.noPanic("report", cons, o) {
					continue
				}
				st := o.st
				for _, e := range eventsOf(st, mark, "fs") {
					if K(e.args[0]) != K(str(policyPath)) {
						continue
					}
					if e.name == "remove" {
						c.ob("atomic", cons, triOf(old == nil), st, e.pos, "%s removes the policy file", op.name)
						continue
					}
					v := st.norm(e.res[0])
					c.ob("atomic", cons, triOf(isOld(v) || isNew(v)), st, e.pos, "%s: the policy file contains for a moment %s, which is neither the old nor the new policy", op.name, st.show(v))
					if e.name == "link" {
						c.ob("durable", cons, triOf(!isTrue(e.res[1])), st, e.pos, "%s: the policy file is replaced by a file whose content has not been synchronised", op.name)
					}
				}
				fs := faultsOf(st, mark)
				e := c.isErr(st, o.rets[0])
				if len(fs) > 0 {
					c.ob("report", cons, e, st, fs[0].pos, "%s: %s fails but no error is returned", op.name, fs[0].name)
				} else {
					c.ob("clean", cons, negate(e), st, token.NoPos, "%s fails although no system call fails", op.name)
					f.leftovers(cons, op.name, st)
				}
				ino := st.fsFile(str(policyPath))
				switch {
				case e == tNo && ino < 0:
					c.ob("atomic", cons, tNo, st, token.NoPos, "%s succeeds but there is no policy file", op.name)
				case e == tNo:
					c.ob("atomic", cons, triOf(isNew(st.norm(st.fsContent(ino)))), st, token.NoPos, "%s succeeds but the policy file contains %s", op.name, st.show(st.fsContent(ino)))
				case ino < 0:
					c.ob("atomic", cons, triOf(old == nil), st, token.NoPos, "%s fails and the old policy file is gone", op.name)
				default:
					v := st.norm(st.fsContent(ino))
					c.ob("atomic", cons, triOf(isNew(v) || isOld(v)), st, token.NoPos, "%s fails and leaves a policy file with %s", op.name, st.show(v))
				}
				c.ob("handles", cons, triOf(len(st.openHandles()) == 0), st, token.NoPos, "%s returns with open files %s", op.name, showVals(st, st.openHandles()))
				if len(fs) > 0 {
					failed = append(failed, st)
				}
			}
			// a later call works as usual
			if len(fails2(failed)) == 0 {
				continue
			}
			c.x.fsFaults, c.x.fsSpills = 0, 0
			for _, st := range failed {
				if old == nil {
					break
				}
				if ino := st.fsFile(str(policyPath)); ino < 0 || !isOld(st.norm(st.fsContent(ino))) {
					continue
				}
				for _, o := range f.call(st, op.verb, op.args(st)...) {
					if !c.noPanic("retry", cons, o) {
						continue
					}
					c.ob("retry", cons, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "%s fails again after a failure, although no system call fails", op.name)
					if ino := o.st.fsFile(str(policyPath)); ino >= 0 {
						c.ob("retry", cons, triOf(isNew(o.st.norm(o.st.fsContent(ino)))), o.st, token.NoPos, "%s, repeated after a failure, leaves a policy file with %s", op.name, o.st.show(o.st.fsContent(ino)))
					}
				}
			}
		}
	}
	// loading
	for _, verb := range []string{"LoadPolicy"} {
		cons := "FileAdapter." + verb
		c.scenario("%s with failing system calls", verb)
		c.x.fsFaults = faults
		f := c.fileAdapter(str(oldPolicy))
		mark := f.st.trace
		for _, o := range f.call(f.st, verb, c.sink()) {
			if !c.noPanic("report", cons, o) {
				continue
			}
			fs := faultsOf(o.st, mark)
			e := c.isErr(o.st, o.rets[0])
			if len(fs) > 0 {
				c.ob("report", cons, e, o.st, fs[0].pos, "%s: %s fails but no error is returned", verb, fs[0].name)
			} else {
				c.ob("clean", cons, negate(e), o.st, token.NoPos, "%s fails although no system call fails", verb)
			}
			c.ob("handles", cons, triOf(len(o.st.openHandles()) == 0), o.st, token.NoPos, "%s returns with open files", verb)
			for _, ev := range eventsOf(o.st, mark, "fs") {
				c.ob("atomic", cons, tNo, o.st, ev.pos, "%s changes files", verb)
			}
		}
		c.scenario("%s of a missing file", verb)
		c.x.fsFaults = 0
		f = c.fileAdapter(nil)
		for _, o := range f.call(f.st, verb, c.sink()) {
			if c.noPanic("report", cons, o) {
				c.ob("report", cons, c.isErr(o.st, o.rets[0]), o.st, token.NoPos, "%s of a missing file returns no error", verb)
			}
		}
	}
}

func fails2(s []*State) []*State { return s }

func faultsOf(st *State, mark *Event) []*Event { return eventsOf(st, mark, "fault") }

// leftovers: no other file remains.
func (f *fileSys) leftovers(cons, op string, st *State) {
	for _, k := range sortedVarKeys(st, "fs:path:") {
		t := st.vars[k].(Tuple)
		f.c.ob("clean", cons, triOf(K(t[0]) == K(str(policyPath))), st, token.NoPos, "%s leaves the file %s behind", op, st.show(t[0]))
	}
}

// values of a rule
var fieldValues = []string{"a", "", " ", "a b", " a", "a ", "a,b", ",", `"`, `a"b`, `"a"`, `""`, "#", "#a", "a#b", "a\nb", "\n", "a\n", "\t", "\ta", "a\t", "\u00a0a", "\u2003", `\`, `a\nb`, `'a'`, "a\rb", "\r", "a\r", "\ra", "a\r\r", "\n\r", "a\fb", "\va", "a\x00b", "\x00", "a,\"b\"", "\"a\",b", "a\\\"b", "a #b", "\u0085a", "\u2028", "ä", "日本", "\xff", "\ufeffa", `p.x==r.x && "a, b"`}

var fieldValuesCRLF = []string{"a\r\nb", "\r\n", "a\r\n"}

func runC16(c *C) {
	vals := fieldValues
	short2 := []string{"a", "", " a", "a ", "a,b", `"`, "#a", "a\nb", `""`}
	second := short2
	if c.thorough {
		second = vals
	}
	rt := func(cons string, rules ...[]Val) {
		f := c.fileAdapter(nil)
		var want []Val
		for _, r := range rules {
			want = append(want, f.st.snap(c.strs(f.st, r...)))
		}
		for _, o := range f.call(f.st, "SavePolicy", c.source(rules)) {
			if !c.noPanic("roundtrip", cons, o) {
				continue
			}
			c.ob("roundtrip", cons, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "SavePolicy of %s fails", showVals(o.st, want))
			content := ""
			if ino := o.st.fsFile(str(policyPath)); ino >= 0 {
				content = o.st.show(o.st.fsContent(ino))
			}
			ok, bad := f.load(o.st)
			for _, b := range bad {
				if c.noPanic("roundtrip", cons, b) {
					c.ob("roundtrip", cons, tNo, b.st, token.NoPos, "the rules %s are saved as %s, which can't be loaded", showVals(b.st, want), content)
				}
			}
			for _, l := range ok {
				c.ob("roundtrip", cons, c.sameSet(l.st, l.set, want), l.st, token.NoPos, "the rules %s are saved as %s, loaded are %s", showVals(l.st, want), content, showVals(l.st, l.set))
			}
		}
	}
	c.scenario("SavePolicy and LoadPolicy, constant values")
	for _, v := range vals {
		for _, w := range second {
			rt("FileAdapter.SavePolicy/LoadPolicy", []Val{str("p"), str(v), str(w)})
			rt("FileAdapter.SavePolicy/LoadPolicy", []Val{str("p"), str(w), str(v)})
		}
		rt("FileAdapter.SavePolicy/LoadPolicy", []Val{str("p"), str(v)}, []Val{str("g"), str("x"), str(v), str("y")}, []Val{str("p2"), str(v), str("z")})
	}
	for _, v := range vals {
		for _, w := range []string{"a", "", "#", " "} {
			rt("FileAdapter.SavePolicy/LoadPolicy", []Val{str(v), str(w)})
		}
	}
	rt("FileAdapter.SavePolicy/LoadPolicy", []Val{str("p")}, []Val{str("p"), str("a")}, []Val{str("p"), str("a"), str("b"), str("c"), str("d"), str("e"), str("f")})
	rt("FileAdapter.SavePolicy/LoadPolicy")
	for _, v := range fieldValuesCRLF {
		rt("values with \\r\\n", []Val{str("p"), str(v), str("b")})
	}
	c.scenario("SavePolicy and LoadPolicy, arbitrary values")
	rt("FileAdapter.SavePolicy/LoadPolicy", []Val{str("p"), in("x"), in("y")})
	c.scenario("edits of a file")
	alpha := []string{"a", "", "a,b", `"`, "#a", " a", "a\nb"}
	for _, v := range alpha {
		for _, w := range alpha {
			c.edit(v, w)
		}
	}
	c.scenario("comments and blank lines")
	text := "# a comment, with \"quotes\np, a, b\n\n   \n\t\n#\np,c,d\n  g, \"x, y\" , \"z\"\"\"\n"
	_ = text
	for _, t := range []struct {
		text string
		want [][]string
	}{
		{"# a comment, with quotes\np, a, b\n", [][]string{{"p", "a", "b"}}},
		{"# \"a\np, a, b\n#p, c, d\n\ng, x, y\n", [][]string{{"p", "a", "b"}, {"g", "x", "y"}}},
		{"\n\n   \n\t\np,c,d\n \n", [][]string{{"p", "c", "d"}}},
		{"p, a, b", [][]string{{"p", "a", "b"}}},
		{"p, a, b\r\np, c, d\r\n", [][]string{{"p", "a", "b"}, {"p", "c", "d"}}},
		{"p, \"a, b\", c\n", [][]string{{"p", "a, b", "c"}}},
		{"p,a,b\np,  a,  c\n", [][]string{{"p", "a", "b"}, {"p", "a", "c"}}},
		{"", nil},
		{"# only a comment", nil},
	} {
		cons := "FileAdapter.LoadPolicy"
		f := c.fileAdapter(str(t.text))
		var want []Val
		for _, r := range t.want {
			want = append(want, f.st.snap(c.strs(f.st, strVals(r)...)))
		}
		ok, bad := f.load(f.st)
		for _, b := range bad {
			if c.noPanic("comments", cons, b) {
				c.ob("comments", cons, tNo, b.st, token.NoPos, "the file %q can't be loaded", t.text)
			}
		}
		for _, l := range ok {
			c.ob("comments", cons, c.sameSet(l.st, l.set, want), l.st, token.NoPos, "the file %q is loaded as %s, expected is %s", t.text, showVals(l.st, l.set), showVals(l.st, want))
		}
		// line by line
		cons = "LoadPolicyLine"
		cur := []*State{f.st}
		mark := f.st.trace
		for _, line := range strings.Split(strings.ReplaceAll(t.text, "\r\n", "\n"), "\n") {
			var nxt []*State
			for _, s := range cur {
				for _, o := range c.call(s, c.fn("storage/adapter", "LoadPolicyLine"), str(line), c.sink()) {
					if c.noPanic("comments", cons, o) {
						c.ob("comments", cons, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "the line %q is an error", line)
						nxt = append(nxt, o.st)
					}
				}
			}
			cur = nxt
		}
		for _, s := range cur {
			var got []Val
			for _, e := range eventsOf(s, mark, "loaded") {
				got = append(got, e.args[0])
			}
			c.ob("comments", cons, c.sameSet(s, got, want), s, token.NoPos, "the lines of %q are loaded as %s, expected is %s", t.text, showVals(s, got), showVals(s, want))
		}
	}
	c.scenario("malformed files")
	for _, t := range []string{"p, \"a, b\n", "p, a\"b, c\n", "p, \"a\"b, c\n"} {
		cons := "FileAdapter.LoadPolicy"
		f := c.fileAdapter(str(t))
		ok, _ := f.load(f.st)
		for _, l := range ok {
			// bare quotes may be kept as they are, but nothing may be lost
			var got string
			for _, v := range l.set {
				got += l.st.show(v)
			}
			c.ob("malformed", cons, triOf(strings.Contains(got, "a") && strings.Contains(got, "b")), l.st, token.NoPos, "the malformed file %q is loaded as %s without an error", t, showVals(l.st, l.set))
		}
		if len(ok) == 0 {
			c.ob("malformed", cons, tYes, f.st, token.NoPos, "")
		}
	}
	c.scenario("errors of the receiver")
	f := c.fileAdapter(str(oldPolicy))
	rej := c.fake("rejecting", func(x *X, st *State, method string, args []Val, site ssa.Instruction) []Outcome {
		var outs []Outcome
		for _, b := range x.fails(st, "AddRule", nil, site) {
			if b.v {
				outs = append(outs, ret(b.st, boolean(false), newError(str("rejected")))...)
			} else {
				outs = append(outs, ret(b.st, boolean(true), nilErr)...)
			}
		}
		return outs
	}, c.typ("api", "IAddRuleBool"))
	for _, o := range f.call(f.st, "LoadPolicy", rej) {
		if c.noPanic("malformed", "FileAdapter.LoadPolicy", o) {
			t := c.isErr(o.st, o.rets[0])
			if len(faultsOf(o.st, f.st.trace)) == 0 {
				t = negate(t)
			}
			c.ob("malformed", "FileAdapter.LoadPolicy", t, o.st, token.NoPos, "the receiver of the rules rejected %d rules, LoadPolicy returns %s", len(faultsOf(o.st, f.st.trace)), o.st.show(o.rets[0]))
		}
	}
}

func strVals(r []string) []Val {
	var vs []Val
	for _, s := range r {
		vs = append(vs, str(s))
	}
	return vs
}

// edit adds and removes a rule in a file with other rules
func (c *C) edit(v, w string) {
	base := [][]Val{{str("p"), str(v), str("k")}, {str("g"), str("k"), str(w)}}
	rule := []Val{str("p"), str(v), str(w)}
	other := []Val{str("p"), str(w), str(v), str("x")}
	type step struct {
		verb  string
		rules [][]Val
	}
	hist := [][]step{
		{{"AddRule", [][]Val{rule}}, {"AddRule", [][]Val{rule}}, {"RemoveRule", [][]Val{base[0]}}},
		{{"AddRules", [][]Val{rule, other}}, {"RemoveRules", [][]Val{other, base[1]}}},
		{{"AddRules", [][]Val{base[0], other, base[1], rule, other}}, {"RemoveRules", [][]Val{base[0], {str("p"), str("missing")}, other, other}}, {"RemoveRules", [][]Val{base[0], base[1]}}},
		{{"AddRules", nil}, {"RemoveRules", nil}, {"RemoveRule", [][]Val{other}}},
		{{"RemoveRule", [][]Val{rule}}, {"RemoveRules", [][]Val{base[0], base[1]}}, {"AddRule", [][]Val{other}}},
	}
	for _, steps := range hist {
		f := c.fileAdapter(nil)
		set := map[string]Val{}
		for _, r := range base {
			k := f.st.snap(c.strs(f.st, r...))
			set[K(k)] = k
		}
		var cur []*State
		for _, o := range f.call(f.st, "SavePolicy", c.source(base)) {
			if o.kind == oRet {
				cur = append(cur, o.st)
			}
		}
		desc := ""
		for _, s := range steps {
			cons := "FileAdapter." + s.verb
			for _, r := range s.rules {
				k := f.st.snap(c.strs(f.st, r...))
				if strings.HasPrefix(s.verb, "Add") {
					set[K(k)] = k
				} else {
					delete(set, K(k))
				}
				desc += fmt.Sprintf("%s %s, ", s.verb, f.st.show(k))
			}
			var want []Val
			for _, v := range set {
				want = append(want, v)
			}
			var nxt []*State
			for _, st := range cur {
				var a Val
				if strings.HasSuffix(s.verb, "s") {
					var rs []Val
					for _, r := range s.rules {
						rs = append(rs, c.strs(st, r...))
					}
					a = c.strss(st, rs...)
				} else {
					a = c.strs(st, s.rules[0]...)
				}
				for _, o := range f.call(st, s.verb, a) {
					if !c.noPanic("edit", cons, o) {
						continue
					}
					c.ob("edit", cons, negate(c.isErr(o.st, o.rets[0])), o.st, token.NoPos, "%sfails", desc)
					ok, bad := f.load(o.st)
					for _, b := range bad {
						c.ob("edit", cons, tNo, b.st, token.NoPos, "after %sthe file can't be loaded", desc)
					}
					for _, l := range ok {
						c.ob("edit", cons, c.sameSet(l.st, l.set, want), l.st, token.NoPos, "after %sthe file contains %s, expected is %s", desc, showVals(l.st, l.set), showVals(l.st, want))
					}
					if len(nxt) == 0 { // the order of the lines does not matter
						nxt = append(nxt, o.st)
					}
				}
			}
			cur = nxt
		}
	}
}

func init() {
	register(&Check{
		id:        "C15",
		technique: "abstract interpretation of the file adapter over a model of the file system with a failure fork at every system call",
		rules: map[string]string{
			"atomic":  "at every point of the operation, however it ends, the policy file is the complete old or the complete new policy; if the operation succeeds it is the new one",
			"durable": "the file that replaces the policy file has been synchronised before",
			"report":  "a failing system call (open, read, write, sync, close of a written file, rename) makes the operation return an error",
			"clean":   "without failures the operation succeeds and leaves no other files",
			"handles": "every file opened is closed when the operation returns",
			"retry":   "after a failure the same operation works",
		},
		run: runC15,
	})
	register(&Check{
		id:        "C16",
		technique: "abstract interpretation of the file adapter over a model of the file system; rules written compared with rules read",
		rules: map[string]string{
			"roundtrip": "LoadPolicy returns exactly the rules SavePolicy has written, whatever their values contain",
			"edit":      "AddRule, RemoveRule, AddRules and RemoveRules change exactly the rules they are given in the file",
			"comments":  "comments and blank lines are no rules; LoadPolicyLine reads a line like LoadPolicy",
			"malformed": "rules of a malformed file are not lost silently; errors of the receiver are returned",
		},
		run: runC16,
	})
}
