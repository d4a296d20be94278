package main

import (
	"encoding/csv"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// A model of files, writers and readers. Contents are string values; every system call may fail
// (at most x.fsFaults failures per path).

const fsNext = "fs:next"

func globalVal(name string, t types.Type) Val {
	n := "nn:global " + name
	return &Term{op: n, typ: t, key: n}
}

var errEOF = globalVal("io.EOF", tError)

func (st *State) fsNum(k string) int {
	n, _ := constInt(st.vars[k])
	return n
}

// fsFile returns the inode of a path, or -1.
func (st *State) fsFile(path Val) int {
	if t, ok := st.vars["fs:path:"+K(path)].(Tuple); ok {
		n, _ := constInt(t[1])
		return n
	}
	return -1
}

func (st *State) fsContent(ino int) Val { return st.vars[fmt.Sprintf("fs:ino:%d", ino)] }

func (st *State) fsDirty(ino int, d bool) {
	st.vars[fmt.Sprintf("fs:dirty:%d", ino)] = boolean(d)
}

func (st *State) fsIsDirty(ino int) bool {
	return isTrue(st.vars[fmt.Sprintf("fs:dirty:%d", ino)])
}

// fsLink binds a path to an inode (-1 removes it) and emits the visible content.
func (st *State) fsLink(path Val, ino int, pos token.Pos) {
	k := "fs:path:" + K(path)
	if ino < 0 {
		delete(st.vars, k)
		st.event(&Event{kind: "fs", name: "remove", args: []Val{path}, pos: pos})
		return
	}
	st.vars[k] = Tuple{path, num(ino)}
	st.event(&Event{kind: "fs", name: "link", args: []Val{path}, res: []Val{st.fsContent(ino), boolean(st.fsIsDirty(ino))}, pos: pos})
}

// fsSet changes the content of an inode and emits it for every path.
func (st *State) fsSet(ino int, content Val, pos token.Pos) {
	st.vars[fmt.Sprintf("fs:ino:%d", ino)] = st.norm(content)
	st.fsDirty(ino, true)
	for _, k := range sortedVarKeys(st, "fs:path:") {
		t := st.vars[k].(Tuple)
		if n, _ := constInt(t[1]); n == ino {
			st.event(&Event{kind: "fs", name: "content", args: []Val{t[0]}, res: []Val{st.fsContent(ino)}, pos: pos})
		}
	}
}

func sortedVarKeys(st *State, prefix string) []string {
	m := map[string]bool{}
	for k := range st.vars {
		if strings.HasPrefix(k, prefix) {
			m[k] = true
		}
	}
	return sortedKeys(m)
}

func (st *State) fsNew(content Val) int {
	n := st.fsNum(fsNext) + 1
	st.vars[fsNext] = num(n)
	st.vars[fmt.Sprintf("fs:ino:%d", n)] = content
	st.fsDirty(n, false)
	return n
}

// fsPut creates a file (set-up of a scenario).
func (st *State) fsPut(path, content Val) {
	n := st.fsNew(content)
	st.vars["fs:path:"+K(path)] = Tuple{path, num(n)}
}

// sysFails forks on the failure of a system call.
func (x *X) sysFails(st *State, what string, site ssa.Instruction) []splitRes {
	if len(eventsOf(st, nil, "fault")) >= x.fsFaults {
		return []splitRes{{st, false}}
	}
	return x.fails(st, what, nil, site)
}

var fsErr = newError(str("file system failure"))
var notExist = newError(str("file does not exist"))

// file handles
type fileH struct {
	ino  int
	open bool
	app  bool
	path Val
	id   string
}

func (x *X) newFile(st *State, path Val, ino int, pos token.Pos) Val {
	t := x.w.ext("os", "File")
	p := st.newCell(&Term{op: "nn:osfile", typ: t, key: fmt.Sprintf("nn:osfile%d", len(st.heap))}, "os.File")
	st.vars["fs:h:"+K(p)] = Tuple{num(ino), boolean(true), path}
	st.event(&Event{kind: "open", name: K(p), args: []Val{path}, pos: pos})
	return p
}

func (x *X) fileOf(st *State, v Val) (fileH, bool) {
	p := x.deref(st, v)
	if p == nil {
		return fileH{}, false
	}
	t, ok := st.vars["fs:h:"+K(p)].(Tuple)
	if !ok {
		panic(abort{"unknown file " + K(v)})
	}
	n, _ := constInt(t[0])
	return fileH{ino: n, open: isTrue(t[1]), path: t[2], id: K(p)}, true
}

// openHandles returns the paths of the open files.
func (st *State) openHandles() []Val {
	var r []Val
	for _, k := range sortedVarKeys(st, "fs:h:") {
		t := st.vars[k].(Tuple)
		if isTrue(t[1]) {
			r = append(r, t[2])
		}
	}
	return r
}

// writeTo writes data to a writer; the outcomes return only an error.
func (x *X) writeTo(st *State, w Val, data Val, site ssa.Instruction) []Outcome {
	w = st.norm(w)
	if i, ok := w.(*Iface); ok {
		switch typeName(i.typ) {
		case "*os.File":
			return x.fileWrite(st, i.val, data, site)
		case "*bufio.Writer":
			return x.bufWrite(st, i.val, data, site)
		case "*strings.Builder", "*bytes.Buffer":
			k := "sb:" + K(x.deref(st, i.val))
			old, ok := st.vars[k]
			if !ok {
				old = str("")
			}
			st.vars[k] = cat(old, data)
			return ret(st, nilErr)
		}
		if _, ok := i.val.(*Ptr); ok {
			// a writer of the repository
			var outs []Outcome
			for _, o := range x.invokeByName(st, i, "Write", []Val{T("bytes", types.NewSlice(tByte), data)}, site) {
				if o.kind == oRet {
					o.rets = o.rets[1:]
				}
				outs = append(outs, o)
			}
			return outs
		}
	}
	panic(abort{"write to " + K(w)})
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (x *X) fileWrite(st *State, f, data Val, site ssa.Instruction) []Outcome {
	h, ok := x.fileOf(st, f)
	if !ok || !h.open {
		return ret(st, newError(str("file already closed")))
	}
	if s, ok := constStr(data); ok && s == "" {
		return ret(st, nilErr)
	}
	var outs []Outcome
	st.vars[fmt.Sprintf("fs:written:%d", h.ino)] = boolean(true)
	for _, b := range x.sysFails(st, "write", site) {
		old := b.st.fsContent(h.ino)
		if b.v {
			b.st.fsSet(h.ino, cat(old, T("partial", tString, data)), posOf(site))
			outs = append(outs, ret(b.st, fsErr)...)
		} else {
			b.st.fsSet(h.ino, cat(old, data), posOf(site))
			outs = append(outs, ret(b.st, nilErr)...)
		}
	}
	return outs
}

// bufio.Writer: vars "bw:<ptr>" = {underlying, buffer, err}
func (x *X) bufWrite(st *State, w, data Val, site ssa.Instruction) []Outcome {
	p := x.deref(st, w)
	if p == nil {
		return nilDeref(st)
	}
	k := "bw:" + K(p)
	t, ok := st.vars[k].(Tuple)
	if !ok {
		panic(abort{"unknown bufio.Writer"})
	}
	if !isNilConst(t[2]) {
		return ret(st, t[2])
	}
	buf := cat(t[1], data)
	// the buffer may be full at any time
	if st.fsNum("fs:spill:"+K(p)) < x.fsSpills {
		s2 := st.clone()
		s2.vars["fs:spill:"+K(p)] = num(s2.fsNum("fs:spill:"+K(p)) + 1)
		s2.vars[k] = Tuple{t[0], buf, t[2]}
		st.vars[k] = Tuple{t[0], buf, t[2]}
		outs := ret(st, nilErr)
		for _, o := range x.bufFlush(s2, p, site) {
			outs = append(outs, o)
		}
		return outs
	}
	st.vars[k] = Tuple{t[0], buf, t[2]}
	return ret(st, nilErr)
}

func (x *X) bufFlush(st *State, p *Ptr, site ssa.Instruction) []Outcome {
	k := "bw:" + K(p)
	t, ok := st.vars[k].(Tuple)
	if !ok {
		panic(abort{"unknown bufio.Writer"})
	}
	if !isNilConst(t[2]) {
		return ret(st, t[2])
	}
	var outs []Outcome
	for _, o := range x.writeTo(st, t[0], t[1], site) {
		if o.kind == oRet {
			if isNilConst(o.rets[0]) {
				o.st.vars[k] = Tuple{t[0], str(""), nilErr}
			} else {
				o.st.vars[k] = Tuple{t[0], t[1], o.rets[0]}
			}
		}
		outs = append(outs, o)
	}
	return outs
}

// readAll returns the whole content of a reader.
func (x *X) readAll(st *State, r Val) Val {
	r = st.norm(r)
	if i, ok := r.(*Iface); ok {
		r = st.norm(i.val)
	}
	p := x.deref(st, r)
	if p == nil {
		panic(abort{"nil reader"})
	}
	if t, ok := st.vars["fs:h:"+K(p)].(Tuple); ok {
		if !isTrue(t[1]) {
			panic(abort{"read of a closed file"})
		}
		n, _ := constInt(t[0])
		return st.norm(st.fsContent(n))
	}
	if v, ok := st.vars["rd:"+K(p)]; ok {
		if i, ok := v.(*Iface); ok {
			return x.readAll(st, i)
		}
		return st.norm(v)
	}
	if v, ok := st.vars["sb:"+K(p)]; ok {
		return st.norm(v)
	}
	panic(abort{"unknown reader " + K(r)})
}

func isFileReader(st *State, r Val) bool {
	r = st.norm(r)
	if i, ok := r.(*Iface); ok {
		r = st.norm(i.val)
	}
	p, ok := r.(*Ptr)
	if !ok {
		return false
	}
	if _, ok := st.vars["fs:h:"+K(p)]; ok {
		return true
	}
	if i, ok := st.vars["rd:"+K(p)].(*Iface); ok {
		return isFileReader(st, i)
	}
	return false
}

// structField reads a field of a struct in the heap by name.
func structField(st *State, p *Ptr, name string) (Val, bool) {
	v := st.norm(st.load(p))
	t := typeOf(v)
	if t == nil {
		return nil, false
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			e := expand(v, t)
			return st.norm(getPath(e, []int{i})), true
		}
	}
	return nil, false
}

type csvRecord struct {
	fields []Val
	err    bool
}

// csvRecords parses the content of a csv.Reader with its options.
func (x *X) csvRecords(st *State, p *Ptr) []csvRecord {
	content := x.readAll(st, st.vars["csv:"+K(p)])
	opt := csv.NewReader(strings.NewReader(""))
	num := func(name string) int {
		v, _ := structField(st, p, name)
		n, _ := constInt(v)
		return n
	}
	flag := func(name string) bool {
		v, _ := structField(st, p, name)
		return isTrue(v)
	}
	opt.Comma, opt.Comment, opt.FieldsPerRecord = rune(num("Comma")), rune(num("Comment")), num("FieldsPerRecord")
	opt.TrimLeadingSpace, opt.LazyQuotes = flag("TrimLeadingSpace"), flag("LazyQuotes")
	if s, ok := constStr(content); ok {
		r := csv.NewReader(strings.NewReader(s))
		r.Comma, r.Comment, r.FieldsPerRecord, r.TrimLeadingSpace, r.LazyQuotes = opt.Comma, opt.Comment, opt.FieldsPerRecord, opt.TrimLeadingSpace, opt.LazyQuotes
		var out []csvRecord
		for {
			rec, err := r.Read()
			if err == io.EOF {
				return out
			}
			var fs []Val
			for _, f := range rec {
				fs = append(fs, str(f))
			}
			if err != nil {
				return append(out, csvRecord{err: true, fields: fs})
			}
			out = append(out, csvRecord{fields: fs})
		}
	}
	if recs, ok := symCSV(st, content, opt); ok {
		return recs
	}
	panic(abort{"csv content is not understood: " + st.show(content)})
}

// symCSV parses a text whose opaque parts are known to be plain or quoted.
func symCSV(st *State, content Val, opt *csv.Reader) ([]csvRecord, bool) {
	if opt.FieldsPerRecord >= 0 {
		return nil, false
	}
	type item struct {
		r rune
		v Val // opaque part
	}
	var items []item
	for _, p := range catParts(content) {
		if s, ok := constStr(p); ok {
			for _, r := range s {
				items = append(items, item{r: r})
			}
			continue
		}
		items = append(items, item{v: p})
	}
	hasFact := func(op string, v Val, want string) bool {
		for _, f := range st.facts {
			t, ok := f.t.(*Term)
			if !ok || f.v || t.op != op || len(t.args) != 2 || K(t.args[0]) != K(v) {
				continue
			}
			if s, ok := constStr(t.args[1]); ok && strings.Contains(s, want) {
				return true
			}
		}
		return false
	}
	noChar := func(v Val, r rune) bool {
		if hasFact("containsany", v, string(r)) {
			return true
		}
		for _, f := range st.facts {
			t, ok := f.t.(*Term)
			if ok && !f.v && (t.op == "contains" || t.op == "containsrune") && K(t.args[0]) == K(v) {
				if s, ok := constStr(t.args[1]); ok && s == string(r) {
					return true
				}
			}
		}
		return false
	}
	notSpace := func(v Val) bool {
		for _, op := range []string{"call:strings.TrimLeftFunc", "trimspace", "call:strings.TrimFunc", "trimleftfunc"} {
			for _, f := range st.facts {
				t, ok := f.t.(*Term)
				if ok && f.v && t.op == "eq" {
					for i := 0; i < 2; i++ {
						u, ok := t.args[i].(*Term)
						if ok && u.op == op && K(u.args[0]) == K(v) && K(t.args[1-i]) == K(v) {
							return true
						}
					}
				}
			}
		}
		for k, v2 := range st.repr { // the equality may be a binding
			if strings.Contains(k, "TrimLeftFunc") || strings.Contains(k, "trimspace") || strings.Contains(k, "trimleftfunc") {
				if K(v2) == K(v) && strings.Contains(k, K(v)) {
					return true
				}
			}
		}
		return false
	}
	var out []csvRecord
	i := 0
	for i < len(items) {
		// one record
		if items[i].v == nil {
			if items[i].r == '\n' { // csv skips empty lines
				i++
				continue
			}
			if opt.Comment != 0 && items[i].r == opt.Comment {
				for i < len(items) && !(items[i].v == nil && items[i].r == '\n') {
					if items[i].v != nil && !noChar(items[i].v, '\n') {
						return nil, false
					}
					i++
				}
				i++
				continue
			}
		}
		var rec []Val
		first := true
		for {
			if opt.TrimLeadingSpace {
				for i < len(items) && items[i].v == nil && items[i].r != '\n' && unicode.IsSpace(items[i].r) {
					i++
				}
			}
			var parts []Val
			if i < len(items) && items[i].v == nil && items[i].r == '"' {
				i++
				closed := false
				for i < len(items) {
					it := items[i]
					if it.v == nil {
						if it.r == '"' {
							if i+1 < len(items) && items[i+1].v == nil && items[i+1].r == '"' {
								parts = append(parts, str(`"`))
								i += 2
								continue
							}
							closed = true
							i++
							break
						}
						parts = append(parts, str(string(it.r)))
						i++
						continue
					}
					t, ok := it.v.(*Term)
					if !ok {
						return nil, false
					}
					if t.op == "replaceall" && len(t.args) == 3 {
						a, _ := constStr(t.args[1])
						b, _ := constStr(t.args[2])
						if a == `"` && b == `""` {
							parts = append(parts, t.args[0])
							i++
							continue
						}
					}
					if !noChar(it.v, '"') {
						return nil, false
					}
					parts = append(parts, it.v)
					i++
				}
				if !closed {
					return nil, false
				}
			} else {
				start := true
				for i < len(items) {
					it := items[i]
					if it.v == nil {
						if it.r == opt.Comma || it.r == '\n' {
							break
						}
						if it.r == '"' || it.r == '\r' {
							return nil, false
						}
						parts = append(parts, str(string(it.r)))
						i++
						start = false
						continue
					}
					if !noChar(it.v, opt.Comma) || !noChar(it.v, '"') || !noChar(it.v, '\n') || !noChar(it.v, '\r') {
						return nil, false
					}
					if start && opt.TrimLeadingSpace && !notSpace(it.v) {
						return nil, false
					}
					if start && first && opt.Comment != 0 {
						if k, b := st.decide(T("hasprefix", tBool, it.v, str(string(opt.Comment)))); !k || b {
							return nil, false
						}
					}
					parts = append(parts, it.v)
					i++
					start = false
				}
			}
			rec = append(rec, cat(parts...))
			first = false
			if i >= len(items) {
				break
			}
			if items[i].v == nil && items[i].r == opt.Comma {
				i++
				continue
			}
			if items[i].v == nil && items[i].r == '\n' {
				i++
				break
			}
			return nil, false
		}
		out = append(out, csvRecord{fields: rec})
	}
	return out, true
}

func init() {
	m := libModels
	P := func(name string, f func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome) {
		m[name] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			as := make([]Val, len(a))
			for i, v := range a {
				as[i] = st.norm(v)
			}
			return f(x, st, as, site)
		}
	}
	nilFile := func(x *X) Val { return nilOf(types.NewPointer(x.w.ext("os", "File"))) }
	open := func(x *X, st *State, path Val, create, trunc, excl, app bool, site ssa.Instruction) []Outcome {
		var outs []Outcome
		for _, b := range x.sysFails(st, "open", site) {
			if b.v {
				outs = append(outs, ret(b.st, nilFile(x), fsErr)...)
				continue
			}
			s := b.st
			ino := s.fsFile(path)
			if ino < 0 {
				if !create {
					outs = append(outs, ret(s, nilFile(x), notExist)...)
					continue
				}
				ino = s.fsNew(str(""))
				s.fsLink(path, ino, posOf(site))
			} else if excl {
				outs = append(outs, ret(s, nilFile(x), newError(str("file exists")))...)
				continue
			} else if trunc {
				s.fsSet(ino, str(""), posOf(site))
			} else if create && !app {
				s.vars[fmt.Sprintf("fs:overwrite:%d", ino)] = boolean(true)
			}
			outs = append(outs, ret(s, x.newFile(s, path, ino, posOf(site)), nilErr)...)
		}
		return outs
	}
	P("os.Open", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		return open(x, st, a[0], false, false, false, false, site)
	})
	P("os.Create", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		return open(x, st, a[0], true, true, false, false, site)
	})
	P("os.OpenFile", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		f, ok := constInt(a[1])
		if !ok {
			panic(abort{"flags of OpenFile"})
		}
		return open(x, st, a[0], f&0x40 != 0, f&0x200 != 0, f&0x80 != 0, f&0x400 != 0, site)
	})
	temp := func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		st.nfresh++
		return open(x, st, st.fresh("tempfile", tString), true, true, false, false, site)
	}
	P("os.CreateTemp", temp)
	P("io/ioutil.TempFile", temp)
	rename := func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		var outs []Outcome
		for _, b := range x.sysFails(st, "rename", site) {
			s := b.st
			ino := s.fsFile(a[0])
			switch {
			case b.v:
				outs = append(outs, ret(s, fsErr)...)
			case ino < 0:
				outs = append(outs, ret(s, notExist)...)
			default:
				delete(s.vars, "fs:path:"+K(a[0]))
				s.fsLink(a[1], ino, posOf(site))
				outs = append(outs, ret(s, nilErr)...)
			}
		}
		return outs
	}
	P("os.Rename", rename)
	P("os.Link", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		if ino := st.fsFile(a[0]); ino >= 0 {
			st.fsLink(a[1], ino, posOf(site))
			return ret(st, nilErr)
		}
		return ret(st, notExist)
	})
	P("os.Remove", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		if st.fsFile(a[0]) < 0 {
			return ret(st, notExist)
		}
		var outs []Outcome
		for _, b := range x.sysFails(st, "remove", site) {
			if b.v {
				outs = append(outs, ret(b.st, fsErr)...)
				continue
			}
			b.st.fsLink(a[0], -1, posOf(site))
			outs = append(outs, ret(b.st, nilErr)...)
		}
		return outs
	})
	stat := func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		t := x.w.ext("os", "FileInfo")
		if st.fsFile(a[0]) < 0 {
			return ret(st, nilOf(t), notExist)
		}
		return ret(st, T("nn:fileinfo", t, a[0]), nilErr)
	}
	P("os.Stat", stat)
	P("os.Lstat", stat)
	P("os.IsNotExist", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		return ret(st, boolean(K(a[0]) == K(notExist)))
	})
	readFile := func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		t := types.NewSlice(tByte)
		var outs []Outcome
		for _, b := range x.sysFails(st, "read", site) {
			ino := b.st.fsFile(a[0])
			switch {
			case b.v:
				outs = append(outs, ret(b.st, zero(t), fsErr)...)
			case ino < 0:
				outs = append(outs, ret(b.st, zero(t), notExist)...)
			default:
				outs = append(outs, ret(b.st, T("bytes", t, b.st.norm(b.st.fsContent(ino))), nilErr)...)
			}
		}
		return outs
	}
	P("os.ReadFile", readFile)
	P("io/ioutil.ReadFile", readFile)
	writeFile := func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		data := bytesStr(st, a[1])
		var outs []Outcome
		for _, o := range open(x, st, a[0], true, true, false, false, site) {
			if !isNilConst(o.rets[1]) {
				outs = append(outs, ret(o.st, o.rets[1])...)
				continue
			}
			for _, q := range x.fileWrite(o.st, o.rets[0], data, site) {
				k := "fs:h:" + K(o.rets[0])
				t := q.st.vars[k].(Tuple)
				q.st.vars[k] = Tuple{t[0], boolean(false), t[2]}
				outs = append(outs, q)
			}
		}
		return outs
	}
	P("os.WriteFile", writeFile)
	P("io/ioutil.WriteFile", writeFile)
	for _, n := range []string{"os.MkdirAll", "os.Mkdir", "os.Chmod"} {
		P(n, func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome { return ret(st, nilErr) })
	}
	// methods of *os.File
	P("(*os.File).Close", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		h, ok := x.fileOf(st, a[0])
		if !ok || !h.open {
			return ret(st, newError(str("file already closed")))
		}
		st.vars["fs:h:"+h.id] = Tuple{num(h.ino), boolean(false), h.path}
		st.event(&Event{kind: "close", name: h.id, args: []Val{h.path}, pos: posOf(site)})
		if !isTrue(st.vars[fmt.Sprintf("fs:written:%d", h.ino)]) {
			return ret(st, nilErr) // nothing can be lost
		}
		var outs []Outcome
		for _, b := range x.sysFails(st, "close", site) {
			if b.v {
				outs = append(outs, ret(b.st, fsErr)...)
			} else {
				outs = append(outs, ret(b.st, nilErr)...)
			}
		}
		return outs
	})
	P("(*os.File).Sync", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		h, ok := x.fileOf(st, a[0])
		if !ok || !h.open {
			return ret(st, newError(str("file already closed")))
		}
		var outs []Outcome
		for _, b := range x.sysFails(st, "sync", site) {
			if b.v {
				outs = append(outs, ret(b.st, fsErr)...)
			} else {
				b.st.fsDirty(h.ino, false)
				outs = append(outs, ret(b.st, nilErr)...)
			}
		}
		return outs
	})
	P("(*os.File).Name", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		h, ok := x.fileOf(st, a[0])
		if !ok {
			return nilDeref(st)
		}
		return ret(st, h.path)
	})
	P("(*os.File).Chmod", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome { return ret(st, nilErr) })
	P("(*os.File).Truncate", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		h, ok := x.fileOf(st, a[0])
		if n, isC := constInt(a[1]); ok && isC && n == 0 {
			st.fsSet(h.ino, str(""), posOf(site))
			return ret(st, nilErr)
		}
		panic(abort{"File.Truncate"})
	})
	P("(*os.File).Seek", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome { return ret(st, num(0), nilErr) })
	lenOf := func(v Val) Val { return lenTerm(v) }
	withLen := func(outs []Outcome, data Val) []Outcome {
		for i := range outs {
			if outs[i].kind == oRet {
				outs[i].rets = []Val{lenOf(outs[i].st.norm(data)), outs[i].rets[0]}
			}
		}
		return outs
	}
	P("(*os.File).WriteString", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		return withLen(x.fileWrite(st, a[0], a[1], site), a[1])
	})
	P("(*os.File).Write", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		d := bytesStr(st, a[1])
		return withLen(x.fileWrite(st, a[0], d, site), d)
	})
	// bufio.Writer
	newWriter := func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		t := x.w.ext("bufio", "Writer")
		p := st.newCell(&Term{op: "nn:bufio.Writer", typ: t, key: fmt.Sprintf("nn:bufio.Writer%d", len(st.heap))}, "bufio.Writer")
		st.vars["bw:"+K(p)] = Tuple{a[0], str(""), nilErr}
		return ret(st, p)
	}
	P("bufio.NewWriter", newWriter)
	P("bufio.NewWriterSize", newWriter)
	bw := func(name string, conv func(st *State, v Val) Val, withN bool) {
		P("(*bufio.Writer)."+name, func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			d := conv(st, a[1])
			outs := x.bufWrite(st, a[0], d, site)
			if withN {
				return withLen(outs, d)
			}
			return outs
		})
	}
	bw("WriteString", func(st *State, v Val) Val { return v }, true)
	bw("Write", bytesStr, true)
	bw("WriteByte", func(st *State, v Val) Val { return runeStr(v) }, false)
	bw("WriteRune", func(st *State, v Val) Val { return runeStr(v) }, true)
	P("(*bufio.Writer).Flush", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		p := x.deref(st, a[0])
		if p == nil {
			return nilDeref(st)
		}
		return x.bufFlush(st, p, site)
	})
	P("io.WriteString", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		return withLen(x.writeTo(st, a[0], a[1], site), a[1])
	})
	fpr := func(kind string) Model {
		return withSlices(func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			var d Val
			switch kind {
			case "f":
				f, ok := constStr(st.norm(a[1]))
				if ok {
					d = format(st, f, elemsOf(st, a[2]))
				}
			default:
				var ps []Val
				for i, e := range elemsOf(st, a[1]) {
					if i > 0 && kind == "ln" {
						ps = append(ps, str(" "))
					}
					p := formatArg(st, 'v', false, e)
					if p == nil {
						panic(abort{"Fprint"})
					}
					ps = append(ps, p)
				}
				if kind == "ln" {
					ps = append(ps, str("\n"))
				}
				d = cat(ps...)
			}
			if d == nil {
				panic(abort{"Fprintf"})
			}
			return withLen(x.writeTo(st, st.norm(a[0]), st.norm(d), site), d)
		})
	}
	m["fmt.Fprintf"] = withStringers(fpr("f"), 2)
	m["fmt.Fprint"] = withStringers(fpr(""), 1)
	m["fmt.Fprintln"] = withStringers(fpr("ln"), 1)
	// csv.Writer
	P("encoding/csv.NewWriter", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		t := x.w.ext("encoding/csv", "Writer")
		p := st.newCell(zero(t), "csv.Writer")
		bo := newWriter(x, st, a, site)
		st.vars["cw:"+K(p)] = bo[0].rets[0]
		x.setField(st, p, "Comma", &Const{constant.MakeInt64(','), types.Typ[types.Rune]})
		return ret(st, p)
	})
	csvLine := func(x *X, st *State, p *Ptr, rec Val) Val {
		var sb strings.Builder
		w := csv.NewWriter(&sb)
		if v, ok := structField(st, p, "Comma"); ok {
			if n, ok := constInt(v); ok {
				w.Comma = rune(n)
			}
		}
		if v, ok := structField(st, p, "UseCRLF"); ok {
			w.UseCRLF = isTrue(v)
		}
		var fs []string
		for _, e := range elemsOf(st, rec) {
			s, ok := constStr(e)
			if !ok {
				return T("csvline", tString, st.snap(rec))
			}
			fs = append(fs, s)
		}
		if w.Write(fs) != nil {
			return nil
		}
		w.Flush()
		return str(sb.String())
	}
	m["(*encoding/csv.Writer).Write"] = withSlices(func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		p := x.deref(st, a[0])
		if p == nil {
			return nilDeref(st)
		}
		l := csvLine(x, st, p, a[1])
		if l == nil {
			return ret(st, newError(str("csv")))
		}
		return x.bufWrite(st, st.vars["cw:"+K(p)], l, site)
	})
	P("(*encoding/csv.Writer).Flush", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		p := x.deref(st, a[0])
		outs := x.bufFlush(st, x.deref(st, st.vars["cw:"+K(p)]), site)
		for i := range outs {
			outs[i].rets = nil
		}
		return outs
	})
	P("(*encoding/csv.Writer).Error", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		p := x.deref(st, a[0])
		t := st.vars["bw:"+K(st.vars["cw:"+K(p)])].(Tuple)
		return ret(st, t[2])
	})
	// readers
	rd := func(path, name string) func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		return func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			t := x.w.ext(path, name)
			p := st.newCell(&Term{op: "nn:" + path + "." + name, typ: t, key: fmt.Sprintf("nn:reader%d", len(st.heap))}, name)
			v := a[0]
			if _, ok := v.(*Slice); ok {
				v = bytesStr(st, v)
			}
			if tm, ok := v.(*Term); ok && tm.op == "bytes" {
				v = tm.args[0]
			}
			st.vars["rd:"+K(p)] = v
			return ret(st, p)
		}
	}
	P("strings.NewReader", rd("strings", "Reader"))
	P("bufio.NewReader", rd("bufio", "Reader"))
	P("bufio.NewScanner", rd("bufio", "Scanner"))
	P("bytes.NewReader", rd("bytes", "Reader"))
	readAll := func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		t := types.NewSlice(tByte)
		alts := []splitRes{{st, false}}
		if isFileReader(st, a[0]) {
			alts = x.sysFails(st, "read", site)
		}
		var outs []Outcome
		for _, b := range alts {
			if b.v {
				outs = append(outs, ret(b.st, zero(t), fsErr)...)
			} else {
				outs = append(outs, ret(b.st, T("bytes", t, x.readAll(b.st, a[0])), nilErr)...)
			}
		}
		return outs
	}
	P("io.ReadAll", readAll)
	P("io/ioutil.ReadAll", readAll)
	// scanner: lines
	lines := func(x *X, st *State, v Val) []string {
		s, ok := constStr(x.readAll(st, v))
		if !ok {
			panic(abort{"lines of an unknown text"})
		}
		if s == "" {
			return nil
		}
		ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
		for i := range ls {
			ls[i] = strings.TrimSuffix(ls[i], "\r")
		}
		return ls
	}
	P("(*bufio.Scanner).Scan", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		k := "scan:" + K(a[0])
		n := st.fsNum(k)
		alts := []splitRes{{st, false}}
		if isFileReader(st, a[0]) {
			alts = x.sysFails(st, "read", site)
		}
		var outs []Outcome
		for _, b := range alts {
			if b.v {
				b.st.vars["scanerr:"+K(a[0])] = fsErr
				outs = append(outs, ret(b.st, boolean(false))...)
				continue
			}
			ls := lines(x, b.st, a[0])
			if n >= len(ls) {
				outs = append(outs, ret(b.st, boolean(false))...)
				continue
			}
			b.st.vars[k] = num(n + 1)
			b.st.vars["scanline:"+K(a[0])] = str(ls[n])
			outs = append(outs, ret(b.st, boolean(true))...)
		}
		return outs
	})
	P("(*bufio.Scanner).Text", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		if v, ok := st.vars["scanline:"+K(a[0])]; ok {
			return ret(st, v)
		}
		return ret(st, str(""))
	})
	P("(*bufio.Scanner).Err", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		if v, ok := st.vars["scanerr:"+K(a[0])]; ok {
			return ret(st, v)
		}
		return ret(st, nilErr)
	})
	P("(*bufio.Scanner).Buffer", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome { return ret(st) })
	P("(*bufio.Scanner).Split", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		panic(abort{"Scanner.Split"})
	})
	P("encoding/csv.NewReader", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		t := x.w.ext("encoding/csv", "Reader")
		p := st.newCell(zero(t), "csv.Reader")
		st.vars["csv:"+K(p)] = a[0]
		x.setField(st, p, "Comma", &Const{constant.MakeInt64(','), types.Typ[types.Rune]})
		return ret(st, p)
	})
	tSS := types.NewSlice(tString)
	P("(*encoding/csv.Reader).Read", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		p := x.deref(st, a[0])
		if p == nil {
			return nilDeref(st)
		}
		alts := []splitRes{{st, false}}
		if isFileReader(st, st.vars["csv:"+K(p)]) {
			alts = x.sysFails(st, "read", site)
		}
		var outs []Outcome
		for _, b := range alts {
			s := b.st
			if b.v {
				outs = append(outs, ret(s, zero(tSS), fsErr)...)
				continue
			}
			recs := x.csvRecords(s, p)
			n := s.fsNum("csvpos:" + K(p))
			if n >= len(recs) {
				outs = append(outs, ret(s, zero(tSS), errEOF)...)
				continue
			}
			s.vars["csvpos:"+K(p)] = num(n + 1)
			if recs[n].err {
				outs = append(outs, ret(s, zero(tSS), newError(str("csv")))...)
				continue
			}
			outs = append(outs, ret(s, s.newSlice(tSS, recs[n].fields), nilErr)...)
		}
		return outs
	})
	P("(*encoding/csv.Reader).ReadAll", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		p := x.deref(st, a[0])
		if p == nil {
			return nilDeref(st)
		}
		t := types.NewSlice(tSS)
		alts := []splitRes{{st, false}}
		if isFileReader(st, st.vars["csv:"+K(p)]) {
			alts = x.sysFails(st, "read", site)
		}
		var outs []Outcome
		for _, b := range alts {
			s := b.st
			if b.v {
				outs = append(outs, ret(s, zero(t), fsErr)...)
				continue
			}
			var rs []Val
			bad := false
			for _, r := range x.csvRecords(s, p) {
				bad = bad || r.err
				rs = append(rs, s.newSlice(tSS, r.fields))
			}
			if bad {
				outs = append(outs, ret(s, zero(t), newError(str("csv")))...)
				continue
			}
			outs = append(outs, ret(s, s.newSlice(t, rs), nilErr)...)
		}
		return outs
	})
	// functions over characters of known texts
	charFn := func(name string, f func(s string, ok func(r rune) bool) Val, typ types.Type) {
		P("strings."+name, func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			s, isC := constStr(a[0])
			if !isC {
				as := []Val{st.snap(a[0]), a[1]}
				return ret(st, st.norm(T("call:strings."+name, typ, as...)))
			}
			ok := func(r rune) bool {
				o := x.call(st.clone(), a[1], []Val{&Const{constant.MakeInt64(int64(r)), types.Typ[types.Rune]}}, site)
				if len(o) == 1 && o[0].kind == oRet {
					if b, ok := constBool(o[0].rets[0]); ok {
						return b
					}
				}
				panic(abort{"predicate of strings." + name})
			}
			return ret(st, f(s, ok))
		})
	}
	charFn("TrimLeftFunc", func(s string, ok func(r rune) bool) Val { return str(strings.TrimLeftFunc(s, ok)) }, tString)
	charFn("TrimRightFunc", func(s string, ok func(r rune) bool) Val { return str(strings.TrimRightFunc(s, ok)) }, tString)
	charFn("TrimFunc", func(s string, ok func(r rune) bool) Val { return str(strings.TrimFunc(s, ok)) }, tString)
	charFn("IndexFunc", func(s string, ok func(r rune) bool) Val { return num(strings.IndexFunc(s, ok)) }, tInt)
	charFn("ContainsFunc", func(s string, ok func(r rune) bool) Val { return boolean(strings.ContainsFunc(s, ok)) }, tBool)
	uni := func(name string, f func(r rune) bool) {
		P("unicode."+name, func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			if n, ok := constInt(a[0]); ok {
				return ret(st, boolean(f(rune(n))))
			}
			return ret(st, T("unicode."+name, tBool, a[0]))
		})
	}
	uni("IsSpace", unicode.IsSpace)
	uni("IsLetter", unicode.IsLetter)
	uni("IsDigit", unicode.IsDigit)
	uni("IsPrint", unicode.IsPrint)
	uni("IsControl", unicode.IsControl)
	P("strings.ContainsRune", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		s, ok := constStr(a[0])
		n, ok2 := constInt(a[1])
		if ok && ok2 {
			return ret(st, boolean(strings.ContainsRune(s, rune(n))))
		}
		return ret(st, T("containsrune", tBool, a[0], runeStr(a[1])))
	})
	P("strings.IndexByte", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		s, ok := constStr(a[0])
		n, ok2 := constInt(a[1])
		if ok && ok2 {
			return ret(st, num(strings.IndexByte(s, byte(n))))
		}
		return ret(st, T("index", tInt, a[0], runeStr(a[1])))
	})
	P("strings.IndexRune", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		s, ok := constStr(a[0])
		n, ok2 := constInt(a[1])
		if ok && ok2 {
			return ret(st, num(strings.IndexRune(s, rune(n))))
		}
		return ret(st, T("index", tInt, a[0], runeStr(a[1])))
	})
	P("strings.Count", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		s, ok := constStr(a[0])
		t, ok2 := constStr(a[1])
		if ok && ok2 {
			return ret(st, num(strings.Count(s, t)))
		}
		return ret(st, T("count", tInt, a[0], a[1]))
	})
	P("strings.Repeat", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		s, ok := constStr(a[0])
		n, ok2 := constInt(a[1])
		if ok && ok2 && n >= 0 && n < 1000 {
			return ret(st, str(strings.Repeat(s, n)))
		}
		return ret(st, T("repeat", tString, a[0], a[1]))
	})
	P("strings.Replace", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		s, ok := constStr(a[0])
		o, ok2 := constStr(a[1])
		w, ok3 := constStr(a[2])
		n, ok4 := constInt(a[3])
		if ok && ok2 && ok3 && ok4 {
			return ret(st, str(strings.Replace(s, o, w, n)))
		}
		if ok4 && n < 0 {
			return ret(st, T("replaceall", tString, a[0], a[1], a[2]))
		}
		return ret(st, T("replace", tString, a...))
	})
	is := m["errors.Is"]
	m["errors.Is"] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
		if t, ok := st.norm(a[1]).(*Term); ok && strings.HasSuffix(t.op, "ErrNotExist") {
			return ret(st, boolean(K(st.norm(a[0])) == K(notExist)))
		}
		return is(x, st, fn, a, site)
	}
}

// setField stores a field of a struct in the heap by name.
func (x *X) setField(st *State, p *Ptr, name string, v Val) {
	t := typeOf(st.load(p))
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			st.store(&Ptr{p.obj, append(append([]int(nil), p.path...), i)}, v)
			return
		}
	}
	panic(abort{"field " + name})
}
