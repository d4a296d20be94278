package main

import (
	"fmt"
	"go/types"

	"github.com/go-ini/ini"
	"golang.org/x/tools/go/ssa"
)

// A model of github.com/go-ini/ini: constant texts are parsed by the library itself, the objects are read-only.

const iniPath = "github.com/go-ini/ini"

type iniObj struct {
	file *ini.File
	sec  *ini.Section
	key  *ini.Key
}

var iniObjs = map[string]iniObj{}

func (x *X) iniNew(st *State, typ string, o iniObj) Val {
	t := x.w.ext(iniPath, typ)
	key := fmt.Sprintf("nn:ini%s%d", typ, len(iniObjs))
	iniObjs[key] = o
	p := st.newCell(&Term{op: "nn:ini", typ: t, key: key}, "ini."+typ)
	st.vars["ini:"+K(p)] = str(key)
	return p
}

func (x *X) iniOf(st *State, v Val) (iniObj, bool) {
	p := x.deref(st, v)
	if p == nil {
		return iniObj{}, false
	}
	k, ok := constStr(st.vars["ini:"+K(p)])
	if !ok {
		panic(abort{"unknown object of package ini " + K(v)})
	}
	return iniObjs[k], true
}

// iniSources reads all sources, forking on failing reads.
func (x *X) iniSources(st *State, opt ini.LoadOptions, srcs []Val, site ssa.Instruction) []Outcome {
	t := types.NewPointer(x.w.ext(iniPath, "File"))
	type part struct {
		st    *State
		texts []interface{}
	}
	parts := []part{{st, nil}}
	var outs []Outcome
	for _, s := range srcs {
		var next []part
		for _, p := range parts {
			st := p.st
			v := st.norm(s)
			dyn := typeOf(v)
			if i, ok := v.(*Iface); ok {
				v, dyn = st.norm(i.val), i.typ
			}
			add := func(st *State, c Val) {
				text, ok := constStr(st.norm(c))
				if !ok {
					panic(abort{"ini text that is not constant: " + K(c)})
				}
				next = append(next, part{st, append(append([]interface{}{}, p.texts...), []byte(text))})
			}
			switch {
			case dyn != nil && isString(dyn):
				for _, b := range x.sysFails(st, "read", site) {
					ino := b.st.fsFile(v)
					switch {
					case b.v:
						outs = append(outs, ret(b.st, nilOf(t), fsErr)...)
					case ino < 0 && opt.Loose:
						add(b.st, str(""))
					case ino < 0:
						outs = append(outs, ret(b.st, nilOf(t), notExist)...)
					default:
						add(b.st, b.st.fsContent(ino))
					}
				}
			case dyn != nil && isByteSlice(dyn):
				add(st, bytesStr(st, v))
			default:
				alts := []splitRes{{st, false}}
				if isFileReader(st, v) {
					alts = x.sysFails(st, "read", site)
				}
				for _, b := range alts {
					if b.v {
						outs = append(outs, ret(b.st, nilOf(t), fsErr)...)
						continue
					}
					add(b.st, x.readAll(b.st, v))
				}
			}
		}
		parts = next
	}
	for _, p := range parts {
		f, err := ini.LoadSources(opt, p.texts[0], p.texts[1:]...)
		if err != nil {
			outs = append(outs, ret(p.st, nilOf(t), newError(str(err.Error())))...)
			continue
		}
		outs = append(outs, ret(p.st, x.iniNew(p.st, "File", iniObj{file: f}), nilErr)...)
	}
	return outs
}

// Section and Key of a name that does not exist create it; here the objects stay as they are.
func iniSection(f *ini.File, name string) *ini.Section {
	if s, err := f.GetSection(name); err == nil {
		return s
	}
	return ini.Empty().Section(name)
}

func iniKey(s *ini.Section, name string) *ini.Key {
	if k, err := s.GetKey(name); err == nil {
		return k
	}
	return ini.Empty().Section(s.Name()).Key(name)
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func init() {
	type mf = func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome
	P := func(name string, f mf) {
		libModels[name] = func(x *X, st *State, fn *ssa.Function, a []Val, site ssa.Instruction) []Outcome {
			as := make([]Val, len(a))
			for i, v := range a {
				as[i] = st.norm(v)
			}
			return f(x, st, as, site)
		}
	}
	srcs := func(st *State, a []Val, first int) []Val {
		return append([]Val{a[first]}, elemsOf(st, a[first+1])...)
	}
	load := func(opt ini.LoadOptions) mf {
		return func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			return x.iniSources(st, opt, srcs(st, a, 0), site)
		}
	}
	P(iniPath+".Load", load(ini.LoadOptions{}))
	P(iniPath+".LooseLoad", load(ini.LoadOptions{Loose: true}))
	P(iniPath+".InsensitiveLoad", load(ini.LoadOptions{Insensitive: true}))
	P(iniPath+".ShadowLoad", load(ini.LoadOptions{AllowShadows: true}))
	P(iniPath+".LoadSources", func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
		s, ok := a[0].(*Struct)
		if !ok {
			panic(abort{"ini.LoadOptions"})
		}
		o := ini.LoadOptions{}
		for n, f := range map[string]*bool{"Loose": &o.Loose, "Insensitive": &o.Insensitive, "InsensitiveSections": &o.InsensitiveSections, "InsensitiveKeys": &o.InsensitiveKeys,
			"IgnoreContinuation": &o.IgnoreContinuation, "IgnoreInlineComment": &o.IgnoreInlineComment, "SkipUnrecognizableLines": &o.SkipUnrecognizableLines, "AllowBooleanKeys": &o.AllowBooleanKeys,
			"AllowShadows": &o.AllowShadows, "SpaceBeforeInlineComment": &o.SpaceBeforeInlineComment, "UnescapeValueDoubleQuotes": &o.UnescapeValueDoubleQuotes,
			"UnescapeValueCommentSymbols": &o.UnescapeValueCommentSymbols, "PreserveSurroundedQuote": &o.PreserveSurroundedQuote, "AllowNonUniqueSections": &o.AllowNonUniqueSections,
			"AllowDuplicateShadowValues": &o.AllowDuplicateShadowValues, "AllowPythonMultilineValues": &o.AllowPythonMultilineValues, "AllowNestedValues": &o.AllowNestedValues} {
			t := under(s.typ).(*types.Struct)
			for i := 0; i < t.NumFields(); i++ {
				if t.Field(i).Name() == n {
					v, ok := constBool(st.norm(s.fields[i]))
					if !ok {
						panic(abort{"ini.LoadOptions." + n})
					}
					*f = v
				}
			}
		}
		return x.iniSources(st, o, srcs(st, a, 1), site)
	})
	// accessors
	type of = func(x *X, st *State, o iniObj, a []Val) []Outcome
	M := func(typ, name string, f of) {
		P("(*"+iniPath+"."+typ+")."+name, func(x *X, st *State, a []Val, site ssa.Instruction) []Outcome {
			o, ok := x.iniOf(st, a[0])
			if !ok {
				return nilDeref(st)
			}
			return f(x, st, o, a)
		})
	}
	name := func(v Val) string {
		s, ok := constStr(v)
		if !ok {
			panic(abort{"name of an ini section or key is not constant"})
		}
		return s
	}
	list := func(x *X, st *State, typ string, vs []Val) Val {
		return st.newSlice(types.NewSlice(types.NewPointer(x.w.ext(iniPath, typ))), vs)
	}
	errOf := func(err error) Val {
		if err == nil {
			return nilErr
		}
		return newError(str(err.Error()))
	}
	sections := func(x *X, st *State, ss []*ini.Section) Val {
		var vs []Val
		for _, s := range ss {
			vs = append(vs, x.iniNew(st, "Section", iniObj{sec: s}))
		}
		return list(x, st, "Section", vs)
	}
	keys := func(x *X, st *State, ks []*ini.Key) Val {
		var vs []Val
		for _, k := range ks {
			vs = append(vs, x.iniNew(st, "Key", iniObj{key: k}))
		}
		return list(x, st, "Key", vs)
	}
	M("File", "Sections", func(x *X, st *State, o iniObj, a []Val) []Outcome { return ret(st, sections(x, st, o.file.Sections())) })
	M("File", "SectionStrings", func(x *X, st *State, o iniObj, a []Val) []Outcome {
		return ret(st, strSlice(st, o.file.SectionStrings()))
	})
	M("File", "Section", func(x *X, st *State, o iniObj, a []Val) []Outcome {
		return ret(st, x.iniNew(st, "Section", iniObj{sec: iniSection(o.file, name(a[1]))}))
	})
	M("File", "HasSection", func(x *X, st *State, o iniObj, a []Val) []Outcome {
		_, err := o.file.GetSection(name(a[1]))
		return ret(st, boolean(err == nil))
	})
	M("File", "GetSection", func(x *X, st *State, o iniObj, a []Val) []Outcome {
		s, err := o.file.GetSection(name(a[1]))
		if err != nil {
			return ret(st, nilOf(types.NewPointer(x.w.ext(iniPath, "Section"))), errOf(err))
		}
		return ret(st, x.iniNew(st, "Section", iniObj{sec: s}), nilErr)
	})
	M("Section", "Name", func(x *X, st *State, o iniObj, a []Val) []Outcome { return ret(st, str(o.sec.Name())) })
	M("Section", "Keys", func(x *X, st *State, o iniObj, a []Val) []Outcome { return ret(st, keys(x, st, o.sec.Keys())) })
	M("Section", "KeyStrings", func(x *X, st *State, o iniObj, a []Val) []Outcome {
		return ret(st, strSlice(st, o.sec.KeyStrings()))
	})
	M("Section", "HasKey", func(x *X, st *State, o iniObj, a []Val) []Outcome { return ret(st, boolean(o.sec.HasKey(name(a[1])))) })
	M("Section", "Key", func(x *X, st *State, o iniObj, a []Val) []Outcome {
		return ret(st, x.iniNew(st, "Key", iniObj{key: iniKey(o.sec, name(a[1]))}))
	})
	M("Section", "GetKey", func(x *X, st *State, o iniObj, a []Val) []Outcome {
		k, err := o.sec.GetKey(name(a[1]))
		if err != nil {
			return ret(st, nilOf(types.NewPointer(x.w.ext(iniPath, "Key"))), errOf(err))
		}
		return ret(st, x.iniNew(st, "Key", iniObj{key: k}), nilErr)
	})
	M("Section", "KeysHash", func(x *X, st *State, o iniObj, a []Val) []Outcome {
		m := st.newMap(types.NewMap(tString, tString), "ini")
		h := o.sec.KeysHash()
		ks := map[string]bool{}
		for k := range h {
			ks[k] = true
		}
		for _, k := range sortedKeys(ks) {
			x.addEntry(st, m, entry{str(k), str(h[k]), true})
		}
		return ret(st, m)
	})
	M("Key", "Name", func(x *X, st *State, o iniObj, a []Val) []Outcome { return ret(st, str(o.key.Name())) })
	M("Key", "String", func(x *X, st *State, o iniObj, a []Val) []Outcome { return ret(st, str(o.key.String())) })
	M("Key", "Value", func(x *X, st *State, o iniObj, a []Val) []Outcome { return ret(st, str(o.key.Value())) })
}
