package harness

import (
	"bytes"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"verif/sym"
)

type low31 struct {
	Name  string
	Count int
	Many  []string
	When  time.Duration
	Sub   struct {
		Deep bool
	}
}

const doc31 = "; c\nk=1\n[s]\nname=n\ncount=3\nmany=a,b\nwhen=2s\nr=%(name)s-%(count)s\nq=\"\"\"x\ny\"\"\"\nl=a\\\nb\n[s.c]\n# d\no=5 ; e\n[sub]\ndeep=true\n"

// out31 is the file as it is written and everything it says.
func out31(f *ini.File) string {
	var b bytes.Buffer
	n, err := f.WriteTo(&b)
	sym.Assert(err == nil && n == int64(b.Len()), "writing")
	r := b.String()
	for _, s := range f.Sections() {
		r += "[" + s.Name() + "|" + s.Comment + "|" + s.Body()
		for _, k := range s.Keys() {
			r += "," + k.Name() + "|" + k.Comment + "|" + k.Value() + "|" + strings.Join(k.ValueWithShadows(), "/") + strings.Join(k.NestedValues(), "/")
		}
	}
	return r
}

func file31(o ini.LoadOptions, text string, x string) *ini.File {
	data := []byte(text + x)
	f, err := ini.LoadSources(o, data)
	sym.Assert(err == nil, "load")
	sym.Assert(string(data) == text+x, "the source changed")
	f.BlockMode = false
	return f
}

const jobs31 = 15

// job31 does something with a file of its own; x is any letters and digits.
func job31(i int, place, x string) string {
	switch i {
	case 0: // a plain file, edited
		f := file31(ini.LoadOptions{}, doc31, "v="+x+"\n")
		f.Section("new").Comment = "a\nb"
		f.Section("s").Key("added").SetValue(x + "#")
		f.Section("s").DeleteKey("q")
		f.DeleteSection("s.c")
		return out31(f)
	case 1: // a file with an error
		_, err := ini.LoadSources(ini.LoadOptions{}, []byte("; c\n[s]\nk=1\n"+x+"\n"))
		sym.Assert(err != nil, "the line was taken")
		return err.Error()
	case 2: // shadows, nested values, boolean keys
		f := file31(ini.LoadOptions{AllowShadows: true, AllowNestedValues: true, AllowBooleanKeys: true}, "[s]\nk=1\nk=2\nb\nn=\n  x\n  y\n-=1\n-=2\n", "k="+x+"\n")
		f.Section("s").Key("n").AddNestedValue(x)
		f.Section("s").Key("k").AddShadow("3")
		return out31(f)
	case 3: // python values, raw sections
		f := file31(ini.LoadOptions{AllowPythonMultilineValues: true, UnparseableSections: []string{"raw"}}, "k=a\n  b\n  c\n[raw]\nany ] text\n<1>\n[t]\n", "z="+x+"\n  e\n")
		return out31(f)
	case 4: // values read in every way
		f := file31(ini.LoadOptions{}, doc31, "v=%(x)s\nx="+x+"\n")
		s := f.Section("s")
		r := s.Key("r").String() + f.Section("s.c").Key("r").String() + f.Section("sub").Key("v").String()
		d, err := s.Key("when").Duration()
		r += d.String() + found24(err) + strings.Join(s.Key("many").Strings(","), "|")
		n, err := s.Key("count").Int()
		sym.Assert(err == nil && n == 3, "the number changed")
		for _, p := range f.Section("s.c").ParentKeys() {
			r += p.Name()
		}
		return r + s.Key("name").Validate(func(v string) string { return v + x })
	case 5: // mapping with a name mapper
		f := file31(ini.LoadOptions{}, doc31, "")
		f.NameMapper = func(n string) string { return strings.ToLower(n) }
		f.ValueMapper = func(v string) string { return v + x }
		var v low31
		err := f.Section("s").MapTo(&v)
		return v.Name + strings.Join(v.Many, "|") + found24(err) + f.Section("s").Key("name").String()
	case 6: // mapping without one
		f := file31(ini.LoadOptions{}, "Name="+x+"\nname=no\nCount=7\nMany=p,q\n[Sub]\nDeep=1\n", "")
		v := low31{When: 4}
		err := f.StrictMapTo(&v)
		sym.Assert(v.Count == 7 && v.When == 4 && v.Sub.Deep, "a field")
		return v.Name + strings.Join(v.Many, "|") + found24(err)
	case 7: // reflecting
		f := ini.Empty()
		v := &low31{Name: x, Count: 4, Many: []string{"1", x}, When: time.Second}
		v.Sub.Deep = true
		err := f.ReflectFrom(v)
		sym.Assert(err == nil && v.Name == x && v.Count == 4 && len(v.Many) == 2 && v.Many[1] == x, "the struct changed")
		f.BlockMode = false
		return out31(f)
	case 8: // reflecting with a mapper and a delimiter of its own
		f := ini.Empty(ini.LoadOptions{KeyValueDelimiters: ":", KeyValueDelimiterOnWrite: ":"})
		f.NameMapper = ini.SnackCase
		err := f.Section("p").ReflectFrom(&low31{Name: x, Many: []string{"1"}})
		sym.Assert(err == nil, "reflecting")
		f.BlockMode = false
		return out31(f)
	case 9: // appending and reloading
		f := file31(ini.LoadOptions{Loose: true}, doc31, "")
		f.Section("s").Key("gone").SetValue("1")
		err := f.Append([]byte("[s]\nname="+x+"\n[last]\n"), bytes.NewReader([]byte("k=3\n")))
		sym.Assert(err == nil, "appending")
		return out31(f)
	case 10: // insensitive names, sections of the same name
		f := file31(ini.LoadOptions{Insensitive: true, AllowNonUniqueSections: true}, "[S]\nK=1\n[s]\nk=2\n", "[T]\nK="+x+"\n")
		f.Section("S").Key("N").SetValue(x)
		return out31(f)
	case 11: // a file on the disk
		name := sym.Dir() + "/" + place
		f := file31(ini.LoadOptions{}, doc31, "v="+x+"\n")
		sym.Assert(f.SaveTo(name) == nil, "saving")
		g, err := ini.Load(name)
		sym.Assert(err == nil, "loading what was saved")
		sym.Assert(f.SaveToIndent(name, "\t") == nil && g.Reload() == nil, "saving again")
		g.BlockMode = false
		return out31(g)
	case 12: // comments
		f := file31(ini.LoadOptions{SpaceBeforeInlineComment: true, UnescapeValueDoubleQuotes: true, SkipUnrecognizableLines: true}, "; a\n; b\n[s] ; c\n# d\nk=1 # e\nl=\"f\\\"g\"\nnone\n", "m="+x+" ; h\n")
		f.Section("s").Key("k").Comment = "# i"
		return out31(f)
	case 13: // mappers that use what is outside of them
		f := file31(ini.LoadOptions{}, place+"name=1\n"+x+place+"name=2\n"+x+place+"count=3\n", "")
		f.NameMapper = func(n string) string { return x + place + strings.ToLower(n) }
		f.ValueMapper = func(v string) string { return v + x }
		var v low31
		err := f.MapTo(&v)
		sym.Assert(err == nil && v.Name == "2"+x, "mapping")
		return f.Section("").Key(x + place + "count").String()
	case 14: // the same type of struct mapped to sections of the same name
		f := file31(ini.LoadOptions{AllowNonUniqueSections: true, AllowShadows: true}, "[s]\nl=1,"+x+"\nl=2\n[s]\nl=3\n", "")
		var v struct {
			S []struct {
				L []string `ini:"l,,allowshadow"`
			} `ini:"s,,,nonunique"`
		}
		sym.Assert(f.MapTo(&v) == nil && len(v.S) == 2, "mapping")
		return strings.Join(v.S[0].L, "|") + strings.Join(v.S[1].L, "|") + strings.Join(f.Section("s").Key("l").StringsWithShadows(","), "|")
	}
	return ""
}

func text31() string {
	return sym.StrIn(sym.Param("len", 1), "abcdefghijklmnopqrstuvwxyz0123456789")
}

// C31_parallel works with two files at a time; nothing was done before.
//
//sym:both len=1 preempt=0 time=60
//sym:thorough len=2 preempt=0 time=60
//sym:thorough len=1 preempt=1 time=200
//sym:reach done
func C31_parallel() {
	i := sym.Choose(jobs31)
	j := sym.Choose(jobs31)
	sym.Assume(i <= j)
	x, y := text31(), text31()
	var a, b string
	sym.Par(func() { a = job31(i, "a", x) }, func() { b = job31(j, "b", y) })
	sym.Assert(a == job31(i, "a", x), "one file took something from the other")
	sym.Assert(b == job31(j, "b", y), "one file took something from the other")
	sym.Reach("done")
}

// C31_sequence works with one file after another.
//
//sym:both len=1 time=60
//sym:thorough len=2 time=100
//sym:reach done
func C31_sequence() {
	i := sym.Choose(jobs31)
	j := sym.Choose(jobs31)
	x, y := text31(), text31()
	b := job31(j, "b", y)
	a := job31(i, "a", x)
	sym.Assert(b == job31(j, "b", y), "a file depends on what was done before")
	sym.Assert(a == job31(i, "a", x), "a file depends on what was done before")
	sym.Reach("done")
}

// C31_copies edits one file while another of the same origin is watched.
//
//sym:both ops=1 time=30
//sym:thorough ops=2 time=100
//sym:reach done
func C31_copies() {
	o := ini.LoadOptions{AllowShadows: true, AllowNonUniqueSections: sym.Choose(2) == 1, UnparseableSections: []string{"raw"}}
	data := []byte(doc31 + "[s]\nname=again\n[raw]\n<1>\n")
	v := low31{Name: "n", Many: []string{"1", "2"}}
	var f, g *ini.File
	var err, err2 error
	origin := sym.Choose(4)
	switch origin {
	case 0:
		f, err = ini.LoadSources(o, data)
		g, err2 = ini.LoadSources(o, data)
	case 1:
		f, g = ini.Empty(o), ini.Empty(o)
		err, err2 = f.Append(data), g.Append(data)
	case 2:
		f, g = ini.Empty(o), ini.Empty(o)
		err, err2 = f.Section("s").ReflectFrom(&v), g.Section("s").ReflectFrom(&v)
	case 3:
		f, err = ini.LoadSources(o, data)
		g = ini.Empty(o)
		var b bytes.Buffer
		_, err2 = f.WriteTo(&b)
		sym.Assert(err2 == nil, "writing")
		err2 = g.Append(&b)
	}
	sym.Assert(err == nil && err2 == nil, "making the files")
	f.BlockMode, g.BlockMode = false, false
	was, text := out31(g), string(data)
	x := text31()
	for n := sym.Param("ops", 1); n > 0; n-- {
		s := f.Section("s")
		k := s.Key("name")
		switch sym.Choose(14) {
		case 0:
			k.SetValue(x)
		case 1:
			s.DeleteKey("name")
		case 2:
			f.DeleteSection("s")
		case 3:
			_, err = s.NewKey(x, x)
			sym.Assert(err == nil, "NewKey")
		case 4:
			_, err = f.NewSection(x)
			sym.Assert(err == nil, "NewSection")
		case 5:
			s.Comment, k.Comment = x, x
		case 6:
			f.Section("raw").SetBody(x)
		case 7:
			err = k.AddShadow(x)
			_ = err
		case 8:
			err = f.Append([]byte("[s]\nname=" + x))
			sym.Assert(err == nil || string(data) != text, "Append")
			f.BlockMode = false
		case 9:
			err = f.Reload()
			sym.Assert(err == nil || string(data) != text, "Reload")
			f.BlockMode = false
		case 10:
			f.NameMapper, f.ValueMapper = ini.SnackCase, strings.ToUpper
			w := low31{Name: x, Many: []string{x}}
			sym.Assert(s.ReflectFrom(&w) == nil, "ReflectFrom")
		case 11:
			var w low31
			err = s.MapTo(&w)
			if len(w.Many) > 0 {
				w.Many[0] = x
			}
			l, h := s.Keys(), s.KeysHash()
			if len(l) > 0 {
				l[0] = nil
			}
			h["name"] = x
		case 12:
			v.Name, v.Many[0] = x, x
			for i := range data {
				data[i] = 'x'
			}
		case 13:
			err = f.DeleteSectionWithIndex("s", 0)
			_ = err
		}
	}
	sym.Assert(out31(g) == was, "a file changed with another")
	if string(data) == text && origin == 0 {
		r, err := ini.LoadSources(o, data)
		sym.Assert(err == nil, "loading once more")
		r.BlockMode = false
		sym.Assert(out31(r) == was, "the data gives something else now")
	}
	sym.Reach("done")
}
