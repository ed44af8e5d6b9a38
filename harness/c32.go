package harness

import (
	"bytes"
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// default32 works with a file in every way and returns what there is to see; name is that of the default section.
func default32(name string, o ini.LoadOptions, text string, op int, v string) string {
	old := ini.DefaultSection
	defer func() { ini.DefaultSection = old }()
	ini.DefaultSection = name
	if o.Insensitive || o.InsensitiveSections {
		name = strings.ToLower(name)
	}
	f, err := ini.LoadSources(o, []byte(text))
	if err != nil {
		return err.Error()
	}
	f.BlockMode = false
	r := ""
	switch op {
	case 0:
		f.Section("").Key("new").SetValue(v)
		f.Section(name).Key("k").SetValue(v)
	case 1:
		f.DeleteSection("")
		r = bool24(f.HasSection(name)) + bool24(f.HasSection(""))
	case 2:
		f.DeleteSection(name)
		r = bool24(f.HasSection(""))
		f.Section("").Key("n").SetValue(v)
	case 3:
		s, err := f.GetSection("")
		sym.Assert(err == nil && s == f.Section(name) && s == f.SectionWithIndex("", 0) && s.Name() == name, "the default section has two names")
		l, err := f.SectionsByName("")
		sym.Assert(err == nil && len(l) >= 1 && l[0] == s, "SectionsByName")
	case 4:
		r = f.Section("s").Key("r").String() + f.Section("s.c").Key("r").String() + f.Section("").Key("r").String()
	case 5:
		var w struct {
			K string `ini:"k"`
			S struct {
				L string `ini:"l"`
			} `ini:"s"`
		}
		sym.Assert(f.MapTo(&w) == nil, "MapTo")
		r = w.K + "/" + w.S.L
	case 6:
		w := struct {
			K string `ini:"k"`
			S struct {
				L string `ini:"l"`
			} `ini:"s"`
		}{K: v}
		w.S.L = v
		sym.Assert(f.ReflectFrom(&w) == nil, "ReflectFrom")
	case 7:
		err := f.Append([]byte("k=2\n[s]\nk=" + v + "\n[" + name + "]\nz=3\n"))
		r = found24(err)
		f.BlockMode = false
	case 8:
		sym.Assert(f.DeleteSectionWithIndex("", 0) == nil, "DeleteSectionWithIndex")
		r = found24(f.Reload())
		f.BlockMode = false
	case 9:
		for _, s := range f.ChildSections("") {
			r += s.Name() + ","
		}
		for _, s := range f.ChildSections("s") {
			r += s.Name() + ","
		}
		_, err = f.NewSection(name)
		sym.Assert(err == nil, "NewSection")
	}
	var b bytes.Buffer
	_, err = f.WriteToIndent(&b, "\t")
	sym.Assert(err == nil, "WriteToIndent")
	r += strings.ReplaceAll(b.String(), "["+name+"]", "[]") + "\n"
	b.Reset()
	_, err = f.WriteTo(&b)
	sym.Assert(err == nil, "WriteTo")
	sym.Assert(len(f.SectionStrings()) == len(f.Sections()), "SectionStrings")
	r += strings.ReplaceAll(b.String(), "["+name+"]", "[]") + "\n"
	for i := 0; i < 2; i++ {
		for _, s := range f.Sections() {
			n := s.Name()
			if n == name {
				n = ""
			}
			r += "[" + n + "|" + s.Comment
			for _, k := range s.Keys() {
				r += "," + k.Name() + "|" + k.Comment + "|" + k.Value()
			}
		}
		if i == 0 {
			f, err = ini.LoadSources(o, b.Bytes())
			sym.Assert(err == nil, "loading what was written")
		}
	}
	return r
}

// C32_renamed does the same with the default section under its usual name and under another.
//
//sym:both n=2 len=1 time=60
//sym:thorough n=3 len=1 time=200
//sym:thorough n=2 len=2 time=200
//sym:reach done
func C32_renamed() {
	defer func() {
		ini.DefaultHeader = false
	}()
	ini.DefaultHeader = sym.Choose(2) == 1
	o := ini.LoadOptions{AllowBooleanKeys: true}
	switch sym.Choose(4) {
	case 1:
		o.Insensitive = true
	case 2:
		o.AllowNonUniqueSections = true
	case 3:
		o.AllowShadows = true
	}
	op := sym.Choose(10)
	v := word(sym.Param("len", 1))
	name := []string{"Main", "The top", "D", "DEFAULT2"}[sym.Choose(4)]
	here := sym.Choose(2) == 1
	parts := []string{"k=" + v + "\n", "r=%(k)s\n", "[s]\nl=" + v + "\nr=%(k)s\n", "[s.c]\nr=%(none)s%(k)s\n", "; c\n[t]\nk=3\n", "# d\nb\n"}
	t := ""
	for n := sym.Param("n", 2); n > 0; n-- {
		t += parts[sym.Choose(len(parts))]
	}
	text := func(name string) string {
		if here {
			return t + "[" + name + "]\nq=" + v + "\n"
		}
		return t
	}
	sym.Assert(default32(name, o, text(name), op, v) == default32("DEFAULT", o, text("DEFAULT"), op, v), "the name of the default section makes a difference")
	sym.Reach("done")
}
