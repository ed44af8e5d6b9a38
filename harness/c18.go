package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

var nested = ini.LoadOptions{AllowNestedValues: true}

// sameNested asserts that two files have the same nested values.
func sameNested(f, g *ini.File, what string) {
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			sym.Assert(eqStrs(k.NestedValues(), g.Section(s.Name()).Key(k.Name()).NestedValues()), what)
		}
	}
}

// C18_text loads any text with nested values and writes it back.
//
//sym:both len=2 time=15
//sym:both len=3 time=15
//sym:both len=4 time=15
//sym:both len=5 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=6 time=30
//sym:both len=7 time=60
//sym:thorough len=8 time=200
//sym:thorough len=9 time=300
//sym:reach read refused nested
func C18_text() {
	o := nested
	f := against(o, sym.StrIn(sym.Param("len", 6), "ab=\n \t[]#"), true)
	for _, s := range f.Sections() {
		sym.Assume(!has(s.Name(), "\n"))
		for _, k := range s.Keys() {
			if len(k.NestedValues()) > 0 {
				sym.Reach("nested")
				// An empty value after nested values was assigned is written before them.
				sym.Assume(k.Value() == "")
			}
		}
	}
	g := reload(f, o)
	sameData(dump(f), dump(g), "reloaded")
	sameNested(f, g, "nested values reloaded")
}

// C18_frame has an indented line of any text in a document that makes it a nested value, or not.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:both len=3 time=60
//sym:thorough len=4 time=200
//sym:thorough len=5 time=300
//sym:reach read refused
func C18_frame() {
	o := nested
	o.AllowBooleanKeys = sym.Choose(2) == 1
	n := sym.Param("len", 2)
	head := []string{"k=\n", "k = 1\n", "[s]\n", "k=#c\n", "a=1\nk=\n\n", "k=\n  x=1\n", "k=\"\"\n", "b\n", "-=\n"}[sym.Choose(9)]
	ind := []string{" ", "\t", "   ", ""}[sym.Choose(4)]
	against(o, head+ind+sym.Str(n)+[]string{"", "\n z\nl=\n  m\n[t]\n n=1\n"}[sym.Choose(2)], true)
}

// C18_api adds nested values of any text.
//
//sym:both len=0 n=2 time=7
//sym:both len=1 n=2 time=7
//sym:both n=2 len=2 time=30
//sym:thorough n=3 len=2 time=100
//sym:thorough n=2 len=4 time=200
//sym:reach done
func C18_api() {
	f := ini.Empty(nested)
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	s.NewKey("first", "1")
	k, _ := s.NewKey("k", "")
	var want []string
	for i := 0; i < sym.Param("n", 2); i++ {
		v := sym.Str(sym.Choose(sym.Param("len", 2) + 1))
		sym.Assume(!has(v, "\n"))
		sym.Assume(strings.TrimSpace(v) == v)
		sym.Assert(k.AddNestedValue(v) == nil, "AddNestedValue")
		want = append(want, v)
	}
	sym.Assert(eqStrs(k.NestedValues(), want), "added")
	s.NewKey("last", "")
	f.Section("t").NewKey("k", "x")
	g := reload(f, nested)
	sameData(dump(f), dump(g), "reloaded")
	sameNested(f, g, "nested values reloaded")
	sym.Assert(eqStrs(g.Section(s.Name()).Key("k").NestedValues(), want), "nested values reloaded")
	sym.Assert(k.Value() == "", "nested values change the value")
	sym.Reach("done")
}

// C18_off has no nested values to add, and reads indented lines as lines.
//
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:thorough len=4 time=60
//sym:reach done
func C18_off() {
	v := sym.Str(sym.Param("len", 2))
	f := ini.Empty(ini.LoadOptions{AllowShadows: sym.Choose(2) == 1})
	k, _ := f.Section("s").NewKey("k", "")
	sym.Assert(k.AddNestedValue(v) != nil, "a nested value without the option")
	sym.Assert(len(k.NestedValues()) == 0, "a refused nested value is kept")
	for i := 0; i < len(v); i++ {
		sym.Assume(v[i] >= 'a' && v[i] <= 'z')
	}
	f, err := ini.Load([]byte("k=\n  " + v + "=1\n"))
	sym.Assert(err == nil && f.Section("").HasKey(v) && len(f.Section("").Key("k").NestedValues()) == 0, "an indented line without the option")
	_, err = ini.Load([]byte("k=\n  " + v + "\n"))
	sym.Assert(err != nil, "an indented line without delimiter is accepted without the option")
	sym.Reach("done")
}

// C18_special has keys that can take no nested value.
//
//sym:both time=20
//sym:reach done
func C18_special() {
	o := ini.LoadOptions{AllowNestedValues: true, AllowBooleanKeys: true}
	f, err := ini.LoadSources(o, []byte("b\n-=1\n"))
	sym.Assert(err == nil, "load")
	v := sym.Str(1)
	for _, n := range []string{"b", "#1"} {
		k := f.Section("").Key(n)
		sym.Assert(k.AddNestedValue(v) != nil && len(k.NestedValues()) == 0, "a nested value of a boolean or auto-increment key")
	}
	sym.Reach("done")
}

// C18_shadows has nested values and shadows together.
//
//sym:both len=2 time=7
//sym:both len=3 time=7
//sym:both len=4 time=7
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=5 time=30
//sym:thorough len=7 time=200
//sym:reach read refused
func C18_shadows() {
	o := nested
	o.AllowShadows = true
	against(o, "a=\n "+sym.StrIn(sym.Param("len", 5), "ab=\n "), true)
}

// C18_lines has indented lines in documents with lines of every kind.
//
//sym:quick n=3 time=60
//sym:thorough n=4 time=400
//sym:reach read refused
func C18_lines() {
	o := nested
	o.AllowBooleanKeys = sym.Bool()
	o.AllowNonUniqueSections = sym.Bool()
	o.SkipUnrecognizableLines = sym.Bool()
	text := lines(sym.Param("n", 3), "k=", "k=?", " a", "\tb=c", "  #d", "[s]", " [s]", "flag", "j=``", "", " ", "k = ;e")
	f := against(o, text, true)
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			sym.Assume(len(k.NestedValues()) == 0 || k.Value() == "")
		}
	}
	again(f, o)
}

// C18_twins looks at nested values of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C18_twins() {
	twins(ini.LoadOptions{UnparseableSections: []string{"raw"}, AllowNestedValues: true}, "1,", seeNested)
}
