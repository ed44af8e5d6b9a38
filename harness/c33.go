package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// reading33 gives any combination of the options that say how values are read.
func reading33() ini.LoadOptions {
	return ini.LoadOptions{
		IgnoreContinuation:          sym.Bool(),
		IgnoreInlineComment:         sym.Bool(),
		SpaceBeforeInlineComment:    sym.Bool(),
		AllowPythonMultilineValues:  sym.Bool(),
		PreserveSurroundedQuote:     sym.Bool(),
		UnescapeValueDoubleQuotes:   sym.Bool(),
		UnescapeValueCommentSymbols: sym.Bool(),
	}
}

// C33_value writes any value and reads it back with the same options.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:both len=3 time=60
//sym:thorough len=4 time=300
//sym:reach back
func C33_value() {
	v := sym.Str(sym.Param("len", 3))
	sym.Assume(!(has(v, "`") && has(v, `"""`)))
	o := reading33()
	f := ini.Empty(o)
	k := place(f, 1+sym.Choose(2), "key", v)
	g := reload(f, o)
	sym.Assert(k.Value() == v, "writing changes the value")
	sameData(dump(f), dump(g), "value reloaded")
	sym.Reach("back")
}

// C33_edges has the characters that quoting is about around an arbitrary text.
//
//sym:both len=0 time=10
//sym:both len=1 time=60
//sym:thorough len=2 time=300
//sym:reach back
func C33_edges() {
	v := sym.StrIn(2, "\"'`\\ \n#a") + sym.Str(sym.Param("len", 1)) + sym.StrIn(2, "\"'`\\ \n;a")
	sym.Assume(!(has(v, "`") && has(v, `"""`)))
	o := reading33()
	f := ini.Empty(o)
	place(f, 1, "key", v)
	sameData(dump(f), dump(reload(f, o)), "value reloaded")
	sym.Reach("back")
}

// C33_keys writes boolean, shadowed and nested keys among others.
//
//sym:both len=0 time=10
//sym:both len=1 time=30
//sym:both len=2 time=100
//sym:thorough len=3 time=300
//sym:reach bool shadows nested
func C33_keys() {
	v := sym.Str(sym.Param("len", 2))
	sym.Assume(!(has(v, "`") && has(v, `"""`)))
	o := reading33()
	o.AllowBooleanKeys = true
	f := ini.Empty(o)
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	s.NewKey("first", "1")
	switch sym.Choose(3) {
	case 0:
		n := "b" + v + "b"
		sym.Assume(goodKeyName(n) && !strings.ContainsAny(n, "=:"))
		s.NewBooleanKey(n)
		sym.Reach("bool")
	case 1:
		sym.Assume(v != "")
		o.AllowShadows, o.AllowDuplicateShadowValues = true, sym.Bool()
		f = ini.Empty(o)
		s = f.Section("s")
		s.NewKey("k", v)
		s.Key("k").AddShadow("w")
		s.Key("k").AddShadow(" " + v)
		sym.Reach("shadows")
	case 2:
		sym.Assume(!o.AllowPythonMultilineValues)
		o.AllowNestedValues = true
		f = ini.Empty(o)
		s = f.Section("s")
		s.NewKey("k", "")
		sym.Assume(v != "" && strings.TrimSpace(v) == v && !has(v, "\n"))
		sym.Assert(s.Key("k").AddNestedValue(v) == nil && s.Key("k").AddNestedValue("w") == nil, "AddNestedValue")
		sym.Reach("nested")
	}
	s.NewKey("last", v)
	g := reload(f, o)
	sameData(dump(f), dump(g), "keys reloaded")
	sameMore33(f, g)
}

// sameMore33 compares what the values alone do not tell.
func sameMore33(f, g *ini.File) {
	for i, s := range f.Sections() {
		t := g.Sections()[i]
		for j, k := range s.Keys() {
			l := t.Keys()[j]
			a, b := k.ValueWithShadows(), l.ValueWithShadows()
			sym.Assert(len(a) == len(b), "number of shadows")
			for n := range a {
				sym.Assert(a[n] == b[n], "shadow")
			}
			a, b = k.NestedValues(), l.NestedValues()
			sym.Assert(len(a) == len(b), "number of nested values")
			for n := range a {
				sym.Assert(a[n] == b[n], "nested value")
			}
		}
	}
}

// C33_doc reads a document with options, writes it and reads it again with the same options.
//
//sym:both n=2 len=0 time=60
//sym:thorough n=2 len=1 time=300
//sym:thorough n=2 len=2 time=300
//sym:thorough n=3 len=2 time=300
//sym:thorough n=2 len=3 time=300
//sym:reach back
func C33_doc() {
	o := reading33()
	o.AllowBooleanKeys, o.AllowShadows = sym.Bool(), sym.Bool()
	n := sym.Param("n", 2)
	text := ""
	for i := 0; i < n; i++ {
		switch sym.Choose(9) {
		case 0:
			text += "k = " + sym.Str(sym.Param("len", 2)) + "\n"
		case 1:
			text += "k=" + sym.StrIn(1+sym.Param("len", 2), "\"'`\\ #a;") + "\n"
		case 2:
			text += "m = \"\"\"" + sym.Str(1) + "\nb\"\"\"\n"
		case 3:
			text += " c " + sym.StrIn(1, "#\\=;\"") + "\n"
		case 4:
			text += "b" + sym.Str(1) + "\n"
		case 5:
			text += "k=a" + sym.StrIn(1+sym.Param("len", 2), "\\;# \"'") + "\n"
		case 6:
			text += "[s]\n"
		case 7:
			text += "\n"
		case 8:
			text += "k=\n"
		}
	}
	f, err := ini.LoadSources(o, []byte(text))
	if err != nil {
		sym.Stop()
	}
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			sym.Assume(goodKeyName(k.Name()))
			sym.Assume(k.Value() != "" || len(k.ValueWithShadows()) == 0)
			for _, v := range k.ValueWithShadows() {
				sym.Assume(!(has(v, "`") && has(v, `"""`)))
			}
		}
	}
	g := reload(f, o)
	sameData(dump(f), dump(g), "document reloaded")
	sameMore33(f, g)
	sym.Reach("back")
}
