package harness

import (
	"bytes"
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// anyFormat sets every formatting switch to anything and returns the indentation; undo restores the defaults.
func anyFormat() (indent string, undo func()) {
	undo = func() {
		ini.PrettyFormat, ini.PrettyEqual, ini.PrettySection, ini.DefaultHeader = true, false, true, false
		ini.DefaultFormatLeft, ini.DefaultFormatRight, ini.LineBreak = "", "", "\n"
	}
	ini.PrettyFormat = sym.Choose(2) == 0
	ini.PrettyEqual = sym.Choose(2) == 0
	ini.PrettySection = sym.Bool()
	ini.LineBreak = []string{"\n", "\r\n"}[sym.Choose(2)]
	ini.DefaultHeader = sym.Bool()
	if !ini.PrettyFormat && !ini.PrettyEqual {
		i := sym.Choose(4)
		ini.DefaultFormatLeft = []string{"", " ", "", "\t "}[i]
		ini.DefaultFormatRight = []string{"", "", " ", "\t"}[i]
	} else if sym.Choose(2) == 1 { // has no effect
		ini.DefaultFormatLeft, ini.DefaultFormatRight = "\t ", " "
	}
	return []string{"", " ", "\t"}[sym.Choose(3)], undo
}

func formatted(f *ini.File, indent string, o ini.LoadOptions) *ini.File {
	var buf bytes.Buffer
	n, err := f.WriteToIndent(&buf, indent)
	sym.Assert(err == nil && n == int64(buf.Len()), "WriteToIndent")
	g, err := ini.LoadSources(o, buf.Bytes())
	if err != nil {
		sym.Fail("cannot load what was written: " + buf.String())
	}
	return g
}

// C06_value writes a key of any value with every format.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach back
func C06_value() {
	v := sym.Str(sym.Param("len", 2))
	o := ini.LoadOptions{KeyValueDelimiterOnWrite: []string{"", "=", ":"}[sym.Choose(3)]}
	f := ini.Empty(o)
	k := place(f, sym.Choose(4), "key", v)
	k.Comment = "# c"
	indent, undo := anyFormat()
	defer undo()
	g := formatted(f, indent, o)
	a, b := dump(f), dump(g)
	sameData(a, b, "reformatted")
	sameComments(a, b, "reformatted")
	sym.Reach("back")
}

// C06_names writes keys and sections of any name with every format.
//
//sym:both len=0 time=7
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach back
func C06_names() {
	n := sym.Str(sym.Param("len", 2))
	sn := sym.Str(1)
	sym.Assume(goodKeyName(n) && !has(sn, "\n"))
	o := ini.LoadOptions{KeyValueDelimiterOnWrite: []string{"=", ":"}[sym.Choose(2)]}
	f := ini.Empty(o)
	f.Section("").NewKey("ab", "1")
	f.Section("").NewKey(n, "2")
	f.Section(sn).NewKey(n, "")
	f.Section(sn).NewKey("c", "d e")
	indent, undo := anyFormat()
	defer undo()
	g := formatted(f, indent, o)
	sameData(dump(f), dump(g), "reformatted")
	sym.Reach("back")
}

// C06_delims reads with a custom set of delimiters and writes one of them.
//
//sym:both len=0 time=7
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach back
func C06_delims() {
	n := sym.Str(sym.Param("len", 2))
	sym.Assume(goodKeyName(n))
	v := []string{"v", "", "a|b", "=>"}[sym.Choose(4)]
	o := ini.LoadOptions{KeyValueDelimiters: "|=>"}
	o.KeyValueDelimiterOnWrite = []string{"|", "=", ">", ""}[sym.Choose(4)]
	f := ini.Empty(o)
	place(f, 1, n, v)
	indent, undo := anyFormat()
	defer undo()
	g := formatted(f, indent, o)
	sameData(dump(f), dump(g), "reformatted")
	sym.Reach("back")
}

// C06_align checks that the equal signs of a section are aligned.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach aligned
func C06_align() {
	f := ini.Empty()
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	n := sym.Param("len", 3)
	for i := 0; i < 3; i++ {
		name := sym.Str(1 + sym.Choose(n))
		sym.Assume(goodKeyName(name))
		s.NewKey(name, "v")
	}
	text := string(written(f))
	at := -1
	for _, l := range strings.Split(text, "\n") {
		if l == "" || l == "[s]" {
			continue
		}
		sym.Assert(strings.HasSuffix(l, " = v"), "a key is not written as such")
		if at < 0 {
			at = len(l)
		}
		sym.Assert(at == len(l), "equal signs are not aligned")
		sym.Reach("aligned")
	}
}

// C06_modes formats files with shadows, nested values, boolean and auto-increment keys and raw sections.
//
//sym:both len=0 time=7
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach back
func C06_modes() {
	v := sym.Str(sym.Param("len", 2))
	sym.Assume(!has(v, "\n") && v != "" && strings.TrimSpace(v) == v)
	o := ini.LoadOptions{AllowShadows: true, AllowBooleanKeys: true, AllowNestedValues: true, UnparseableSections: []string{"r"}}
	text := "longer name = a\n-=1\nk=\n n\n m\n[s]\n-=2\n-=3\nflag\n[r]\nraw text\n[t]\nk=v\n"
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	switch sym.Choose(3) {
	case 0:
		f.Section("").Key("longer name").AddShadow(v)
	case 1:
		f.Section("").Key("k").AddNestedValue(v)
	case 2:
		f.Section("t").Key("k").SetValue(v)
	}
	indent, undo := anyFormat()
	defer undo()
	g := formatted(f, indent, o)
	a, b := dump(f), dump(g)
	sameData(a, b, "reformatted")
	for i, s := range f.Sections() {
		t := g.Sections()[i]
		sym.Assert(s.Body() == t.Body(), "body")
		for j, k := range s.Keys() {
			l := t.Keys()[j]
			sym.Assert(eqStrs(k.ValueWithShadows(), l.ValueWithShadows()), "shadows")
			sym.Assert(eqStrs(k.NestedValues(), l.NestedValues()), "nested values")
		}
	}
	sym.Reach("back")
}

// C06_lines formats what documents with lines of every kind hold.
//
//sym:quick n=2 time=60
//sym:thorough n=3 time=400
//sym:reach read refused
func C06_lines() {
	o := ini.LoadOptions{
		AllowBooleanKeys: true,
		AllowShadows:     sym.Bool(),
	}
	text := lines(sym.Param("n", 2), "k=?", "other = v ; c", "# d", "flag", "-=x", "[s] # e", "`a=b`=`c;d`", "k=")
	f := against(o, text, true)
	for _, s := range f.Sections() {
		sym.Assume(!has(s.Name(), "\n"))
		for _, k := range s.Keys() {
			sym.Assume(len(k.ValueWithShadows()) < 2 || k.Value() != "")
		}
	}
	indent, undo := anyFormat()
	defer undo()
	sameFile(f, formatted(f, indent, o))
}

// C06_long has names and values of any size.
//
//sym:both len=0 time=15
//sym:both len=1 time=60
//sym:reach aligned
func C06_long() {
	size := []int{1, 31, 63, 64, 65, 127, 128, 200, 1000}
	var names []string
	f := ini.Empty()
	s := f.Section("s" + strings.Repeat("t", size[sym.Choose(len(size))]))
	for i := 0; i < 2; i++ {
		n := sym.Str(1)
		sym.Assume(n[0] > ' ' && n[0] < 127)
		n = strings.Repeat("n", size[sym.Choose(len(size))]) + n
		names = append(names, n)
		s.NewKey(n, "v")
	}
	at := -1
	for _, l := range strings.Split(string(written(f)), "\n") {
		if i := strings.LastIndex(l, "= v"); i >= 0 {
			sym.Assert(at < 0 || at == i, "equal signs are not aligned")
			at = i
			sym.Reach("aligned")
		}
	}
	sym.Assert(at > 0, "no key is written")
	again(f, ini.LoadOptions{})
}
