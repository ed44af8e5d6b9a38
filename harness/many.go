package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// Long lines and many things: what a buffer, a capacity or a limit in the code would cut.

// longText is a text around the size of a buffer.
func longText(unit string) string {
	n := []int{1020, 4090, 8190}[sym.Choose(3)] + sym.Choose(3)*3
	return strings.Repeat(unit, n)
}

// C02_long reads a document with one long line of any kind and arbitrary bytes at its end.
//
//sym:both len=0 time=10
//sym:both len=1 time=20
//sym:both len=2 time=40
//sym:thorough len=3 time=300
//sym:reach read refused
func C02_long() {
	l := longText("x")
	t := [][2]string{
		{"k=" + l, "\nb=1\n"},
		{l, "=v\nb=1\n"},
		{"[" + l, "]\na=1\n"},
		{"# " + l, "\nk=v\n"},
		{strings.Repeat(" ", len(l)) + "k=", "\nb=1\n"},
		{"k='" + l, "'\nb=1\n"},
		{"k=v # " + l, "\nb=1\n"},
		{"k=v" + strings.Repeat("\t", len(l)), "\nb=1\n"},
		{strings.Repeat("\n", len(l)), "=v"},
	}[sym.Choose(9)]
	against(ini.LoadOptions{}, t[0]+sym.Str(sym.Param("len", 2))+t[1], true)
}

// C02_many reads a document of many sections and keys with an arbitrary line among them.
//
//sym:both len=1 time=20
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach read refused
func C02_many() {
	a, b := sym.Choose(3), sym.Choose(3)
	text := ""
	for i := 0; i < 24; i++ {
		text += "[s" + itoa(i%20) + "]\n"
		for j := 0; j < 4; j++ {
			if i == 11*a && j == b {
				text += []string{"k0=", "k9", "[", ""}[sym.Choose(4)] + sym.Str(sym.Param("len", 2)) + "=\n"
			}
			text += "k" + itoa(j+i%3) + " = " + itoa(i) + "\n"
		}
	}
	against(ini.LoadOptions{}, text, true)
}

// C03_many writes many values, three of them arbitrary, and reads them back.
//
//sym:both len=1 time=20
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach back
func C03_many() {
	f := ini.Empty()
	for i := 0; i < 16; i++ {
		s := f.Section("s" + itoa(i/8))
		v := "v" + itoa(i)
		if i == 1 || i == 14 {
			v = sym.Str(sym.Param("len", 2))
			sym.Assume(!(has(v, "`") && has(v, `"""`)))
		}
		s.NewKey("k"+itoa(i), v)
	}
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "values reloaded")
	sym.Reach("back")
}

// C04_long writes long names of sections and keys.
//
//sym:both len=0 time=10
//sym:both len=1 time=40
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach back
func C04_long() {
	l := longText("n")
	x := sym.Str(sym.Param("len", 2))
	f := ini.Empty()
	f.Section("").NewKey("first", "1")
	if sym.Choose(2) == 0 {
		sym.Assume(goodKeyName(l + x))
		f.Section("s").NewKey(l+x, "v")
		f.Section("s").NewKey("k", "w")
	} else {
		sym.Assume(!has(x, "\n"))
		f.Section(l+x).NewKey("k", "v")
		f.Section(l).NewKey("k", "w")
	}
	f.Section("t").NewKey("x", "y")
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "names reloaded")
	sym.Reach("back")
}

// C04_many writes many sections and keys, two of them with arbitrary names, and deletes some.
//
//sym:both len=1 time=20
//sym:both len=2 time=60
//sym:reach back
func C04_many() {
	n := sym.Param("len", 1)
	a, b := sym.Str(n), sym.Str(n)
	sym.Assume(!has(a, "\n"))
	sym.Assume(goodKeyName(b))
	f := ini.Empty()
	for i := 0; i < 14; i++ {
		s := f.Section("s" + itoa(i))
		if i == 10 {
			s = f.Section(a)
		}
		for j := 0; j < 12; j++ {
			if i == 10 && j == 10 {
				s.NewKey(b, "v")
			} else if i > 8 || j == 0 {
				s.NewKey("k"+itoa(j), itoa(i))
			}
		}
	}
	switch sym.Choose(3) {
	case 1:
		f.DeleteSection("s" + itoa(sym.Choose(14)))
	case 2:
		f.Section(a).DeleteKey("k" + itoa(sym.Choose(12)))
	}
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "names reloaded")
	sym.Reach("back")
}

// C05_long has long comments and comments of many lines.
//
//sym:both len=0 time=10
//sym:both len=1 time=30
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach back
func C05_long() {
	c := longText("c")
	if sym.Choose(2) == 1 {
		c = strings.Repeat("# c\n; d\n", 20)
	}
	c += sym.Str(sym.Param("len", 2))
	f := ini.Empty()
	f.Section("").NewKey("j", "1")
	s := f.Section("s")
	s.NewKey("k", "v")
	s.NewKey("l", "w")
	if sym.Choose(2) == 0 {
		s.Key("k").Comment = c
	} else {
		s.Comment = c
	}
	commentsBack(f, ini.LoadOptions{})
}

// C07_many loads many sources that assign the same key, or not.
//
//sym:both time=60
//sym:reach done
func C07_many() {
	var srcs []any
	want := ""
	var other []string
	for i := 0; i < 7; i++ {
		t := "[o]\nk" + itoa(i) + "=" + itoa(i) + "\n"
		if i == 0 || sym.Choose(2) == 1 {
			want = sym.StrIn(1, "ab,%1")
			t += "[s]\nk=" + want + "\n"
		}
		other = append(other, "k"+itoa(i))
		srcs = append(srcs, []byte(t))
	}
	f, err := ini.Load(srcs[0], srcs[1:]...)
	sym.Assert(err == nil, "load")
	for i := 0; i < 2; i++ {
		sym.Assert(f.Section("s").Key("k").Value() == want, "the last source does not win")
		sym.Assert(eqStrs(f.Section("o").KeyStrings(), other), "keys of all sources")
		for j, k := range f.Section("o").Keys() {
			sym.Assert(k.Value() == itoa(j), "values of all sources")
		}
		sym.Assert(eqStrs(f.SectionStrings(), []string{"DEFAULT", "o", "s"}), "sections of all sources")
		sym.Assert(f.Reload() == nil, "reload")
	}
	sym.Reach("done")
}

// C09_crowd creates many sections, deletes some of them and looks at all that are left.
//
//sym:both n=13 time=60
//sym:thorough n=24 time=200
//sym:reach done
func C09_crowd() {
	n := sym.Param("n", 13)
	unique := sym.Choose(2) == 0
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: !unique})
	m := &secModel{f: f, unique: unique}
	for _, s := range f.Sections() {
		m.list = append(m.list, msec{s.Name(), s})
	}
	for i := 0; i < n; i++ {
		name := "s" + itoa(i*2/3)
		s, err := f.NewSection(name)
		sym.Assert(err == nil, "NewSection fails")
		m.create(name, s)
	}
	m.check("s")
	for i := 0; i < 2; i++ {
		name := "s" + sym.StrIn(1, "01234567x")
		m.op([]int{1, 2, 3}[sym.Choose(3)], name)
		m.check(name)
	}
	sym.Reach("done")
}

// C10_many creates many keys, deletes some of them and looks at all that are left.
//
//sym:both n=13 time=60
//sym:thorough n=24 time=200
//sym:reach done
func C10_many() {
	n := sym.Param("n", 13)
	f := ini.Empty()
	m := &keyModel{s: f.Section("s")}
	for i := 0; i < n; i++ {
		name := "k" + itoa(i)
		k, err := m.s.NewKey(name, itoa(i))
		sym.Assert(err == nil, "NewKey fails")
		m.assign(name, itoa(i), k)
	}
	m.check("k", "x")
	for i := 0; i < 2; i++ {
		name := "k" + sym.StrIn(1+i%2, "0123x")
		m.op(sym.Choose(3), name, sym.StrIn(1, "01"))
		m.check(name, "1")
	}
	sym.Reach("done")
}

// C11_many has a parent with many children, and a deep line of parents.
//
//sym:both time=40
//sym:reach found
func C11_many() {
	t := &tree{f: ini.Empty(), delim: ".", keys: map[string][]string{}, names: []string{ini.DefaultSection}}
	t.add("p")
	name := "p"
	from := []int{0, 5, 12}[sym.Choose(3)]
	for i := 0; i < 12; i++ {
		t.add("p.c" + itoa(i))
		name += "." + itoa(i)
		if i >= from && (i < 9 || sym.Choose(2) == 1) {
			t.add(name)
		}
	}
	t.add(name)
	own := []string{"p", "p.0", "p.0.1.2.3.4", "p.c" + sym.StrIn(1, "0359")}[sym.Choose(4)]
	t.add(own)
	t.put(own, "k")
	t.put([]string{"p", "p.c11", name}[sym.Choose(3)], "l")
	t.check()
}

// C12_many finds many sections and keys in any case.
//
//sym:both time=20
//sym:reach done
func C12_many() {
	text := ""
	for i := 0; i < 12; i++ {
		text += "[Sec" + itoa(i) + "]\n"
		for j := 0; j < 12; j++ {
			text += "Key" + itoa(j) + "=V" + itoa(i) + "\n"
		}
	}
	f, err := ini.LoadSources(ini.LoadOptions{Insensitive: true}, []byte(text))
	sym.Assert(err == nil, "load")
	x := letters(3)
	same := lower(x) == "sec"
	i, j := sym.Choose(12), sym.Choose(12)
	s, err := f.GetSection(x + itoa(i))
	sym.Assert((err == nil) == same, "GetSection")
	if !same {
		sym.Assert(f.Section("SEC"+itoa(i)).HasKey(x+itoa(j)) == (lower(x) == "key"), "HasKey")
		sym.Stop()
	}
	sym.Assert(s.Name() == "sec"+itoa(i) && len(s.KeyStrings()) == 12, "section")
	sym.Assert(s.Key("kEY"+itoa(j)).Value() == "V"+itoa(i) && s.KeyStrings()[j] == "key"+itoa(j), "key")
	sym.Assert(len(f.SectionStrings()) == 13 && len(s.Keys()) == 12, "looking creates nothing")
	sym.Reach("done")
}

// C13_many expands values with many references and long lines of references.
//
//sym:both time=40
//sym:reach done
func C13_many() {
	n := []int{3, 10, 40, 97}[sym.Choose(4)]
	x := sym.Str(2)
	_, _, is := reference("x" + x + "x")
	sym.Assume(!is)
	sym.Assume(!sym.IsIn(x[0], "%()s"))
	sym.Assume(!sym.IsIn(x[1], "%()s"))
	f := ini.Empty()
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	if sym.Choose(2) == 0 {
		for i := 0; i < n; i++ {
			s.NewKey("k"+itoa(i), "%(k"+itoa(i+1)+")s")
		}
		s.NewKey("k"+itoa(n), x)
		for _, i := range []int{0, 1, n - 1} {
			sym.Assert(s.Key("k"+itoa(i)).String() == x, "a line of references")
		}
	} else {
		v, want := "", ""
		for i := 0; i < n; i++ {
			s.NewKey("j"+itoa(i), x)
			v += "%(j" + itoa(i) + ")s"
			want += x
		}
		s.NewKey("k", v)
		sym.Assert(s.Key("k").String() == want, "many references")
	}
	sym.Reach("done")
}

// C15_many reads long lists.
//
//sym:both len=0 time=10
//sym:both len=1 time=40
//sym:both len=2 time=60
//sym:reach all some
func C15_many() {
	v := ""
	for i := 0; i < 14; i++ {
		v += itoa(i) + ","
	}
	x := sym.StrIn(sym.Param("len", 2), "017, -x")
	checkLists([]string{v + x, x + "," + v, v + x + "," + v}[sym.Choose(3)])
}

// C16_many picks among many candidates.
//
//sym:both time=20
//sym:reach in out
func C16_many() {
	v := sym.StrIn(2, "0123a")
	var cs []string
	var is []int
	in := v == "x"
	for i := 0; i < 23; i++ {
		c := itoa(i)
		cs, is = append(cs, c), append(is, i)
		in = sym.Or(in, c == v)
	}
	_, k := keyWith(v)
	if in {
		sym.Reach("in")
		sym.Assert(k.In("d", cs) == v, "In does not give the value")
		n, err := k.Int()
		sym.Assert(err == nil && k.InInt(-1, is) == n, "InInt does not give the value")
	} else {
		sym.Reach("out")
		sym.Assert(k.In("d", cs) == "d", "In does not give the default")
	}
}

// C17_many loads and adds many values of a key.
//
//sym:both n=9 time=60
//sym:thorough n=20 time=200
//sym:reach done
func C17_many() {
	o := shadowOpts()
	var vals []string
	text := ""
	n := sym.Param("n", 9)
	for i := 0; i < n; i++ {
		v := "v" + itoa(i)
		if i == 3 || i == n-1 {
			v = "v" + sym.StrIn(1, "0125a") // one of the others, or not
		}
		vals = append(vals, v)
		text += "k=" + v + "\n"
	}
	f, err := ini.LoadSources(o, []byte(text+"j=1\n"))
	sym.Assert(err == nil, "load")
	k := f.Section("").Key("k")
	checkShadows(k, o, vals, "loaded")
	for i := 0; i < 3; i++ {
		v := "w" + itoa(i)
		sym.Assert(k.AddShadow(v) == nil, "AddShadow")
		vals = append(vals, v)
	}
	checkShadows(k, o, vals, "added")
	g := reload(f, o)
	checkShadows(g.Section("").Key("k"), o, vals, "reloaded")
	sym.Reach("done")
}

// C18_many loads and adds many and long nested values.
//
//sym:both len=1 time=20
//sym:both len=2 time=60
//sym:reach done
func C18_many() {
	var want []string
	text := "k =\n"
	for i := 0; i < 12; i++ {
		v := "v" + itoa(i)
		switch i {
		case 2:
			v = longText("x")
		case 7:
			v = "v" + sym.Str(sym.Param("len", 2)) + "v"
			sym.Assume(!has(v, "\n"))
		}
		want = append(want, v)
		text += "  " + v + "\n"
	}
	f, err := ini.LoadSources(nested, []byte(text+"j=1\n"))
	sym.Assert(err == nil, "load")
	k := f.Section("").Key("k")
	sym.Assert(eqStrs(k.NestedValues(), want), "loaded")
	for i := 0; i < 3; i++ {
		sym.Assert(k.AddNestedValue("w"+itoa(i)) == nil, "AddNestedValue")
		want = append(want, "w"+itoa(i))
	}
	sym.Assert(eqStrs(k.NestedValues(), want) && eqStrs(f.Section("").KeyStrings(), []string{"k", "j"}), "added")
	g := reload(f, nested)
	sym.Assert(eqStrs(g.Section("").Key("k").NestedValues(), want), "reloaded")
	sameData(dump(f), dump(g), "reloaded")
	sym.Reach("done")
}

// C19_many has raw sections with long lines and with many lines.
//
//sym:both len=0 time=10
//sym:both len=1 time=30
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach done
func C19_many() {
	x := sym.Str(sym.Param("len", 2))
	sym.Assume(!has(x, "\n"))
	l := longText("l")
	if sym.Choose(2) == 0 {
		l = strings.Repeat("l = 1 \\\n", 60)
	}
	want := "first\n" + l + x + "l\nlast"
	t := trimLeft(x + "l") // what a line that starts with the arbitrary text keeps
	sym.Assume(!has(l, "\n") || !sym.IsIn(t[0], "[#;"))
	f, err := ini.LoadSources(rawR, []byte("[r]\n"+want+"\n[s]\nk=1\n"))
	sym.Assert(err == nil, "load")
	if has(l, "\n") {
		want = "first\n" + l + t + "\nlast"
	}
	sym.Assert(f.Section("r").Body() == want, "body")
	sym.Assert(len(f.Section("r").Keys()) == 0 && f.Section("s").Key("k").Value() == "1", "keys")
	g := reload(f, rawR)
	sameData(dump(f), dump(g), "reloaded")
	sameBodies(f, g, "body reloaded")
	sym.Reach("done")
}

// C21_many continues a value on many lines.
//
//sym:both len=0 time=10
//sym:both len=1 time=30
//sym:both len=2 time=60
//sym:reach done
func C21_many() {
	n := []int{5, 40, 120}[sym.Choose(3)]
	x := sym.Str(sym.Param("len", 2))
	sym.Assume(!has(x, "\n"))
	text, want := "k=", ""
	kind := sym.Choose(3)
	switch kind {
	case 0:
		text, want = strings.Repeat("ab\\\n", n)+"a"+x+"z", strings.Repeat("ab", n)+"a"+x+"z"
	case 1:
		sym.Assume(!has(x, "`"))
		want = strings.Repeat("ab\n", n) + x + "z\n"
		text = "`" + want + "`"
	case 2:
		sym.Assume(!has(x, `"`))
		want = strings.Repeat(" a=b # \n", n) + x + "z"
		text = `"""` + want + `"""`
	}
	if kind == 0 {
		// a comment ends the last line
		sym.Assume(!has(x, "#") && !has(x, ";"))
	}
	f, err := ini.Load([]byte("k=" + text + "\ny=1\n"))
	sym.Assert(err == nil, "load")
	sym.Assert(f.Section("").Key("k").Value() == want, "value")
	sym.Assert(eqStrs(f.Section("").KeyStrings(), []string{"k", "y"}), "the key after it")
	sym.Reach("done")
}

// C22_many maps a long list and many sections.
//
//sym:both time=30
//sym:reach done
func C22_many() {
	type list struct {
		L  []int
		S  []string
		In []inner `ini:"in,,,nonunique"`
	}
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	x := sym.StrIn(1, "0189")
	text := ""
	var want []int
	for i := 0; i < 14; i++ {
		v := itoa(i)
		if i == 12 {
			v = x
		}
		text += v + ","
		want = append(want, i)
		s, _ := f.NewSection("in")
		s.NewKey("A", v)
	}
	want[12] = int(x[0] - '0')
	f.Section("").NewKey("L", text)
	f.Section("").NewKey("S", text)
	var l list
	sym.Assert(f.MapTo(&l) == nil, "MapTo")
	sym.Assert(len(l.L) == 14 && len(l.S) == 14 && len(l.In) == 14, "number of elements")
	for i, w := range want {
		sym.Assert(l.L[i] == w && l.In[i].A == w, "element")
		sym.Assert(i == 12 || l.S[i] == itoa(i), "text of an element")
	}
	sym.Assert(l.S[12] == x, "text of the element")
	sym.Reach("done")
}

// C25_long has the end of a line of any length end with a carriage return as well, or the file start with a mark.
//
//sym:both time=60
//sym:reach loaded
func C25_long() {
	n := []int{1018, 4086, 8180}[sym.Choose(3)] + sym.Choose(14)
	x := sym.Str(1)
	sym.Assume(!sym.IsIn(x[0], "\r\n\"`'\\"))
	t := []string{"k=", "", "# ", "[s]\nk=v #", "k = `\n"}[sym.Choose(5)] + strings.Repeat("x", n) + x
	rest := "=v\nb=1\n"
	if has(t, "`") {
		rest = "`\nb=1\n"
	}
	o := ini.LoadOptions{SkipUnrecognizableLines: true}
	f, err := ini.LoadSources(o, []byte(t+rest))
	with := t + rest
	if sym.Choose(2) == 0 {
		sym.Assume(!has(t, "`"))
		with = strings.ReplaceAll(with, "\n", "\r\n")
	} else {
		with = bom + with
	}
	g, err2 := ini.LoadSources(o, []byte(with))
	same25(f, err, g, err2, "as it was", true)
}

// C26_many writes a long file, which gives everything, and as often as asked.
//
//sym:both time=40
//sym:reach done
func C26_many() {
	f := ini.Empty()
	x := sym.Str(1)
	for i := 0; i < 14; i++ {
		s := f.Section("s" + itoa(i))
		s.Comment = "# " + itoa(i)
		for j := 0; j < 12; j++ {
			v := strings.Repeat("v", 30)
			if i == 12 && j == 10 {
				v = x
			}
			s.NewKey("k"+itoa(j), v)
		}
	}
	a, b := written(f), written(f)
	sym.Assert(string(a) == string(b), "written again")
	text := string(a)
	for i := 0; i < 14; i++ {
		sym.Assert(strings.Count(text, "[s"+itoa(i)+"]") == 1, "a section is missing")
	}
	sym.Assert(strings.Count(text, " = ") >= 14*12-1, "a key is missing")
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "reloaded")
	sameComments(dump(f), dump(g), "reloaded")
	sym.Reach("done")
}

// C27_long maps long names.
//
//sym:both len=1 time=10
//sym:both len=2 time=30
//sym:reach done
func C27_long() {
	x := ascii(sym.Param("len", 2))
	n := "Alpha" + strings.Repeat("BetaGamma", []int{3, 8, 20}[sym.Choose(3)]) + x + "End"
	sym.Assert(ini.TitleUnderscore(n) == asciiLower(underscored(n)), "TitleUnderscore")
	sym.Assert(ini.SnackCase(n) == asciiUpper(underscored(n)), "SnackCase")
	sym.Reach("done")
}
