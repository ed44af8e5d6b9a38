package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

var rawR = ini.LoadOptions{UnparseableSections: []string{"r", "other"}}

// sameBodies asserts that two files have the same raw bodies.
func sameBodies(f, g *ini.File, what string) {
	for _, s := range f.Sections() {
		sym.Assert(s.Body() == g.Section(s.Name()).Body(), what)
		sym.Observe(s.Body())
	}
}

// C19_text loads any text with a raw section in it.
//
//sym:both len=2 time=15
//sym:both len=3 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=4 time=30
//sym:both len=5 time=60
//sym:thorough len=7 time=200
//sym:thorough len=8 time=300
//sym:reach read refused
func C19_text() {
	head := []string{"[r]\n", "[r]\nx\n", "a=1\n[r]\n=\n", "[s]\n[r]\n", "[r]\ny"}[sym.Choose(5)]
	f := against(rawR, head+sym.StrIn(sym.Param("len", 4), "r=\n []#\t"), true)
	for _, s := range f.Sections() {
		sym.Assume(!has(s.Name(), "\n"))
	}
	g := reload(f, rawR)
	sameData(dump(f), dump(g), "reloaded")
	sameBodies(f, g, "body reloaded")
}

// C19_lines has raw lines of any bytes.
//
//sym:both len=0 time=15
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:both len=3 time=60
//sym:thorough len=4 time=200
//sym:thorough len=5 time=300
//sym:reach done
func C19_lines() {
	n := sym.Param("len", 2)
	a, b := sym.Str(n), sym.Str(n)
	for _, l := range []string{a, b} {
		sym.Assume(!has(l, "\n"))
		t := strings.TrimSpace(l)
		sym.Assume(t != "")
		sym.Assume(!sym.IsIn(t[0], "[#;"))
	}
	o := rawR
	o.AllowShadows = sym.Choose(2) == 1
	o.AllowBooleanKeys = o.AllowShadows
	o.IgnoreContinuation = o.AllowShadows
	text := "k=1\n[r]\n" + a + "\n\n" + b + "\n[s]\nk=2\n[other]\n\"\"\"\n"
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	r := f.Section("r")
	// the lines keep everything but leading blanks, and the body as a whole is trimmed
	want := strings.TrimSpace(trimLeft(a) + "\n" + trimLeft(b))
	sym.Assert(r.Body() == want, "body")
	sym.Assert(len(r.Keys()) == 0, "a raw line becomes a key")
	sym.Assert(eqStrs(f.SectionStrings(), []string{"DEFAULT", "r", "s", "other"}), "sections")
	sym.Assert(f.Section("other").Body() == `"""`, "body of the other raw section")
	sym.Assert(f.Section("s").Key("k").Value() == "2" && f.Section("").Key("k").Value() == "1", "keys of plain sections")
	sym.Assert(f.Section("s").Body() == "" && f.Section("").Body() == "", "a plain section has a body")
	f.Section("s").SetBody("x")
	sym.Assert(f.Section("s").Body() == "", "a plain section takes a body")
	g := reload(f, o)
	sameData(dump(f), dump(g), "reloaded")
	sameBodies(f, g, "body reloaded")
	r.SetBody("")
	sym.Assert(r.Body() == "", "the body is not emptied")
	sym.Assert(reload(f, o).Section("r").Body() == "", "the emptied body comes back")
	sym.Reach("done")
}

// C19_body sets bodies of any text, also without a line end, and writes them with and without pretty sections.
//
//sym:both len=2 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=30
//sym:both len=4 time=60
//sym:thorough len=5 time=200
//sym:thorough len=6 time=300
//sym:reach done
func C19_body() {
	b := sym.Str(sym.Param("len", 3))
	lines := strings.Split(b, "\n")
	var keptLines []string
	for _, l := range lines {
		t := trimLeft(l)
		if t != "" {
			sym.Assume(!sym.IsIn(t[0], "[#;"))
			keptLines = append(keptLines, t)
		}
	}
	ini.PrettySection = sym.Choose(2) == 1
	defer func() { ini.PrettySection = true }()
	f := ini.Empty(rawR)
	if sym.Choose(2) == 0 {
		_, err := f.NewRawSection("r", b)
		sym.Assert(err == nil, "NewRawSection")
	} else {
		f.NewRawSection("r", "before")
		f.Section("r").SetBody(b)
	}
	sym.Assert(f.Section("r").Body() == strings.TrimSpace(b), "Body")
	if sym.Choose(2) == 0 {
		f.Section("s").NewKey("k", "v")
		f.Section("s").Comment = "# c"
	}
	g := reload(f, rawR)
	sym.Assert(eqStrs(f.SectionStrings(), g.SectionStrings()), "sections reloaded")
	sym.Assert(g.Section("r").Body() == strings.TrimSpace(strings.Join(keptLines, "\n")), "body reloaded")
	sameData(dump(f), dump(g), "reloaded")
	sym.Reach("done")
}

// C19_fold matches the names of raw sections, in any case when sections are case-insensitive.
//
//sym:both time=30
//sym:reach raw plain
func C19_fold() {
	o := ini.LoadOptions{UnparseableSections: []string{"Ra", "x"}}
	switch sym.Choose(3) {
	case 1:
		o.Insensitive = true
	case 2:
		o.InsensitiveSections = true
	}
	n := sym.StrIn(2, "rRaAx")
	f, err := ini.LoadSources(o, []byte("["+n+"]\na = \"\n[b]\nk=v\n"))
	fold := o.Insensitive || o.InsensitiveSections
	raw := n == "Ra" || fold && strings.ToLower(n) == "ra"
	sym.Assert(err == nil, "load")
	if raw {
		sym.Reach("raw")
		sym.Assert(f.Section(n).Body() == `a = "` && len(f.Section(n).Keys()) == 0, "raw section")
	} else {
		sym.Reach("plain")
		sym.Assert(f.Section(n).Body() == "" && len(f.Section(n).Keys()) == 1, "plain section")
	}
	sym.Assert(f.Section("b").Key("k").Value() == "v", "the section after it")
}

// C19_several has the same raw section in several places and sources.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=100
//sym:reach done
func C19_several() {
	n := sym.Param("len", 2)
	a, b, c := sym.StrIn(n, "a=\n "), sym.StrIn(n, "b\"\n "), sym.StrIn(n, "c`\n ")
	x, y := "[r]\n"+a+[]string{"", "\n"}[sym.Choose(2)], "[r]\n"+b+"\n[s]\nk=v\n[r]\n"+c
	f, err := ini.LoadSources(rawR, []byte(x), []byte(y))
	sym.Assert(err == nil, "load")
	refSame(f, refLoadAll(rawR, x, y), true)
	sym.Reach("done")
}

// C19_kinds has raw and other sections in documents with lines of every kind.
//
//sym:quick n=3 time=60
//sym:thorough n=4 time=400
//sym:reach read refused
func C19_kinds() {
	o := rawR
	o.InsensitiveSections = sym.Bool()
	o.AllowNonUniqueSections = sym.Bool()
	text := lines(sym.Param("n", 3), "[r]", "[R]", "[ r]", "[r.s]", "[other] # c", "?=v", "text", " = x", "", "`a", "# c", "[DEFAULT]")
	against(o, text, true)
}

// C19_twins looks at bodies of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C19_twins() { twins(twinRaw, "1 ", seeBodies) }

// C19_created has sections that were made raw, and further sources.
//
//sym:both len=0 time=15
//sym:both len=1 time=20
//sym:both len=2 time=60
//sym:reach done
func C19_created() {
	f, err := ini.LoadSources(rawR, []byte("[r]\nx\n[t]\nk=1\n"))
	sym.Assert(err == nil, "load")
	body := sym.StrIn(sym.Param("len", 1), "a =\n")
	s, err := f.NewRawSection("s", body)
	sym.Assert(err == nil && s.Name() == "s" && s.Body() == strings.TrimSpace(body), "NewRawSection")
	v := sym.StrIn(1, "a1")
	text := []string{"[s]\nk=" + v, "[t]\nk=" + v, "[r]\nk=" + v + "\n[s]\nk=" + v + "\n[t]\nk=" + v}[sym.Choose(3)]
	if sym.Choose(2) == 1 {
		s.SetBody("other")
		body = "other"
	}
	sym.Assert(f.Append([]byte(text)) == nil, "Append")
	sym.Assert(s.Body() == strings.TrimSpace(body), "the body is kept")
	sym.Assert(s.HasKey("k") == has(text, "[s]"), "a section that is not listed is parsed as usual")
	if s.HasKey("k") {
		sym.Assert(s.Key("k").Value() == v, "a section that is not listed is parsed as usual")
	}
	t := "1"
	if has(text, "[t]") {
		t = v
	}
	sym.Assert(f.Section("t").Key("k").Value() == t, "keys of a plain section")
	sym.Assert(len(f.Section("r").Keys()) == 0 && has(f.Section("r").Body(), "x") && has(f.Section("r").Body(), "k="+v) == has(text, "[r]"), "body of the listed section")
	g := reload(f, ini.LoadOptions{UnparseableSections: []string{"r", "s"}})
	sym.Assert(g.Section("s").Body() == s.Body() && g.Section("r").Body() == f.Section("r").Body(), "bodies reloaded")
	sym.Assert(g.Section("t").Key("k").Value() == t, "reloaded")
	sym.Reach("done")
}
