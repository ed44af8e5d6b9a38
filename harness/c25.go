package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// same25 asserts that two loads agree.
func same25(f *ini.File, err error, g *ini.File, err2 error, what string, comments bool) {
	sym.Assert((err == nil) == (err2 == nil), what+": one is refused, the other is not")
	if err != nil {
		sym.Reach("refused")
		return
	}
	a, b := dump(f), dump(g)
	sameData(a, b, what)
	if comments {
		sameComments(a, b, what)
	}
	x, y := f.Sections(), g.Sections()
	for i := range x {
		if !comments {
			sym.Assert(strings.ReplaceAll(x[i].Comment, "\r", "") == strings.ReplaceAll(y[i].Comment, "\r", ""), what+": section comment")
			sym.Assert(strings.ReplaceAll(x[i].Body(), "\r", "") == strings.ReplaceAll(y[i].Body(), "\r", ""), what+": section body")
		} else {
			sym.Assert(x[i].Body() == y[i].Body(), what+": section body")
		}
		k, l := x[i].Keys(), y[i].Keys()
		for j := range k {
			if !comments {
				sym.Assert(strings.ReplaceAll(k[j].Comment, "\r", "") == strings.ReplaceAll(l[j].Comment, "\r", ""), what+": key comment")
			}
			sym.Assert(eqStrs(k[j].ValueWithShadows(), l[j].ValueWithShadows()), what+": values")
			sym.Assert(eqStrs(k[j].NestedValues(), l[j].NestedValues()), what+": nested values")
		}
	}
	sym.Reach("loaded")
}

// marked says whether the text starts with a byte order mark.
func marked(t string) bool {
	return strings.HasPrefix(t, bom) || strings.HasPrefix(t, "\xfe\xff") || strings.HasPrefix(t, "\xff\xfe")
}

const bom = "\xef\xbb\xbf"

// C25_bom loads any text with and without the mark.
//
//sym:both len=0 modes=1 time=5
//sym:both len=1 modes=1 time=5
//sym:both len=2 modes=1 time=5
//sym:both len=0 modes=10 time=5
//sym:both len=1 modes=10 time=5
//sym:both len=3 modes=1 time=20
//sym:both len=4 modes=1 time=20
//sym:both len=2 modes=10 time=30
//sym:thorough len=3 modes=10 time=200
//sym:thorough len=5 modes=1 time=200
//sym:reach loaded refused
func C25_bom() {
	o := modes(sym.Choose(sym.Param("modes", 1)))
	t := sym.Str(sym.Param("len", 3))
	sym.Assume(!marked(t))
	f, err := ini.LoadSources(o, []byte(t))
	g, err2 := ini.LoadSources(o, []byte(bom+t))
	same25(f, err, g, err2, "byte order mark", true)
}

// C25_start loads usual documents, cut to any length, with and without the mark, from every kind of source.
//
//sym:both time=30
//sym:reach loaded refused
func C25_start() {
	d := []string{"a=1\n", "[s]\nk=v", "# c\n[s]\n", "\"q\"=1", "`a", "; c", "\n\nk=\n v\n", "\ufeffa=1", "é=1", "-=1", ""}
	t := d[sym.Choose(len(d))]
	if n := sym.Choose(6); n < len(t) {
		t = t[:n]
	}
	if marked(t) {
		sym.Stop()
	}
	c := sym.ByteIn("\xef\xfe\xff[=a ")
	if sym.Choose(2) == 1 {
		t += string([]byte{c})
	}
	o := modes(sym.Choose(10))
	f, err := ini.LoadSources(o, []byte(t))
	var src any = []byte(bom + t)
	switch sym.Choose(3) {
	case 1:
		src = &pieces{data: []byte(bom + t), sizes: []int{1, 1, 1, 1, 1, 1, 1, 1}, fault: -1}
	case 2:
		src = closer{&pieces{data: []byte(bom + t), sizes: []int{2, 1}, eof: true, fault: -1}}
	}
	g, err2 := ini.LoadSources(o, src)
	same25(f, err, g, err2, "byte order mark", true)
}

// C25_later gives the second source a mark.
//
//sym:both len=2 time=5
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=20
//sym:thorough len=4 time=100
//sym:reach loaded refused
func C25_later() {
	t := sym.Str(sym.Param("len", 3))
	sym.Assume(!marked(t))
	first := []string{bom, ""}[sym.Choose(2)] + "[s]\na=1\n"
	f, err := ini.LoadSources(ini.LoadOptions{}, []byte("[s]\na=1\n"), []byte(t))
	var g *ini.File
	var err2 error
	if sym.Choose(2) == 0 {
		g, err2 = ini.LoadSources(ini.LoadOptions{}, []byte(first), []byte(bom+t))
	} else {
		g, err2 = ini.LoadSources(ini.LoadOptions{}, []byte(first))
		sym.Assert(err2 == nil, "the first source is refused")
		err2 = g.Append([]byte(bom + t))
	}
	same25(f, err, g, err2, "byte order mark of a later source", true)
}

// C25_crlf loads any text with either line end. Values in quotes keep their line ends, so there are none.
//
//sym:both len=0 time=10
//sym:both len=2 time=10
//sym:both len=3 time=10
//sym:both len=4 time=10
//sym:both len=1 time=5
//sym:both len=5 time=20
//sym:both len=6 time=40
//sym:thorough len=7 time=200
//sym:thorough len=8 time=300
//sym:reach loaded refused
func C25_crlf() {
	t := sym.StrIn(sym.Param("len", 5), "=\n[]#;a \\")
	sym.Assume(has(t, "\n"))
	f, err := ini.LoadSources(ini.LoadOptions{}, []byte(t))
	g, err2 := ini.LoadSources(ini.LoadOptions{}, []byte(strings.ReplaceAll(t, "\n", "\r\n")))
	same25(f, err, g, err2, "CRLF", false)
}

var crlfDocs = [][2]string{
	{"k=a", "\nj=b\n"},
	{"k=\n", "\n"},
	{"k=x\n a", "\n\tb\n[t]"},
	{"[r]\na\n", "\nc\n[s]\nk=1"},
	{"#a\n", "\nk=v\n;b\n#c\n[s]"},
	{"\n\n", "\n\nk\nl\n"},
	{"k=\\\n", "\\\n\n"},
}

// C25_docs loads documents with any part in the middle, in every mode, with either line end.
//
//sym:both len=0 modes=10 time=5
//sym:both len=1 modes=10 time=5
//sym:both len=2 modes=10 time=40
//sym:thorough len=3 modes=10 time=300
//sym:thorough len=5 modes=1 time=200
//sym:reach loaded refused
func C25_docs() {
	o := modes(sym.Choose(sym.Param("modes", 1)))
	d := crlfDocs[sym.Choose(len(crlfDocs))]
	m := sym.Str(sym.Param("len", 2))
	for i := 0; i < len(m); i++ {
		sym.Assume(!sym.IsIn(m[i], "\"`\r"))
	}
	t := d[0] + m + d[1]
	f, err := ini.LoadSources(o, []byte(t))
	g, err2 := ini.LoadSources(o, []byte(strings.ReplaceAll(t, "\n", "\r\n")))
	same25(f, err, g, err2, "CRLF", false)
}

// C25_end loads any text with and without a line end after the last line.
//
//sym:both len=1 modes=1 time=5
//sym:both len=2 modes=1 time=5
//sym:both len=1 modes=10 time=5
//sym:both len=3 modes=1 time=20
//sym:both len=4 modes=1 time=20
//sym:both len=2 modes=10 time=30
//sym:thorough len=3 modes=10 time=200
//sym:thorough len=5 modes=1 time=200
//sym:reach loaded refused
func C25_end() {
	o := modes(sym.Choose(sym.Param("modes", 1)))
	d := []string{"", "a=", "[s]\nk=v\n", "k=\n "}[sym.Choose(4)]
	t := d + sym.Str(sym.Param("len", 3))
	sym.Assume(t[len(t)-1] != '\n')
	sym.Assume(t[len(t)-1] != '\r')
	end := []string{"\n", "\r\n"}[sym.Choose(2)]
	f, err := ini.LoadSources(o, []byte(t))
	g, err2 := ini.LoadSources(o, []byte(t+end))
	same25(f, err, g, err2, "last line end", true)
}

// C25_lines loads documents with lines of every kind with either line end, with a mark, and without the last line end.
//
//sym:both n=2 time=60
//sym:thorough n=3 time=300
//sym:reach loaded refused
func C25_lines() {
	o := modes(sym.Choose(10))
	t := lines(sym.Param("n", 2), "k=?", "k = ?\\", "# d", "flag", "-=x", "[s?]", "[r]", "k=", "\tin", "  ", "=?", "\"a\" = 'b'", "`a:`= \"c\" ; d")
	f, err := ini.LoadSources(o, []byte(t))
	sym.Assume(!marked(t))
	var g *ini.File
	var err2 error
	how := sym.Choose(4)
	switch how {
	case 0:
		sym.Assume(!has(t, "\r"))
		for _, l := range strings.Split(t, "\n") { // no value in quotes over several lines
			sym.Assume(strings.Count(l, "\"")%2 == 0 && strings.Count(l, "`")%2 == 0)
		}
		g, err2 = ini.LoadSources(o, []byte(strings.ReplaceAll(t, "\n", "\r\n")))
	case 1:
		g, err2 = ini.LoadSources(o, []byte(bom+t))
	case 2:
		g, err2 = ini.LoadSources(o, []byte(t[:len(t)-1]))
	case 3:
		g, err2 = ini.LoadSources(o, closer{&pieces{data: []byte(bom + t), sizes: []int{1, 1, 1, 4}, fault: -1}})
	}
	same25(f, err, g, err2, []string{"CRLF", "mark", "last line end", "mark in pieces"}[how], how > 0)
}
