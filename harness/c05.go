package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// plainComment brings a comment into the form in which it has to come back: every line with its sign and
// without the blanks after the sign and at the end.
func plainComment(c string) string {
	if c == "" {
		return ""
	}
	lines := strings.Split(c, "\n")
	for i, l := range lines {
		if l == "" || l[0] != '#' && l[0] != ';' {
			lines[i] = ";" + strings.TrimSpace(l)
		} else {
			lines[i] = l[:1] + strings.TrimSpace(l[1:])
		}
	}
	return strings.Join(lines, "\n")
}

func commentsBack(f *ini.File, o ini.LoadOptions) {
	g := reload(f, o)
	a, b := dump(f), dump(g)
	sameData(a, b, "commented file reloaded")
	for i := range a {
		if i > 0 {
			sym.Assert(plainComment(a[i].comment) == plainComment(b[i].comment), "section comment")
		}
		for j := range a[i].keys {
			sym.Assert(plainComment(a[i].keys[j].comment) == plainComment(b[i].keys[j].comment), "key comment")
		}
	}
	sym.Reach("back")
}

// C05_key puts any comment on a key.
//
//sym:both len=2 time=10
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=10
//sym:both len=4 time=40
//sym:thorough len=5 time=100
//sym:thorough len=6 time=400
//sym:reach back
func C05_key() {
	c := sym.Str(sym.Param("len", 3))
	f := ini.Empty()
	k := place(f, sym.Choose(4), "key", []string{"v", "a#b", "a\nb"}[sym.Choose(3)])
	k.Comment = c
	commentsBack(f, ini.LoadOptions{})
}

// C05_section puts any comment on a section.
//
//sym:both len=2 time=10
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=10
//sym:both len=4 time=40
//sym:thorough len=5 time=100
//sym:thorough len=6 time=400
//sym:reach back
func C05_section() {
	c := sym.Str(sym.Param("len", 3))
	f := ini.Empty()
	s := f.Section("s")
	switch sym.Choose(3) {
	case 0:
	case 1:
		s.NewKey("k", "v")
		f.Section("").NewKey("k", "v")
	case 2:
		s.NewKey("k", "v")
		s.Key("k").Comment = "k"
		f.Section("t").Comment = "t"
	}
	s.Comment = c
	commentsBack(f, ini.LoadOptions{})
}

// C05_many puts comments on several things at once.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach back
func C05_many() {
	n := sym.Param("len", 2)
	f := ini.Empty()
	f.Section("").Key("a").Comment = sym.Str(sym.Choose(n + 1))
	f.Section("").Key("b").Comment = sym.Str(1)
	f.Section("s").Comment = sym.Str(sym.Choose(n + 1))
	f.Section("s").Key("c").Comment = sym.Str(1)
	commentsBack(f, ini.LoadOptions{})
}

// C05_modes puts a comment on keys and sections of special kinds.
//
//sym:both len=2 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=60
//sym:thorough len=4 time=300
//sym:reach back
func C05_modes() {
	c := sym.Str(sym.Param("len", 3))
	o := ini.LoadOptions{AllowShadows: true, AllowBooleanKeys: true, AllowNestedValues: true, AllowNonUniqueSections: true}
	f := ini.Empty(o)
	s := f.Section("s")
	switch sym.Choose(5) {
	case 0:
		k, _ := s.NewKey("k", "1")
		k.AddShadow("2")
		k.Comment = c
	case 1:
		k, _ := s.NewBooleanKey("k")
		k.Comment = c
	case 2:
		k, _ := s.NewKey("k", "")
		k.AddNestedValue("n")
		k.Comment = c
		s.Key("l").Comment = "l"
	case 3:
		t, _ := f.NewSection("s")
		t.NewKey("k", "v")
		t.Comment = c
	case 4:
		g, err := ini.LoadSources(o, []byte("-=a\n;x\n-=b\n"))
		sym.Assert(err == nil, "load")
		f = g
		f.Section("").Key("#2").Comment = c
		f.Section("s").Comment = c
	}
	commentsBack(f, o)
}

// C05_read compares the comments of any document with the reference, inline comments included.
//
//sym:both len=2 time=5
//sym:both len=3 time=5
//sym:both len=4 time=5
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=5 time=20
//sym:thorough len=6 time=60
//sym:thorough len=7 time=200
//sym:reach read
func C05_read() {
	t := [][2]string{{"", ""}, {"#c\n", "\nk=v"}, {"k=v", "\n"}, {"[s]", "\na=b"}, {";c\n\n", "[s] #d\n"}, {"k=`", "`#\n"}}[sym.Choose(6)]
	against(ini.LoadOptions{}, t[0]+sym.Str(sym.Param("len", 4))+t[1], true)
}

// C05_lines has comments before and behind lines of every kind, and no comment where there was none.
//
//sym:both n=3 time=60
//sym:thorough n=4 time=300
//sym:reach read refused
func C05_lines() {
	o := ini.LoadOptions{
		AllowBooleanKeys:       sym.Bool(),
		AllowShadows:           sym.Bool(),
		AllowNestedValues:      sym.Bool(),
		AllowNonUniqueSections: sym.Bool(),
	}
	text := lines(sym.Param("n", 3), "# a", ";b", "k=v ; c", "flag", "-=x # ?", "[s] # e", "k=", "\tin", "l=`m", "n` # f", "j=\\", "k=w") + "last=1\n"
	f := against(o, text, true)
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			sym.Assume(len(k.NestedValues()) == 0 || len(k.ValueWithShadows()) == 0)
		}
	}
	again(f, o)
}

// C05_after reads comments after another document was loaded, whether it could be read or not, and after another source.
//
//sym:both n=2 time=60
//sym:thorough n=3 time=200
//sym:reach read refused
func C05_after() {
	n := sym.Param("n", 2)
	o := ini.LoadOptions{AllowShadows: sym.Bool(), AllowBooleanKeys: sym.Bool(), UnparseableSections: []string{"raw"}}
	first := lines(n, "# left ?", "flag", "k=`a", "[s] ; more", "[open", "k=1 ; end", "[raw]")
	second := lines(n, "k=?", "# c?", "[s]", "j", "[t] # d")
	g, err := ini.LoadSources(o, []byte(first))
	sym.Assert((g == nil) == (err != nil), "a file or an error")
	against(o, second, true)
	if err == nil {
		f, err := ini.LoadSources(o, []byte(first), []byte(second))
		want := refLoadAll(o, first, second)
		sym.Assert((err == nil) == (want != nil), "error")
		if want != nil {
			refSame(f, want, true)
		}
	}
}
