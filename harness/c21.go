package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// C21_quoted has a quoted value of any text.
//
//sym:both len=2 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=30
//sym:both len=4 time=60
//sym:thorough len=5 time=200
//sym:thorough len=6 time=300
//sym:reach done
func C21_quoted() {
	v := sym.Str(sym.Param("len", 3))
	q := []string{"`", `"""`}[sym.Choose(2)]
	sym.Assume(!has(v, q))
	o := ini.LoadOptions{}
	switch sym.Choose(4) {
	case 1:
		o.IgnoreInlineComment, o.IgnoreContinuation = true, true
	case 2:
		o.AllowPythonMultilineValues, o.AllowShadows = true, true
	case 3:
		o.PreserveSurroundedQuote, o.UnescapeValueDoubleQuotes, o.UnescapeValueCommentSymbols, o.SpaceBeforeInlineComment = true, true, true, true
	}
	tail := []string{"\nb=2\n[s]\nc=3\n", " # note\nb=2\n[s]\nc=3\n", "\r\nb=2\n[s]\nc=3"}[sym.Choose(3)]
	f, err := ini.LoadSources(o, []byte("a=1\nk = "+q+v+q+tail))
	sym.Assert(err == nil, "load")
	d := dump(f)
	sym.Assert(len(d) == 2 && len(d[0].keys) == 3 && len(d[1].keys) == 1, "the keys around")
	sym.Assert(d[0].keys[1].name == "k" && d[0].keys[1].value == v, "quoted value")
	sym.Assert(d[0].keys[0].value == "1" && d[0].keys[2].value == "2" && d[1].keys[0].value == "3", "values around")
	sym.Reach("done")
}

// C21_open has no closing quote.
//
//sym:both len=2 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=30
//sym:both len=4 time=60
//sym:thorough len=5 time=200
//sym:thorough len=6 time=300
//sym:reach done
func C21_open() {
	v := sym.Str(sym.Param("len", 3))
	q := []string{"`", `"""`}[sym.Choose(2)]
	sym.Assume(!has(v, q))
	if q == `"""` {
		sym.Assume(v != "")
	}
	f, err := ini.Load([]byte("a=1\nk=" + q + v + []string{"", "\n", "\nb=2\n[s]\nc=3\n"}[sym.Choose(3)]))
	sym.Assert(err != nil && f == nil, "a value without closing quote is accepted")
	sym.Reach("done")
}

// C21_after has any text after a line break in the quoted value: what closes it and what follows the quote.
//
//sym:both len=2 time=15
//sym:both len=3 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=4 time=30
//sym:both len=5 time=60
//sym:thorough len=6 time=200
//sym:thorough len=7 time=300
//sym:reach read refused
func C21_after() {
	q := []string{"`", `"""`}[sym.Choose(2)]
	against(ini.LoadOptions{}, "k="+q+"x\n"+sym.StrIn(sym.Param("len", 4), "\"`\n#= a")+q+"\nb=2\n", true)
}

// C21_large has quoted values longer than the buffer of the reader.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:reach done
func C21_large() {
	q := []string{"`", `"""`}[sym.Choose(2)]
	v := sym.Str(sym.Param("len", 2))
	sym.Assume(!has(v, q))
	line := strings.Repeat("0123456789abcdef", 8)
	for i := 0; i < 40; i++ {
		v += line
		if i%3 > 0 {
			v += "\n"
		}
	}
	w := sym.Str(sym.Param("len", 2))
	sym.Assume(!has(w, q))
	v += w
	f, err := ini.Load([]byte("k=" + q + v + q + "\nb=2\n"))
	sym.Assert(err == nil, "load")
	sym.Assert(f.Section("").Key("k").Value() == v && f.Section("").Key("b").Value() == "2", "long quoted value")
	sym.Reach("done")
}

// C21_cont continues a value on the next lines.
//
//sym:both len=0 time=15
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:both len=3 time=60
//sym:thorough len=4 time=200
//sym:reach done
func C21_cont() {
	n := sym.Param("len", 2)
	a, b, c := sym.StrIn(n, "a\t =#\r"), sym.Str(n), sym.StrIn(n, "b ;=[")
	sym.Assume(!has(b, "\n"))
	sym.Assume(strings.TrimSpace(a) != "" || n == 0)
	sym.Assume(strings.TrimSpace(b) != "")
	sym.Assume(strings.TrimSpace(c) != "")
	sym.Assume(!strings.HasSuffix(strings.TrimSpace(b), `\`))
	third := sym.Choose(2) == 1
	text := "k=x" + a + "\\\n" + b
	want := "x" + a
	if third {
		text += "\\\n" + c
		want += trimLeft(b) + strings.TrimSpace(c)
	} else {
		want += strings.TrimSpace(b)
	}
	f, err := ini.Load([]byte(text + "\ny=1\n"))
	sym.Assert(err == nil, "load")
	sym.Assert(f.Section("").Key("k").Value() == want, "continued value")
	sym.Assert(f.Section("").Key("y").Value() == "1" && len(f.Section("").Keys()) == 2, "the key after it")
	sym.Reach("done")
}

// C21_continue loads any text after a line that continues, or does not with the option.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=15
//sym:both len=3 time=15
//sym:both len=4 time=30
//sym:both len=5 time=60
//sym:thorough len=6 time=200
//sym:thorough len=7 time=300
//sym:reach read refused
func C21_continue() {
	o := ini.LoadOptions{IgnoreContinuation: sym.Choose(2) == 1}
	against(o, []string{"k=a\\\n", "k=\\\n", "k=a\\"}[sym.Choose(3)]+sym.StrIn(sym.Param("len", 4), "\\\n= a\"[;")+[]string{"", "\nb=2\n"}[sym.Choose(2)], true)
}

// C21_python joins the indented lines to the value.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:both len=3 time=60
//sym:thorough len=4 time=300
//sym:reach done
func C21_python() {
	n := sym.Param("len", 2)
	a, b := sym.Str(n), sym.Str(n)
	sym.Assume(!has(a, "\n"))
	sym.Assume(!has(b, "\n"))
	i1, i2 := []string{" ", "\t", "    "}[sym.Choose(3)], []string{" ", "\t"}[sym.Choose(2)]
	first := []string{"v", ""}[sym.Choose(2)]
	f, err := ini.LoadSources(ini.LoadOptions{AllowPythonMultilineValues: true}, []byte("k="+first+"\n"+i1+a+"\n"+i2+b+"\nj=1\n[s]\nl=2\n"))
	sym.Assert(err == nil, "load")
	sym.Assert(f.Section("").Key("k").Value() == first+"\n"+i1+strings.TrimSuffix(a, "\r")+"\n"+i2+strings.TrimSuffix(b, "\r"), "joined value")
	sym.Assert(f.Section("").Key("j").Value() == "1" && f.Section("s").Key("l").Value() == "2" && len(f.Section("").Keys()) == 2, "the keys after it")
	sym.Reach("done")
}

// C21_pytext loads any text with python values allowed.
//
//sym:both len=2 time=15
//sym:both len=3 time=15
//sym:both len=4 time=15
//sym:both len=5 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=6 time=30
//sym:both len=7 time=60
//sym:thorough len=8 time=200
//sym:thorough len=9 time=300
//sym:reach read refused
func C21_pytext() {
	against(ini.LoadOptions{AllowPythonMultilineValues: true}, sym.StrIn(sym.Param("len", 6), "a=\n \t#\""), true)
}

// C21_options loads any value and the start of the next line with any of the options that concern values.
//
//sym:both len=0 time=7
//sym:both len=1 time=7
//sym:both len=2 time=7
//sym:both len=3 time=30
//sym:thorough len=4 time=200
//sym:thorough len=5 time=300
//sym:reach read refused
func C21_options() {
	o := ini.LoadOptions{
		IgnoreContinuation:          sym.Choose(2) == 1,
		IgnoreInlineComment:         sym.Choose(2) == 1,
		AllowPythonMultilineValues:  sym.Choose(2) == 1,
		PreserveSurroundedQuote:     sym.Choose(2) == 1,
		UnescapeValueDoubleQuotes:   sym.Choose(2) == 1,
		UnescapeValueCommentSymbols: sym.Choose(2) == 1,
	}
	if !o.IgnoreInlineComment {
		o.SpaceBeforeInlineComment = sym.Choose(2) == 1
	}
	against(o, "k="+sym.StrIn(sym.Param("len", 3), "\"'`\\\n #;a")+[]string{"\nb=1\n", "\"\n c=1\n", "`\n d=\"\"\"\n"}[sym.Choose(3)], true)
}

// C21_lines has values over several lines in documents with lines of every kind.
//
//sym:both n=3 time=60
//sym:thorough n=4 time=300
//sym:reach read refused
func C21_lines() {
	o := ini.LoadOptions{
		IgnoreContinuation:         sym.Bool(),
		AllowPythonMultilineValues: sym.Bool(),
		PreserveSurroundedQuote:    sym.Bool(),
		UnescapeValueDoubleQuotes:  sym.Bool(),
		IgnoreInlineComment:        sym.Bool(),
		SpaceBeforeInlineComment:   sym.Bool(),
	}
	text := lines(sym.Param("n", 3), "k=\"\"\"a", "b\"\"\" # c", "k=`a`", "k=`a", "k=a \\", " b = \\", "", "k=\"a", "k = 'b'", " c\"", "[s]", "k=a;x #b ;c #d ;e", "k=a#x ;b #c ;d # e", "k=?")
	against(o, text, true)
}

// C21_escapes has values with several escapes.
//
//sym:both n=4 time=60
//sym:thorough n=5 time=300
//sym:reach read
func C21_escapes() {
	v := ""
	for i := 0; i < sym.Param("n", 5); i++ {
		v += []string{`\"`, `\;`, `\#`, `\\`, sym.Str(1), " ;"}[sym.Choose(6)]
	}
	o := ini.LoadOptions{
		UnescapeValueDoubleQuotes:   sym.Bool(),
		UnescapeValueCommentSymbols: sym.Bool(),
		IgnoreInlineComment:         sym.Bool(),
	}
	against(o, "k = "+[]string{"", `"`}[sym.Choose(2)]+v+[]string{"", `"`}[sym.Choose(2)], true)
}

// C21_debug reads python values with a function that collects debug information.
//
//sym:both len=2 time=10
//sym:both len=3 time=20
//sym:thorough len=4 time=100
//sym:reach read refused
func C21_debug() {
	x := sym.StrIn(sym.Param("len", 3), "a=\n \t")
	text := []string{"k=", "k=\n ", "[s]\nk=a\n b\n"}[sym.Choose(3)] + x
	o := ini.LoadOptions{AllowPythonMultilineValues: true, AllowBooleanKeys: sym.Bool()}
	n := 0
	p := o
	p.DebugFunc = func(m string) {
		sym.Assert(m != "", "an empty message")
		n++
	}
	f, err := ini.LoadSources(o, []byte(text))
	g, err2 := ini.LoadSources(p, []byte(text))
	sym.Assert((err == nil) == (err2 == nil), "collecting debug information changes the outcome")
	if err != nil {
		sym.Assert(err.Error() == err2.Error(), "collecting debug information changes the error")
		sym.Reach("refused")
		return
	}
	sameData(dump(f), dump(g), "with debug information")
	sameComments(dump(f), dump(g), "with debug information")
	sym.Assert(string(written(f)) == string(written(g)), "collecting debug information changes what is written")
	if n > 0 {
		sym.Reach("read")
	}
}
