package harness

import (
	"strings"
	"unicode/utf8"

	"github.com/go-ini/ini"

	"verif/sym"
)

// anyDelims gives a set of delimiters and one of them.
func anyDelims() (set, one string) {
	set = []string{"|", " ", "\t=", ">:", "%", "/|", "→", "=é", "→|", "é→"}[sym.Choose(10)]
	all := []rune(set)
	return set, string(all[sym.Choose(len(all))])
}

// C30_read loads lines with other delimiters.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:both len=3 time=40
//sym:thorough len=4 time=200
//sym:thorough len=5 time=300
//sym:reach read refused
func C30_read() {
	set, one := anyDelims()
	x := sym.Str(sym.Param("len", 3))
	// a delimiter of several bytes is found where the text has that character
	sym.Assume(utf8.RuneCountInString(set) == len(set) || utf8.ValidString(x))
	text := []string{x, "k" + x + one + "v", "`k`" + x + one + " w", "k" + one + x, "[" + one + "]\n" + x + one, `"` + x + `" ` + one + "v"}[sym.Choose(6)]
	against(ini.LoadOptions{KeyValueDelimiters: set}, text+"\nb"+one+"1\n", true)
}

// C30_name writes a key of any name with one of the delimiters.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:both len=3 time=40
//sym:thorough len=4 time=200
//sym:reach back
func C30_name() {
	n := sym.Str(sym.Param("len", 3))
	sym.Assume(goodKeyName(n))
	delimited(n, []string{"v", "", "a=b"}[sym.Choose(3)])
}

// C30_value writes a key of any value with one of the delimiters.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:both len=3 time=40
//sym:thorough len=4 time=200
//sym:reach back
func C30_value() {
	v := sym.Str(sym.Param("len", 3))
	sym.Assume(!(has(v, "`") && has(v, `"""`)))
	delimited([]string{"key", "a|b", "x=é", "`"}[sym.Choose(4)], v)
}

func delimited(n, v string) {
	set, one := anyDelims()
	o := ini.LoadOptions{KeyValueDelimiters: set, KeyValueDelimiterOnWrite: one}
	f := ini.Empty(o)
	k := place(f, 1+sym.Choose(2), n, v)
	ini.PrettyFormat = sym.Choose(2) == 0
	defer func() { ini.PrettyFormat = true }()
	g := reload(f, o)
	sameData(dump(f), dump(g), "reloaded")
	sym.Assert(k.Value() == v, "the value")
	sym.Assert(strings.Contains(string(written(f)), one), "the delimiter")
	sym.Reach("back")
}
