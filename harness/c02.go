package harness

import (
	"github.com/go-ini/ini"

	"verif/sym"
)

// C02_doc reads arbitrary bytes.
//
//sym:both len=2 time=5
//sym:both len=3 time=5
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=4 time=4
//sym:both len=5 time=20
//sym:thorough len=6 time=60
//sym:thorough len=7 time=200
//sym:reach read refused
func C02_doc() {
	against(ini.LoadOptions{}, sym.Str(sym.Param("len", 4)), false)
}

// C02_line reads a document whose middle is arbitrary.
//
//sym:both len=2 time=5
//sym:both len=3 time=5
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=4 time=20
//sym:thorough len=5 time=40
//sym:thorough len=6 time=200
//sym:reach read refused
func C02_line() {
	t := [][2]string{{"[s]\na = ", "\nb = 1\n"}, {"a=", ""}, {"", "=v\na = w"}, {"a=1\n[", "\na=2"}, {"\"a", " = b\n"}, {"x=y\n", "\nx : z # c\n"}}[sym.Choose(6)]
	against(ini.LoadOptions{}, t[0]+sym.Str(sym.Param("len", 4))+t[1], false)
}

// C02_lines reads documents of several lines of every plain kind.
//
//sym:quick n=3 time=60
//sym:thorough n=4 time=400
//sym:reach read refused
func C02_lines() {
	text := lines(sym.Param("n", 3), "k=?", "?v = w", "[?]", " K : 'a' ; c", "k=#c", " [s.t] # x]", "[s[0]]", "; k=c", "`a=b` = \"x\" \"y\"", "k=", "[]", "\"k\" = \"", "bare", "")
	against(ini.LoadOptions{}, text, true)
}

// C02_after reads a document after another one was loaded with the same options, whether it could be read or not.
//
//sym:both n=2 time=60
//sym:thorough n=3 time=200
//sym:reach read refused
func C02_after() {
	n := sym.Param("n", 2)
	o := ini.LoadOptions{}
	first := lines(n, "# left ?", "flag", "k=`a", "[s] ; more", "[open", "k=1 ; end", "j=a \\", "=")
	second := lines(n, "k=?", "[s]", "?", "`k`=1", "j : 'x'")
	g, err := ini.LoadSources(o, []byte(first))
	sym.Assert((g == nil) == (err != nil), "a file or an error")
	against(o, second, false)
}
