package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// goodKeyName tells whether the format can hold the key name.
func goodKeyName(n string) bool {
	if n == "" || n == "-" || strings.TrimSpace(n) != n || has(n, "\n") {
		return false
	}
	for _, bom := range []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe"} {
		if strings.HasPrefix(n, bom) {
			return false
		}
	}
	return !(has(n, "`") && has(n, `"`))
}

// C04_key writes a key of any name.
//
//sym:both len=0 time=10
//sym:both len=2 time=10
//sym:both len=1 time=5
//sym:both len=3 time=10
//sym:both len=4 time=40
//sym:thorough len=5 time=200
//sym:reach back
func C04_key() {
	n := sym.Str(sym.Param("len", 3))
	sym.Assume(goodKeyName(n))
	f := ini.Empty()
	place(f, sym.Choose(4), n, []string{"v", ""}[sym.Choose(2)])
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "names reloaded")
	sym.Reach("back")
}

// C04_section writes a section of any name.
//
//sym:both len=0 time=10
//sym:both len=2 time=10
//sym:both len=4 time=10
//sym:both len=5 time=10
//sym:both len=6 time=10
//sym:both len=3 time=10
//sym:both len=1 time=10
//sym:both len=7 time=40
//sym:thorough len=9 time=100
//sym:reach back
func C04_section() {
	n := sym.Str(sym.Param("len", 3))
	sym.Assume(!has(n, "\n"))
	f := ini.Empty()
	switch sym.Choose(3) {
	case 0:
		f.NewSection(n)
	case 1:
		f.Section("").NewKey("a", "1")
		f.NewSection("p")
		f.Section(n).NewKey("k", "v")
		f.Section("q").NewKey("k", "w")
	case 2:
		f.Section(n).NewKey("k", "")
		f.Section("q").NewKey("k", "w")
		f.Section(n).NewKey("l", "x")
	}
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "names reloaded")
	sym.Reach("back")
}

// C04_layout writes several sections and keys with short names of any kind, distinct or not, in any order.
//
//sym:both ops=2 time=30
//sym:both ops=3 few=1 time=60
//sym:thorough ops=3 time=400
//sym:thorough ops=4 few=1 time=400
//sym:reach back
func C04_layout() {
	name := sym.Str
	if sym.Param("few", 0) == 1 {
		name = func(n int) string { return sym.StrIn(n, "a.=#") }
	}
	f := ini.Empty()
	for i := 0; i < sym.Param("ops", 3); i++ {
		sn := name(sym.Choose(2))
		sym.Assume(!has(sn, "\n"))
		s := f.Section(sn)
		if sym.Choose(3) > 0 {
			kn := name(1 + sym.Choose(2))
			sym.Assume(goodKeyName(kn))
			s.NewKey(kn, "v")
		}
	}
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "names reloaded")
	sym.Reach("back")
}
