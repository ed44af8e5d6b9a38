package harness

import (
	"github.com/go-ini/ini"

	"verif/sym"
)

// place puts key k with value v into a file in one of several positions.
func place(f *ini.File, at int, k, v string) *ini.Key {
	var key *ini.Key
	switch at {
	case 0:
		key, _ = f.Section("").NewKey(k, v)
	case 1:
		f.Section("").NewKey("first", "1")
		key, _ = f.Section("").NewKey(k, v)
		f.Section("").NewKey("last", "2")
		f.Section("s").NewKey("x", "3")
	case 2:
		f.Section("s").NewKey("first", "")
		key, _ = f.Section("s").NewKey(k, v)
		f.Section("t").NewKey("x", "y")
	case 3:
		f.Section("").NewKey("first", "a b")
		key, _ = f.Section("s").NewKey(k, "")
		key.SetValue(v)
	}
	return key
}

// C03_value writes any value and reads it back.
//
//sym:both len=2 time=10
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=10
//sym:both len=4 time=40
//sym:thorough len=5 time=100
//sym:thorough len=6 time=400
//sym:reach back
func C03_value() {
	v := sym.Str(sym.Param("len", 3))
	sym.Assume(!(has(v, "`") && has(v, `"""`)))
	f := ini.Empty()
	k := place(f, sym.Choose(4), "key", v)
	g := reload(f, ini.LoadOptions{})
	sym.Assert(k.Value() == v, "writing changes the value")
	sameData(dump(f), dump(g), "value reloaded")
	sym.Reach("back")
}

// C03_long has the arbitrary part at the end of a long value.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=10
//sym:thorough len=3 time=60
//sym:reach back
func C03_long() {
	fill := make([]byte, 4080+sym.Choose(9)*2)
	for i := range fill {
		fill[i] = 'a'
	}
	if sym.Bool() {
		fill[0] = ' '
	}
	if sym.Bool() {
		fill[0] = '"'
	}
	v := string(fill) + sym.Str(sym.Param("len", 2))
	sym.Assume(!(has(v, "`") && has(v, `"""`)))
	f := ini.Empty()
	place(f, 1, "key", v)
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "value reloaded")
	sym.Reach("back")
}

// C03_edges surrounds an arbitrary text with the characters that quoting is about.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach back
func C03_edges() {
	l := sym.StrIn(2, "\"'`\\ \n#=ab")
	r := sym.StrIn(2, "\"'`\\ \n;=ab")
	v := l + sym.Str(sym.Param("len", 2)) + r
	sym.Assume(!(has(v, "`") && has(v, `"""`)))
	f := ini.Empty()
	place(f, 1+sym.Choose(2), "key", v)
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "value reloaded")
	sym.Reach("back")
}

// C03_chain reads any value of a document, writes it and reads it again.
//
//sym:both len=2 time=7
//sym:both len=3 time=7
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=4 time=30
//sym:thorough len=5 time=100
//sym:reach back
func C03_chain() {
	text := "a=" + sym.Str(sym.Param("len", 4)) + "\nb=c\n"
	f, err := ini.Load([]byte(text))
	if err != nil {
		sym.Stop()
	}
	for _, s := range f.Sections() {
		sym.Assume(!has(s.Name(), "\n"))
		for _, k := range s.Keys() {
			sym.Assume(!(has(k.Value(), "`") && has(k.Value(), `"""`)))
			sym.Assume(goodKeyName(k.Name()))
		}
	}
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "value reloaded")
	sym.Reach("back")
}
