package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// reference finds the first %(name)s.
func reference(v string) (at int, name string, ok bool) {
	for i := 0; i+4 < len(v); i++ {
		if v[i] != '%' || v[i+1] != '(' {
			continue
		}
		j := strings.IndexByte(v[i+2:], ')')
		if j < 1 || i+2+j+1 >= len(v) || v[i+2+j+1] != 's' {
			continue
		}
		return i, v[i+2 : i+2+j], true
	}
	return 0, "", false
}

// expand is the documented expansion of a value; own and def look a name up in the section of the key and in
// the default section. It returns ok false when the text grows without bound.
func expand(v string, own, def func(string) *ini.Key, self *ini.Key) (string, bool) {
	for round := 0; round < 99; round++ {
		_, name, ok := reference(v)
		if !ok {
			break
		}
		k := own(name)
		if k == nil || k == self {
			k = def(name)
		}
		if k == nil {
			break
		}
		v = strings.ReplaceAll(v, "%("+name+")s", k.Value())
		if len(v) > 250 {
			return "", false
		}
	}
	return v, true
}

func lookIn(keys []*ini.Key) func(string) *ini.Key {
	return func(n string) *ini.Key {
		for _, k := range keys {
			if k.Name() == n {
				return k
			}
		}
		return nil
	}
}

func checkExpand(f *ini.File, s *ini.Section, k *ini.Key) {
	own := append(s.Keys(), s.ParentKeys()...)
	def := f.Section("").Keys()
	want, ok := expand(k.Value(), lookIn(own), lookIn(def), k)
	sym.Known("cyclic-growth", !ok)
	raw := k.Value()
	before := dump(f)
	sym.Assert(k.String() == want, "expansion")
	sym.Assert(k.String() == want, "the second expansion differs")
	sym.Assert(k.Value() == raw, "reading changes the raw value")
	sameData(before, dump(f), "reading values")
	sym.Reach("read")
}

// C13_refs reads keys whose values refer to each other in any way.
//
//sym:both parts=2 time=60
//sym:thorough parts=3 time=300
//sym:reach read
func C13_refs() {
	f := ini.Empty()
	s := f.Section("s")
	value := func(n int) string {
		v := ""
		for i := 0; i < n; i++ {
			switch sym.Choose(3) {
			case 1:
				v += sym.Str(1)
			case 2:
				v += "%(" + sym.StrIn(1, "abkz") + ")s"
			}
		}
		return v
	}
	n := sym.Param("parts", 2)
	k, _ := s.NewKey("k", value(n))
	s.NewKey("a", value(1))
	f.Section("").NewKey("b", value(n-1))
	switch sym.Choose(3) {
	case 1:
		f.Section("").NewKey("k", "d"+value(1))
	case 2:
		f.Section("").NewKey("a", "d"+value(1))
	}
	checkExpand(f, s, k)
}

// C13_text reads any short value.
//
//sym:both len=2 time=15
//sym:both len=3 time=15
//sym:both len=4 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=5 time=60
//sym:both len=6 time=60
//sym:thorough len=7 time=300
//sym:reach read
func C13_text() {
	f := ini.Empty()
	f.Section("").NewKey("b", "2")
	s := f.Section("s")
	s.NewKey("a", "1")
	k, _ := s.NewKey("k", sym.Str(sym.Param("len", 5)))
	checkExpand(f, s, k)
}

// C13_near puts arbitrary text around references.
//
//sym:both len=0 time=15
//sym:both len=1 time=60
//sym:thorough len=2 time=300
//sym:reach read
func C13_near() {
	n := sym.Param("len", 1)
	f := ini.Empty()
	f.Section("").NewKey("b", "2%")
	s := f.Section("s")
	s.NewKey("a", "x"+sym.Str(1)+"%(b)s")
	v := ""
	switch sym.Choose(4) {
	case 0:
		v = sym.Str(n) + "%(a)s" + sym.Str(n) + "%(b)s" + sym.Str(n)
	case 1:
		v = "%(" + sym.Str(n) + "a" + sym.Str(n) + ")s"
	case 2:
		v = "%%(a" + sym.Str(n) + "s)s%(b)" + sym.Str(n)
	case 3:
		v = "%(a)" + sym.Str(n) + "%(a)s%(a)s%(z)s" + sym.Str(n)
	}
	k, _ := s.NewKey("k", v)
	checkExpand(f, s, k)
}

// C13_parents finds references in parent sections and in the default section, in that order.
//
//sym:both time=60
//sym:reach read
func C13_parents() {
	f := ini.Empty()
	for _, n := range []string{"", "p", "p.q"} {
		if sym.Choose(2) == 1 {
			f.Section(n).NewKey("a", n+"!"+sym.Str(1))
		}
		if sym.Choose(2) == 1 {
			f.Section(n).NewKey("k", n+"?%(a)s")
		}
	}
	s := f.Section("p.q")
	k, err := s.GetKey("k")
	if err != nil {
		k, _ = s.NewKey("k", "%(k)s%(a)s")
	}
	// The key may be an inherited one: it is read where it lives.
	home := s
	for _, n := range []string{"p.q", "p", ""} {
		for _, x := range f.Section(n).Keys() {
			if x == k {
				home = f.Section(n)
			}
		}
	}
	checkExpand(f, home, k)
}

// C13_mapper applies the value mapper of the file before references are expanded.
//
//sym:both time=30
//sym:reach read
func C13_mapper() {
	f := ini.Empty()
	s := f.Section("s")
	s.NewKey("a", "1")
	v := sym.Str(2)
	k, _ := s.NewKey("k", v)
	seen := ""
	f.ValueMapper = func(x string) string { seen = x; return "%(a)s" + x }
	out := k.String()
	sym.Assert(seen == v, "the mapper does not see the raw value")
	want, ok := expand("%(a)s"+v, lookIn(s.Keys()), lookIn(nil), k)
	sym.Assert(ok && out == want, "expansion of a mapped value")
	sym.Assert(k.Value() == v, "reading changes the raw value")
	f.ValueMapper = nil
	want, ok = expand(v, lookIn(s.Keys()), lookIn(nil), k)
	sym.Assert(ok && k.String() == want, "expansion without a mapper")
	sym.Reach("read")
}

// C13_cycle follows a cycle of single references of any length: reading it ends.
//
//sym:both time=30
//sym:reach read
func C13_cycle() {
	f := ini.Empty()
	s := f.Section("s")
	n := 1 + sym.Choose(4)
	for i := 0; i < n; i++ {
		s.NewKey(string(rune('a'+i)), sym.Str(sym.Choose(2))+"%("+string(rune('a'+(i+1)%n))+")s")
	}
	f.Section("").NewKey("a", "end")
	checkExpand(f, s, s.Key("a"))
}

// C13_missing reads when there is no default section.
//
//sym:both time=30
//sym:reach read
func C13_missing() {
	f := ini.Empty()
	s := f.Section("s")
	f.DeleteSection("")
	v := "x%(" + sym.StrIn(1, "akz") + ")s"
	k, _ := s.NewKey("k", v)
	s.NewKey("a", "1")
	want, _ := expand(v, lookIn(s.Keys()), lookIn(nil), k)
	sym.Assert(k.String() == want, "expansion")
	sym.Assert(len(f.Sections()) == 1, "reading creates a section")
	sym.Reach("read")
}

// C13_twins looks at expanded values of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C13_twins() { twins(twinRaw, "01", seeStrings) }
