package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// underscored puts an underscore before every ASCII capital but a leading one.
func underscored(name string) string {
	r := ""
	for i := 0; i < len(name); i++ {
		if i > 0 && sym.And(name[i] >= 'A', name[i] <= 'Z') {
			r += "_"
		}
		r += name[i : i+1]
	}
	return r
}

// lower and upper fold ASCII letters.
func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = sym.Ite(sym.And(c >= 'A', c <= 'Z'), c|0x20, c)
	}
	return string(b)
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = sym.Ite(sym.And(c >= 'a', c <= 'z'), c&^0x20, c)
	}
	return string(b)
}

func ascii(n int) string {
	s := sym.Str(n)
	ok := true
	for i := 0; i < n; i++ {
		ok = sym.And(ok, s[i] < 0x80)
	}
	sym.Assume(ok)
	return s
}

// C27_ascii maps any ASCII name.
//
//sym:both len=2 time=5
//sym:both len=3 time=5
//sym:both len=4 time=5
//sym:both len=6 time=5
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=5 time=20
//sym:both len=7 time=20
//sym:thorough len=10 time=200
//sym:reach done
func C27_ascii() {
	n := ascii(sym.Param("len", 4))
	want := underscored(n)
	sym.Assert(ini.SnackCase(n) == asciiUpper(want), "SnackCase")
	sym.Assert(ini.TitleUnderscore(n) == asciiLower(want), "TitleUnderscore")
	sym.Reach("done")
}

// C27_unicode has a character that is not ASCII among the others.
//
//sym:both len=0 size=2 time=7
//sym:both len=0 size=3 time=7
//sym:both len=1 size=2 time=30
//sym:both len=1 size=3 time=30
//sym:thorough len=2 size=2 time=200
//sym:thorough len=2 size=3 time=200
//sym:reach done
func C27_unicode() {
	var c string
	if sym.Param("size", 2) == 2 {
		b := sym.Bytes(2)
		sym.Assume(sym.And(b[0] >= 0xc2, b[0] <= 0xdf, b[1] >= 0x80, b[1] <= 0xbf))
		c = string(b)
	} else {
		b := sym.Bytes(3)
		sym.Assume(sym.And(b[0] >= 0xe1, b[0] <= 0xec, b[1] >= 0x80, b[1] <= 0xbf, b[2] >= 0x80, b[2] <= 0xbf))
		c = string(b)
	}
	a, b := ascii(sym.Param("len", 1)), ascii(sym.Param("len", 1))
	sym.Assert(ini.TitleUnderscore(a+c+b) == asciiLower(underscored(a+c+b)), "TitleUnderscore")
	big := []string{"Ä", "Σ", "Ж", "ß", "ÿ", "世", "ǆ", "é"}
	up := []string{"Ä", "Σ", "Ж", "ß", "Ÿ", "世", "Ǆ", "É"}
	i := sym.Choose(len(big))
	sym.Assert(ini.SnackCase(a+big[i]+b) == strings.ReplaceAll(asciiUpper(underscored(a+"\x00"+b)), "\x00", up[i]) || has(a+b, "\x00"), "SnackCase")
	sym.Reach("done")
}

// C27_used maps and reflects structs with the mappers.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:reach done
func C27_used() {
	type inner struct {
		HTTPPort string
		Tagged   string `ini:"MyTag"`
	}
	type outer struct {
		FirstName string
		X         string
		SubPart   inner
		Other     inner `ini:"Else"`
		AList     []string
	}
	which := sym.Choose(3)
	m := []ini.NameMapper{ini.SnackCase, ini.TitleUnderscore, nil}[which]
	n := [][]string{
		{"FIRST_NAME", "X", "SUB_PART", "H_T_T_P_PORT", "A_LIST"},
		{"first_name", "x", "sub_part", "h_t_t_p_port", "a_list"},
		{"FirstName", "X", "SubPart", "HTTPPort", "AList"},
	}[which]
	v := sym.StrIn(sym.Param("len", 2), "abc")
	text := n[0] + "=" + v + "\n" + n[1] + "=x\n" + n[4] + "=1,2\n[" + n[2] + "]\n" + n[3] + "=p" + v + "\nMyTag=t" + v + "\n[Else]\n" + n[3] + "=q\n"
	var o outer
	switch sym.Choose(3) {
	case 0:
		if which < 2 {
			sym.Assert(ini.StrictMapToWithMapper(&o, m, []byte(text)) == nil, "map")
		} else {
			sym.Assert(ini.StrictMapTo(&o, []byte(text)) == nil, "map")
		}
	case 1:
		if which < 2 {
			sym.Assert(ini.MapToWithMapper(&o, m, []byte(text)) == nil, "map")
		} else {
			sym.Assert(ini.MapTo(&o, []byte(text)) == nil, "map")
		}
	default:
		f, err := ini.Load([]byte(text))
		sym.Assert(err == nil, "load")
		f.NameMapper = m
		sym.Assert(f.StrictMapTo(&o) == nil, "map")
	}
	sym.Assert(o.FirstName == v && o.X == "x" && o.SubPart.HTTPPort == "p"+v && o.SubPart.Tagged == "t"+v && o.Other.HTTPPort == "q" && eqStrs(o.AList, []string{"1", "2"}), "fields by mapped name")
	f := ini.Empty()
	if which < 2 {
		sym.Assert(ini.ReflectFromWithMapper(f, &o, m) == nil, "reflect")
	} else {
		sym.Assert(ini.ReflectFrom(f, &o) == nil, "reflect")
	}
	sym.Assert(eqStrs(f.SectionStrings(), []string{"DEFAULT", n[2], "Else"}), "sections by mapped name")
	sym.Assert(eqStrs(f.Section("").KeyStrings(), []string{n[0], n[1], n[4]}), "keys by mapped name")
	sym.Assert(eqStrs(f.Section(n[2]).KeyStrings(), []string{n[3], "MyTag"}), "keys of the section by mapped name")
	sym.Assert(f.Section("").Key(n[0]).Value() == v && f.Section(n[2]).Key(n[3]).Value() == "p"+v && f.Section("Else").Key(n[3]).Value() == "q", "values")
	sym.Reach("done")
}

// C27_value maps values when they are read as strings.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:thorough len=4 time=60
//sym:reach done
func C27_value() {
	v := sym.StrIn(sym.Param("len", 2), "ab, 1")
	f := ini.Empty()
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	k, err := s.NewKey("k", v)
	sym.Assert(err == nil, "NewKey")
	f.ValueMapper = func(x string) string { return "<" + x + ">" }
	sym.Assert(k.String() == "<"+v+">" && k.MustString("d") == "<"+v+">", "String")
	sym.Assert(k.Value() == v && s.KeysHash()["k"] == v, "the raw value")
	type cfg struct {
		K string `ini:"k"`
	}
	var c cfg
	sym.Assert(s.MapTo(&c) == nil && c.K == "<"+v+">", "field")
	sym.Assert(string(written(f)) != "" && k.Value() == v, "written raw")
	sym.Assert(reload(f, ini.LoadOptions{}).Section(s.Name()).Key("k").Value() == v, "reloaded raw")
	sym.Reach("done")
}

// C27_twins looks at what the ValueMapper gives of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C27_twins() { twins(twinRaw, "1", seeStrings) }

// C27_several uses mappers made by the same function, one after the other, for the same type.
//
//sym:both time=20
//sym:reach done
func C27_several() {
	type cfg struct {
		K   string
		T   string `ini:"tagged"`
		Sub struct{ L string }
	}
	with := func(p string) ini.NameMapper { return func(n string) string { return p + n } }
	ps := []string{"a", "b", sym.StrIn(1, "abxy")}
	f := ini.Empty()
	for _, p := range []string{"a", "b", "x"} {
		f.Section("").NewKey(p+"K", p)
		f.Section(p+"Sub").NewKey(p+"L", p)
	}
	f.Section("").NewKey("tagged", "t")
	for i := 0; i < 3; i++ {
		p := ps[sym.Choose(3)]
		var c cfg
		switch sym.Choose(3) {
		case 0:
			f.NameMapper = with(p)
			sym.Assert(f.MapTo(&c) == nil, "MapTo")
		case 1:
			sym.Assert(ini.MapToWithMapper(&c, with(p), written(f)) == nil, "MapToWithMapper")
		case 2:
			g := ini.Empty()
			g.NameMapper = with(p)
			c = cfg{K: "k", T: "t"}
			c.Sub.L = "l"
			sym.Assert(g.ReflectFrom(&c) == nil, "ReflectFrom")
			sym.Assert(eqStrs(g.Section("").KeyStrings(), []string{p + "K", "tagged"}) && g.HasSection(p+"Sub") && g.Section(p+"Sub").HasKey(p+"L"), "names reflected")
			continue
		}
		want := p
		if p == "y" {
			want = ""
		}
		sym.Assert(c.K == want && c.Sub.L == want && c.T == "t", "the names of this mapper")
	}
	sym.Reach("done")
}
