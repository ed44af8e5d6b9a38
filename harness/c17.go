package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

func shadowOpts() ini.LoadOptions {
	return ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: sym.Choose(2) == 1}
}

// kept is what a key keeps of the values assigned to it, the first value aside.
func kept(o ini.LoadOptions, vals []string) []string {
	var all, r []string
	for _, v := range vals {
		seen := false
		for _, w := range all {
			seen = sym.Or(seen, v == w)
		}
		if o.AllowDuplicateShadowValues || !seen {
			all = append(all, v)
			if v != "" {
				r = append(r, v)
			}
		}
	}
	return r
}

func checkShadows(k *ini.Key, o ini.LoadOptions, vals []string, what string) {
	want := kept(o, vals)
	got := k.ValueWithShadows()
	sym.Assert(len(got) == len(want), what+": number of values")
	for i := range got {
		sym.Assert(got[i] == want[i], what+": value")
		sym.Observe(got[i])
	}
	sym.Assert(k.Value() == vals[0], what+": the plain value is not the first")
}

// C17_load loads a key assigned several times.
//
//sym:both len=0 n=2 time=7
//sym:both len=1 n=2 time=7
//sym:both len=0 n=3 time=7
//sym:both n=2 len=2 time=30
//sym:both n=3 len=1 time=30
//sym:thorough n=3 len=2 time=200
//sym:thorough n=5 len=1 time=200
//sym:reach done
func C17_load() {
	o := shadowOpts()
	n, l := sym.Param("n", 2), sym.Param("len", 2)
	text := "other=0\n"
	var vals []string
	for i := 0; i < n; i++ {
		v := sym.Str(sym.Choose(l + 1))
		for j := 0; j < len(v); j++ {
			sym.Assume(!isSpaceByte(v[j]) && !sym.IsIn(v[j], "\"'`\\#;") && v[j] < 128)
		}
		vals = append(vals, v)
		text += "k=" + v + "\n"
		if i == 0 {
			text += "x=1\n"
		}
	}
	text += "[s]\nk=y\n"
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	checkShadows(f.Section("").Key("k"), o, vals, "loaded")
	sym.Assert(eqStrs(f.Section("").KeyStrings(), []string{"other", "k", "x"}), "keys")
	sym.Assert(eqStrs(f.Section("s").Key("k").ValueWithShadows(), []string{"y"}), "shadows in another section")
	g := reload(f, o)
	w := kept(o, vals)
	sym.Assert(eqStrs(g.Section("").Key("k").ValueWithShadows(), w), "reloaded")
	sym.Reach("done")
}

// C17_text loads any text with shadows.
//
//sym:both len=2 time=7
//sym:both len=3 time=7
//sym:both len=4 time=7
//sym:both len=5 time=7
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=6 time=30
//sym:thorough len=8 time=200
//sym:thorough len=9 time=300
//sym:reach read refused
func C17_text() {
	o := shadowOpts()
	f := against(o, "a=1\n"+sym.StrIn(sym.Param("len", 6), "ab=1\n[] "), true)
	g := reload(f, o)
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			sym.Assume(k.Name() != "-")
			sym.Assert(eqStrs(g.Section(s.Name()).Key(k.Name()).ValueWithShadows(), k.ValueWithShadows()), "reloaded")
		}
	}
}

// C17_api adds shadows through the API, in every way.
//
//sym:both len=0 ops=3 time=15
//sym:both ops=3 len=1 time=60
//sym:thorough ops=4 len=1 time=200
//sym:thorough ops=3 len=2 time=200
//sym:reach done
func C17_api() {
	o := shadowOpts()
	f := ini.Empty(o)
	s := f.Section("s")
	s.NewKey("before", "0")
	l := sym.Param("len", 1)
	var vals []string
	for i := 0; i < sym.Param("ops", 3); i++ {
		v := sym.Str(l)
		sym.Assume(!(has(v, "`") && has(v, `"`)))
		if len(vals) == 0 || sym.Choose(2) == 0 {
			k, err := s.NewKey("k", v)
			sym.Assert(err == nil && k == s.Key("k"), "NewKey")
		} else {
			sym.Assert(s.Key("k").AddShadow(v) == nil, "AddShadow")
		}
		vals = append(vals, v)
	}
	s.NewKey("after", "0")
	checkShadows(s.Key("k"), o, vals, "added")
	sym.Assert(s.KeysHash()["k"] == vals[0], "KeysHash")
	sym.Assert(eqStrs(s.KeyStrings(), []string{"before", "k", "after"}), "keys")
	g := reload(f, o)
	sym.Assert(eqStrs(g.Section("s").Key("k").ValueWithShadows(), kept(o, vals)), "reloaded")
	sym.Assert(eqStrs(g.Section("s").KeyStrings(), []string{"before", "k", "after"}), "keys reloaded")
	s.DeleteKey("k")
	s.NewKey("k", "new")
	checkShadows(s.Key("k"), o, []string{"new"}, "made again")
	sym.Reach("done")
}

// C17_off has no shadows to add.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:thorough len=4 time=60
//sym:reach done
func C17_off() {
	a, b := sym.Str(sym.Param("len", 2)), sym.Str(sym.Param("len", 2))
	o := ini.LoadOptions{AllowDuplicateShadowValues: sym.Choose(2) == 1}
	f := ini.Empty(o)
	k, _ := f.Section("s").NewKey("k", a)
	sym.Assert(k.AddShadow(b) != nil, "a shadow without the option")
	sym.Assert(k.Value() == a, "a refused shadow changes the value")
	only := func(v string) bool {
		all := k.ValueWithShadows()
		return v == "" && len(all) == 0 || v != "" && len(all) == 1 && all[0] == v
	}
	sym.Assert(only(a), "a refused shadow is kept")
	f.Section("s").NewKey("k", b)
	sym.Assert(k.Value() == b && only(b), "assigning again keeps the old value")
	sym.Reach("done")
}

// C17_special has keys that can take no shadow, and shadows of shadows.
//
//sym:both time=20
//sym:reach done
func C17_special() {
	o := ini.LoadOptions{AllowShadows: true, AllowBooleanKeys: true}
	v := sym.Str(1)
	f, err := ini.LoadSources(o, []byte("b\n-=1\nc=1\n"))
	sym.Assert(err == nil, "load")
	for _, n := range []string{"b", "#1"} {
		k := f.Section("").Key(n)
		old := k.Value()
		sym.Assert(k.AddShadow(v) != nil, "a shadow of a boolean or auto-increment key")
		sym.Assert(k.Value() == old && len(k.ValueWithShadows()) == 1, "a refused shadow is kept")
	}
	_, err = ini.LoadSources(o, []byte("b\nb="+[]string{"x", "true", ""}[sym.Choose(3)]+"\n"))
	sym.Assert(err != nil, "a boolean key takes a shadow when loading")
	sym.Reach("done")
}

// C17_split splits all the values.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:thorough len=4 time=100
//sym:reach done
func C17_split() {
	n := sym.Param("len", 2)
	o := ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: true}
	f := ini.Empty(o)
	var want []string
	var k *ini.Key
	for i := 0; i < 2; i++ {
		v := sym.StrIn(n, ",a \tb")
		k, _ = f.Section("s").NewKey("k", v)
		if v != "" {
			for _, p := range strings.Split(v, ",") {
				want = append(want, strings.TrimSpace(p))
			}
		}
	}
	sym.Assert(eqStrs(k.StringsWithShadows(","), want), "StringsWithShadows")
	f.ValueMapper = func(s string) string { return "<" + s + ">" }
	for i := range want {
		want[i] = "<" + want[i] + ">"
	}
	sym.Assert(eqStrs(k.StringsWithShadows(","), want), "StringsWithShadows does not map the values")
	sym.Reach("done")
}

// C17_fold has names that differ in case only.
//
//sym:both time=20
//sym:reach done
func C17_fold() {
	o := ini.LoadOptions{AllowShadows: true, InsensitiveKeys: sym.Choose(2) == 1}
	a, b := sym.StrIn(1, "kK"), sym.StrIn(1, "kK")
	f, err := ini.LoadSources(o, []byte(a+"=1\n"+b+"=2\n"))
	sym.Assert(err == nil, "load")
	if a == b || o.InsensitiveKeys {
		sym.Assert(eqStrs(f.Section("").Key(a).ValueWithShadows(), []string{"1", "2"}), "values of one key")
	} else {
		sym.Assert(eqStrs(f.Section("").Key(a).ValueWithShadows(), []string{"1"}), "values of the first key")
		sym.Assert(eqStrs(f.Section("").Key(b).ValueWithShadows(), []string{"2"}), "values of the second key")
	}
	sym.Reach("done")
}

// C17_lines assigns keys several times in documents with lines of every kind.
//
//sym:quick n=3 time=60
//sym:thorough n=4 time=400
//sym:reach read refused
func C17_lines() {
	o := ini.LoadOptions{
		AllowShadows:               true,
		AllowDuplicateShadowValues: sym.Bool(),
		InsensitiveKeys:            sym.Bool(),
		AllowNonUniqueSections:     sym.Bool(),
	}
	text := lines(sym.Param("n", 3), "k=a", "k=", "k = ?", "K=B", "k=a;c", "[s]", "j=a", "k=`c", "c` #d", "k=c\\")
	f := against(o, text, true)
	again(f, o)
}

// C17_twins looks at shadows of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C17_twins() {
	twins(ini.LoadOptions{UnparseableSections: []string{"raw"}, AllowShadows: true}, "1,", seeShadows)
}

// C17_near adds values that may be alike but for a byte more, or less, or another.
//
//sym:both n=2 len=2 time=20
//sym:thorough n=3 len=2 time=100
//sym:thorough n=2 len=4 time=100
//sym:reach done
func C17_near() {
	o := shadowOpts()
	f := ini.Empty(o)
	s := f.Section("s")
	l := sym.Param("len", 2)
	var vals []string
	for i := 0; i < sym.Param("n", 2); i++ {
		v := sym.Str(sym.Choose(l + 1))
		if sym.Choose(2) == 0 {
			_, err := s.NewKey("k", v)
			sym.Assert(err == nil, "NewKey")
		} else {
			sym.Assert(s.Key("k").AddShadow(v) == nil, "AddShadow")
			if i == 0 {
				vals = append(vals, "")
			}
		}
		vals = append(vals, v)
	}
	checkShadows(s.Key("k"), o, vals, "added")
	sym.Reach("done")
}
