package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// C20_bool loads any line with boolean keys allowed and writes it back.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=15
//sym:both len=3 time=30
//sym:both len=4 time=60
//sym:thorough len=5 time=300
//sym:reach read refused bool
func C20_bool() {
	o := ini.LoadOptions{AllowBooleanKeys: true}
	f := against(o, []string{"", "a=1\n", "[s]\n"}[sym.Choose(3)]+sym.Str(sym.Param("len", 3))+[]string{"", "\nb\n[t]\nc=2\n"}[sym.Choose(2)], true)
	for _, s := range f.Sections() {
		sym.Assume(!has(s.Name(), "\n"))
		for _, k := range s.Keys() {
			sym.Assume(goodKeyName(k.Name()))
			sym.Assume(!(has(k.Value(), "`") && has(k.Value(), `"""`)))
		}
	}
	b := string(written(f))
	g := reload(f, o)
	sameData(dump(f), dump(g), "reloaded")
	c := string(written(g))
	sym.Assert(b == c, "written in another way after a reload")
	if len(f.Section("t").Keys()) == 1 && f.Section("t").Key("c").Value() == "2" {
		sym.Reach("bool")
	}
}

// C20_name writes boolean keys of any name without a value.
//
//sym:both len=0 time=15
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:both len=3 time=60
//sym:thorough len=4 time=300
//sym:reach done
func C20_name() {
	o := ini.LoadOptions{AllowBooleanKeys: true}
	n := sym.Str(sym.Param("len", 2))
	sym.Assume(goodKeyName(n))
	f := ini.Empty(o)
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	s.NewKey("first", "1")
	k, err := s.NewBooleanKey(n)
	sym.Assert(err == nil && k.Value() == "true" && k.Name() == n, "NewBooleanKey")
	sym.Assert(k.MustBool(), "a boolean key is not true")
	s.NewKey("last", "")
	g := reload(f, o)
	sameData(dump(f), dump(g), "reloaded")
	text := string(written(f))
	delims := false
	for i := 0; i < len(n); i++ {
		delims = sym.Or(delims, n[i] == '=' || n[i] == ':')
	}
	if !delims {
		sym.Assert(strings.Count(text, "=") == 2, "a boolean key is written with a value")
	}
	// giving it another value makes it a plain key
	v := sym.StrIn(2, "truefals ")
	k.SetValue(v)
	sym.Assert(k.Value() == v, "SetValue")
	g = reload(f, o)
	sameData(dump(f), dump(g), "reloaded with another value")
	sym.Reach("done")
}

// C20_boolread finds that a line without delimiter is a key of value true.
//
//sym:both len=2 time=5
//sym:both len=1 time=5
//sym:both len=3 time=20
//sym:thorough len=6 time=100
//sym:reach done
func C20_boolread() {
	n := sym.Str(sym.Param("len", 3))
	for i := 0; i < len(n); i++ {
		sym.Assume(!isSpaceByte(n[i]) && n[i] < 128 && !sym.IsIn(n[i], "=:#;[]\"'`\\"))
	}
	text := "[s]\nx=1\n" + n + "\ny=2\n"
	f, err := ini.LoadSources(ini.LoadOptions{AllowBooleanKeys: true}, []byte(text))
	sym.Assert(err == nil, "a boolean key is refused")
	want := []kv{{"x", "1", ""}, {n, "true", ""}, {"y", "2", ""}}
	if n == "x" || n == "y" {
		sym.Stop()
	}
	d := dump(f)[1].keys
	sym.Assert(len(d) == 3 && d[0] == want[0] && d[1] == want[1] && d[2] == want[2], "keys")
	_, err = ini.Load([]byte(text))
	sym.Assert(err != nil && ini.IsErrDelimiterNotFound(err), "a line without delimiter is no such error")
	sym.Reach("done")
}

// C20_auto counts the keys without a name.
//
//sym:both len=2 time=15
//sym:both len=3 time=15
//sym:both len=4 time=15
//sym:both len=5 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=6 time=30
//sym:both len=7 time=60
//sym:thorough len=8 time=200
//sym:thorough len=9 time=300
//sym:reach read refused
func C20_auto() {
	o := ini.LoadOptions{}
	f := against(o, "-=0\n"+sym.StrIn(sym.Param("len", 6), "-=\n[]s ")+"\n-:z\n", true)
	twice := map[string]bool{}
	n := 0
	for _, s := range f.Sections() {
		sym.Assume(!has(s.Name(), "\n"))
		for _, k := range s.Keys() {
			sym.Assume(goodKeyName(k.Name()))
			twice[s.Name()] = true
			n++
		}
	}
	text := string(written(f))
	sym.Assume(!has(text, `"""`))
	g := reload(f, o)
	sameData(dump(f), dump(g), "reloaded")
	sym.Assert(strings.Contains(text, "-") && !strings.Contains(text, "#"), "written with a number")
}

// C20_many has many keys without a name, in two sections, and reads values in order.
//
//sym:both n=12 time=20
//sym:reach done
func C20_many() {
	n := sym.Param("n", 12)
	text := "-=a\n[s]\n"
	v := sym.Str(1)
	sym.Assume(v[0] >= 'a' && v[0] <= 'z')
	for i := 0; i < n; i++ {
		text += "- = " + v + "\n"
	}
	text += "[t]\n- : b\nk=1\n-=c\n"
	f, err := ini.Load([]byte(text))
	sym.Assert(err == nil, "load")
	ks := f.Section("s").Keys()
	sym.Assert(len(ks) == n, "number of keys")
	for i, k := range ks {
		sym.Assert(k.Name() == "#"+itoa(i+1) && k.Value() == v, "auto-increment key")
	}
	sym.Assert(eqStrs(f.Section("t").KeyStrings(), []string{"#1", "k", "#2"}), "counting again")
	sym.Assert(eqStrs(f.Section("").KeyStrings(), []string{"#1"}), "counting in the default section")
	g := reload(f, ini.LoadOptions{})
	sameData(dump(f), dump(g), "reloaded")
	sym.Reach("done")
}

// C20_skip ignores lines that have no delimiter or no name, and them only.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=15
//sym:both len=3 time=15
//sym:both len=4 time=30
//sym:both len=5 time=60
//sym:thorough len=6 time=300
//sym:reach read refused skipped
func C20_skip() {
	o := ini.LoadOptions{SkipUnrecognizableLines: true}
	text := []string{"", "a=1\n", "[s]\n# c\n"}[sym.Choose(3)] + sym.Str(sym.Param("len", 4)) + "\nb=2\n"
	against(o, text, true)
	_, err := ini.Load([]byte(text))
	if err != nil {
		sym.Reach("skipped")
		sym.Assert(ini.IsErrDelimiterNotFound(err) || ini.IsErrEmptyKeyName(err), "a line is skipped that is another error")
	}
}

// C20_absent compares with the document without the skipped line.
//
//sym:both len=0 time=7
//sym:both len=2 time=7
//sym:both len=1 time=5
//sym:both len=3 time=30
//sym:thorough len=5 time=200
//sym:reach nodelim noname
func C20_absent() {
	o := ini.LoadOptions{SkipUnrecognizableLines: true, AllowShadows: sym.Choose(2) == 1}
	head, tail := []string{"", "a=1\n", "[s]\n"}[sym.Choose(3)], []string{"\n", "\nb=2\n[t]\nc=3\n"}[sym.Choose(2)]
	line := sym.Str(sym.Param("len", 3))
	sym.Assume(!has(line, "\n"))
	t := strings.TrimSpace(line)
	sym.Assume(t != "")
	sym.Assume(!sym.IsIn(t[0], "#;[\"`"))
	if head == "" {
		for _, bom := range []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe"} {
			sym.Assume(!strings.HasPrefix(line, bom))
		}
	}
	if strings.IndexAny(t, "=:") < 0 {
		sym.Reach("nodelim")
	} else {
		sym.Assume(t[0] == '=' || t[0] == ':')
		sym.Reach("noname")
	}
	f, err := ini.LoadSources(o, []byte(head+line+tail))
	sym.Assert(err == nil, "an unrecognizable line is refused")
	g, err := ini.LoadSources(o, []byte(head+tail))
	sym.Assert(err == nil, "load")
	sameData(dump(f), dump(g), "without the line")
	sameComments(dump(f), dump(g), "without the line")
	_, err = ini.Load([]byte(head + line + tail))
	sym.Assert(err != nil, "an unrecognizable line is accepted without the option")
	if strings.IndexAny(t, "=:") < 0 {
		sym.Assert(ini.IsErrDelimiterNotFound(err), "no delimiter error")
	} else {
		sym.Assert(ini.IsErrEmptyKeyName(err), "no empty name error")
	}
}

// C20_lines reads documents of several lines of every kind with any switches.
//
//sym:both n=3 time=60
//sym:thorough n=4 time=300
//sym:reach read refused
func C20_lines() {
	text := lines(sym.Param("n", 3), "flag", "FLAG", "-=a", "- : b", "=x", "[s]", "[s.t]", "k=", "\tin", "k=?", "# c", "`f=g` ; d", "")
	o := ini.LoadOptions{
		AllowBooleanKeys:        sym.Bool(),
		SkipUnrecognizableLines: sym.Bool(),
		AllowShadows:            sym.Bool(),
		AllowNestedValues:       sym.Bool(),
		InsensitiveKeys:         sym.Bool(),
		AllowNonUniqueSections:  sym.Bool(),
	}
	f := against(o, text, true)
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			sym.Assume(len(k.NestedValues()) == 0 || len(k.ValueWithShadows()) == 0)
		}
	}
	again(f, o)
}

// C20_again counts on in sections that come back, in children and in further sources.
//
//sym:both n=2 time=60
//sym:thorough n=3 time=300
//sym:reach read
func C20_again() {
	n := sym.Param("n", 2)
	o := ini.LoadOptions{AllowNonUniqueSections: sym.Bool(), InsensitiveSections: sym.Bool()}
	var texts []string
	for i := 0; i < 2; i++ {
		t := ""
		for j := 0; j < 2; j++ {
			t += []string{"[s]\n", "[DEFAULT]\n", "[s.t]\n", "[S]\n", ""}[sym.Choose(5-3*i)]
			for m := sym.Choose(n + 1); m > 0; m-- {
				t += "-=" + string([]byte{sym.ByteIn("abc"), '\n'})
			}
		}
		texts = append(texts, t)
	}
	f, err := ini.LoadSources(o, []byte(texts[0]), []byte(texts[1]))
	sym.Assert(err == nil, "load")
	refSame(f, refLoadAll(o, texts...), true)
	sym.Reach("read")
}
