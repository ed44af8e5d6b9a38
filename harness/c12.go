package harness

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// letters is an arbitrary ASCII text of n bytes that can be a name.
func letters(n int) string {
	b := sym.Bytes(n)
	for _, c := range b {
		sym.Assume(sym.And(c > ' ', c < 0x7f))
	}
	return string(b)
}

// lower folds ASCII letters.
func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = sym.Ite(sym.And('A' <= c, c <= 'Z'), c+('a'-'A'), c)
	}
	return string(b)
}

func foldOptions() (o ini.LoadOptions, secs, keys bool) {
	switch sym.Choose(4) {
	case 1:
		return ini.LoadOptions{Insensitive: true}, true, true
	case 2:
		return ini.LoadOptions{InsensitiveSections: true}, true, false
	case 3:
		return ini.LoadOptions{InsensitiveKeys: true}, false, true
	}
	return ini.LoadOptions{}, false, false
}

func foldIf(c bool, s string) string {
	if c {
		return lower(s)
	}
	return s
}

// C12_sections creates, finds and deletes sections by two arbitrary names.
//
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach same other
func C12_sections() {
	o, fs, _ := foldOptions()
	o.AllowNonUniqueSections = sym.Choose(2) == 1
	n := sym.Param("len", 2)
	a, b := letters(n), letters(n)
	same := foldIf(fs, a) == foldIf(fs, b)
	f := ini.Empty(o)
	s, err := f.NewSection(a)
	sym.Assert(err == nil && s.Name() == foldIf(fs, a), "the name is not stored as documented")
	sym.Assert(f.HasSection(b) == same, "HasSection")
	g, err := f.GetSection(b)
	sym.Assert((err == nil) == same && (g == s) == same, "GetSection")
	all, err := f.SectionsByName(b)
	sym.Assert((err == nil) == same && (len(all) == 1) == same, "SectionsByName")
	sym.Assert(f.SectionStrings()[1] == foldIf(fs, a), "SectionStrings")
	switch sym.Choose(6) {
	case 0:
		f.DeleteSection(b)
		sym.Assert(f.HasSection(a) == !same, "DeleteSection")
		sym.Assert(len(f.Sections()) == len(f.SectionStrings()), "listings differ after a deletion")
	case 1:
		sym.Assert(f.DeleteSectionWithIndex(b, 0) == nil, "DeleteSectionWithIndex fails")
		sym.Assert(f.HasSection(a) == !same, "DeleteSectionWithIndex")
	case 2:
		sym.Assert((f.Section(b) == s) == same, "Section")
	case 3:
		t, err := f.NewSection(b)
		sym.Assert(err == nil && t.Name() == foldIf(fs, b), "the name is not stored as documented")
		sym.Assert((t == s) == (same && !o.AllowNonUniqueSections), "NewSection")
	case 4:
		sym.Assert((f.SectionWithIndex(b, 0) == s) == same, "SectionWithIndex")
	case 5:
		t, err := f.NewRawSection(b, "x")
		sym.Assert(err == nil && t.Name() == foldIf(fs, b), "the name is not stored as documented")
	}
	if same {
		sym.Reach("same")
	} else {
		sym.Reach("other")
	}
}

// C12_keys creates, finds and deletes keys by two arbitrary names.
//
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach same other
func C12_keys() {
	o, _, fk := foldOptions()
	n := sym.Param("len", 2)
	a, b := letters(n), letters(n)
	same := foldIf(fk, a) == foldIf(fk, b)
	f := ini.Empty(o)
	s := f.Section("s")
	k, err := s.NewKey(a, "v")
	sym.Assert(err == nil && k.Name() == foldIf(fk, a), "the name is not stored as documented")
	sym.Assert(s.HasKey(b) == same, "HasKey")
	g, err := s.GetKey(b)
	sym.Assert((err == nil) == same && (g == k) == same, "GetKey")
	_, ok := s.KeysHash()[foldIf(fk, a)]
	sym.Assert(ok && s.KeyStrings()[0] == foldIf(fk, a), "listings")
	switch sym.Choose(6) {
	case 0:
		s.DeleteKey(b)
		sym.Assert(s.HasKey(a) == !same, "DeleteKey")
		sym.Assert(len(s.Keys()) == len(s.KeysHash()), "listings differ after a deletion")
	case 1:
		sym.Assert((s.Key(b) == k) == same, "Key")
	case 2:
		l, err := s.NewKey(b, "w")
		sym.Assert(err == nil && (l == k) == same, "NewKey")
		sym.Assert((k.Value() == "w") == same, "the value of another key changes")
	case 3:
		l, err := s.NewBooleanKey(b)
		sym.Assert(err == nil && (l == k) == same, "NewBooleanKey")
	case 4:
		k.SetValue("w")
		sym.Assert(s.KeysHash()[foldIf(fk, a)] == "w", "KeysHash after SetValue")
		sym.Assert(s.Key(a).Value() == "w", "SetValue")
	case 5:
		c, _ := f.NewSection("s.c")
		sym.Assert(c.HasKey(b) == same, "inherited HasKey")
	}
	if same {
		sym.Reach("same")
	} else {
		sym.Reach("other")
	}
}

// C12_load reads names in any case from a document.
//
//sym:both len=0 time=15
//sym:both len=1 time=60
//sym:thorough len=2 time=300
//sym:reach read
func C12_load() {
	o, _, _ := foldOptions()
	o.AllowShadows = sym.Choose(2) == 1
	n := sym.Param("len", 1)
	name := func() string {
		s := letters(n)
		for i := 0; i < len(s); i++ {
			sym.Assume(!sym.IsIn(s[i], "=:\"`#;[]\\'-"))
		}
		return s
	}
	text := "[" + name() + "]\n" + name() + "=1\n" + name() + "=2\n[" + name() + "]\n" + name() + "=3\n"
	against(o, text, true)
}

// C12_unicode has names of letters outside of ASCII.
//
//sym:both time=20
//sym:reach same other
func C12_unicode() {
	o, fs, fk := foldOptions()
	o.AllowBooleanKeys = sym.Choose(2) == 1
	groups := [][]string{{"\u00c9", "\u00e9"}, {"\u0416", "\u0436"}, {"\u03a9", "\u03c9", "\u2126"}, {"A\u00c4", "a\u00e4"}, {"\u0178x", "\u00ffx"}, {"\u4e16", "\u4e16"},
		{"S", "s", "\u017f"}, {"K", "k", "\u212a"}, {"\u03a3", "\u03c3", "\u03c2"}, {"\u0130", "I", "i", "\u0131"}, {"\u01c4", "\u01c5", "\u01c6"}}
	g := groups[sym.Choose(len(groups))]
	p, q := g[sym.Choose(len(g))], g[sym.Choose(len(g))]
	tail := sym.StrIn(1, "aZ")
	a, b := p+tail, q+tail
	stored := func(fold bool, s string) string {
		if fold {
			return strings.ToLower(s[:len(s)-1]) + lower(tail)
		}
		return s
	}
	sameS, sameK := stored(fs, a) == stored(fs, b), stored(fk, a) == stored(fk, b)
	var f *ini.File
	if sym.Choose(2) == 1 {
		var err error
		f, err = ini.LoadSources(o, []byte("["+a+"]\n"+a+" = v\n"))
		sym.Assert(err == nil, "load")
	} else {
		f = ini.Empty(o)
		f.Section(a).NewKey(a, "v")
	}
	s, err := f.GetSection(b)
	sym.Assert((err == nil) == sameS && f.HasSection(b) == sameS, "look-up of a section")
	if err != nil {
		s, err = f.GetSection(a)
		sym.Assert(err == nil, "look-up of a section by the name given")
	}
	sym.Assert(s.Name() == stored(fs, a), "the name is not stored as documented")
	k, err := s.GetKey(b)
	sym.Assert((err == nil) == sameK && s.HasKey(b) == sameK, "look-up of a key")
	if sameK {
		sym.Assert(k.Name() == stored(fk, a) && k.Value() == "v", "the name is not stored as documented")
		sym.Assert(s.Key(b) == k, "Key")
		sym.Reach("same")
	} else {
		sym.Reach("other")
	}
	l, err := s.NewKey(b, "w")
	sym.Assert(err == nil && l.Name() == stored(fk, b) && (l == k) == sameK, "NewKey")
	s.DeleteKey(a)
	sym.Assert(s.HasKey(a) == false && s.HasKey(b) == !sameK, "DeleteKey")
	t, err := f.NewSection(b)
	sym.Assert(err == nil && (t == s) == sameS && t.Name() == stored(fs, b), "NewSection")
	f.DeleteSection(a)
	sym.Assert(!f.HasSection(a) && f.HasSection(b) == !sameS, "DeleteSection")
}

// C12_default treats the default section like every other one.
//
//sym:both time=30
//sym:reach done
func C12_default() {
	o, fs, _ := foldOptions()
	d := []byte(ini.DefaultSection)
	for i := range d {
		if sym.Bool() {
			d[i] += 'a' - 'A'
		}
	}
	name := string(d)
	same := fs || name == ini.DefaultSection
	text := "k=1\n[" + name + "]\nk=2\n"
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	want := "1"
	if same {
		want = "2"
	}
	sym.Assert(f.Section("").Key("k").Value() == want, "the default section is not found by its name")
	sym.Assert(f.Section(ini.DefaultSection).Key("k").Value() == want, "the default section is not found by its name")
	sym.Assert(f.Section(name).Key("k").Value() == "2", "section of that name")
	n := 2
	if same {
		n = 1
	}
	sym.Assert(len(f.Sections()) == n && len(f.SectionStrings()) == n, "number of sections")
	sym.Assert(f.Section("").Name() == foldIf(fs, ini.DefaultSection), "name of the default section")
	f.DeleteSection(name)
	sym.Assert(f.HasSection("") == !same, "deleting by name")
	sym.Reach("done")
}

// C12_raw finds raw sections and child sections by names in any case.
//
//sym:both time=30
//sym:reach done
func C12_raw() {
	o, fs, _ := foldOptions()
	a, b := letters(2), letters(2)
	for i := 0; i < 2; i++ {
		sym.Assume(!sym.IsIn(a[i], "]") && a[i] != '.' && b[i] != '.')
	}
	same := foldIf(fs, a) == foldIf(fs, b)
	o.UnparseableSections = []string{b}
	f, err := ini.LoadSources(o, []byte("["+a+"]\nk=1\n["+a+".c]\nx=1\n"))
	sym.Assert(err == nil, "load")
	s := f.Section(a)
	sym.Assert((s.Body() == "k=1") == same && s.HasKey("k") == !same, "raw section")
	children := f.Section(a).ChildSections()
	sym.Assert(len(children) == 1 && children[0].Name() == foldIf(fs, a+".c"), "child section")
	sym.Assert(strings.HasPrefix(children[0].Name(), s.Name()), "child section")
	sym.Reach("done")
}

// C12_children lists the children of a section, whether it exists or not, by its name in any case.
//
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:reach same other
func C12_children() {
	o, fs, _ := foldOptions()
	n := sym.Param("len", 2)
	a, b := letters(n), letters(n)
	for i := 0; i < n; i++ {
		sym.Assume(a[i] != '.' && b[i] != '.')
	}
	f := ini.Empty(o)
	f.NewSection(a + ".C")
	if sym.Choose(2) == 1 {
		f.NewSection(a)
	}
	names := len(f.SectionStrings())
	got := f.ChildSections(b)
	if foldIf(fs, a) == foldIf(fs, b) {
		sym.Reach("same")
		sym.Assert(len(got) == 1 && got[0] == f.Section(a+foldIf(fs, ".C")), "ChildSections")
	} else {
		sym.Reach("other")
		sym.Assert(len(got) == 0, "ChildSections")
	}
	sym.Assert(len(f.SectionStrings()) == names, "listing creates a section")
}

// C12_lines reads documents with names in either case.
//
//sym:both n=3 time=60
//sym:thorough n=4 time=300
//sym:reach read refused
func C12_lines() {
	o, _, _ := foldOptions()
	o.AllowBooleanKeys = sym.Bool()
	o.AllowShadows = sym.Bool()
	o.UnparseableSections = []string{"Raw"}
	text := lines(sym.Param("n", 3), "k=?", "K=V", "`Key`=W", "key = K", "[S]", "[s]", "[?]", "[raw]", "[Raw]", "Flag", "[Default]", "-=X")
	for i := range text {
		sym.Assume(text[i] < 128)
	}
	f := against(o, text, true)
	for _, s := range f.Sections() {
		sym.Assert(f.HasSection(s.Name()), "a listed section does not exist")
		for _, k := range s.Keys() {
			sym.Assert(s.HasKey(k.Name()) && s.Key(k.Name()) == k, "a listed key does not exist")
		}
	}
}

// C12_twins looks at names in other case of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C12_twins() {
	twins(ini.LoadOptions{UnparseableSections: []string{"RAW"}, Insensitive: true}, "01", seeFolded)
}
