package harness

import (
	"time"

	"github.com/go-ini/ini"

	"verif/sym"
)

// lookup28 is one look-up by name; it says what it found, and missing says what a look-up of something missing has to say.
func lookup28(f *ini.File, s *ini.Section, op int, name string) (found bool, exact bool) {
	switch op {
	case 0:
		return f.HasSection(name), true
	case 1:
		x, err := f.GetSection(name)
		sym.Assert((x == nil) == (err != nil), "GetSection: both or neither of section and error")
		return x != nil, true
	case 2:
		x, err := f.SectionsByName(name)
		sym.Assert((len(x) == 0) == (err != nil), "SectionsByName: both or neither of sections and error")
		if len(x) > 0 {
			x[0] = nil // the list is the caller's
		}
		return len(x) > 0, true
	case 3:
		x := f.ChildSections(name)
		if len(x) > 0 {
			x[0] = nil
		}
		return false, false
	case 4:
		return s.HasKey(name), true
	case 5:
		return s.Haskey(name), true
	case 6:
		k, err := s.GetKey(name)
		sym.Assert((k == nil) == (err != nil), "GetKey: both or neither of key and error")
		return k != nil, true
	case 7:
		s.HasValue(name)
	}
	return false, false
}

const lookups28 = 8

// list28 is one of the listings; what they return is the caller's to change.
func list28(f *ini.File, s *ini.Section, op int) {
	switch op {
	case 0:
		x := f.Sections()
		x[0] = nil
	case 1:
		x := f.SectionStrings()
		x[0] = "changed"
	case 2:
		for i, x := 0, s.ChildSections(); i < len(x); i++ {
			x[i] = nil
		}
	case 3:
		for i, x := 0, s.Keys(); i < len(x); i++ {
			x[i] = nil
		}
	case 4:
		for i, x := 0, s.KeyStrings(); i < len(x); i++ {
			x[i] = "changed"
		}
	case 5:
		x := s.KeysHash()
		x["k"] = "changed"
		x["new"] = "changed"
	case 6:
		for i, x := 0, s.ParentKeys(); i < len(x); i++ {
			x[i] = nil
		}
	case 7:
		_ = s.Name() + s.Body()
	case 8:
		if s.Name() != "raw" {
			s.SetBody("not a raw section")
		}
	case 9:
		type cfg struct {
			K string
			I int       `ini:"k"`
			L []string  `ini:"k"`
			D float64   `ini:"l"`
			M []int     `ini:"m"`
			B bool      `ini:"none"`
			P *string   `ini:"none2"`
			T time.Time `ini:"k"`
			S struct {
				X string `ini:"x"`
			} `ini:"missing"`
			Q *struct{ X string } `ini:"missing2"`
			*Emb
			*leaf `ini:"missing4"`
			R     Emb `ini:",extends"`
		}
		var c cfg
		_ = s.MapTo(&c)
		_ = s.StrictMapTo(&c)
		_ = f.MapTo(&c)
		_ = f.StrictMapTo(&c)
		var l struct {
			Qs []struct{ X string } `ini:"missing3,,,nonunique"`
			Rs []struct{ X string } `ini:"a,,,nonunique"`
		}
		_ = f.MapTo(&l)
	}
}

const lists28 = 10

func files28(i int) (ini.LoadOptions, string) {
	switch i {
	case 0:
		return ini.LoadOptions{}, "; c\nk=1\nl=a%(k)s\n; d\n[a]\nk=%(l)s\n[a.b]\nm=1,2\n"
	case 1:
		return ini.LoadOptions{AllowShadows: true, AllowNonUniqueSections: true}, "k=1\nk=2\n[a]\nk=a\nk=b\n[a]\nm=\n[a.b]\n"
	case 2:
		return ini.LoadOptions{Insensitive: true, AllowBooleanKeys: true}, "K\n[A]\nk=true\n-=x\n[a.B]\nL=3"
	case 3:
		return ini.LoadOptions{AllowNestedValues: true, AllowPythonMultilineValues: true, ChildSectionDelimiter: "/"}, "k=\n  a\n[a]\nk=1\n  2\n[a/b]\n"
	}
	return ini.LoadOptions{UnparseableSections: []string{"raw"}}, "[a]\nk=1\n[raw]\ntext\n"
}

// C28_names looks up any names.
//
//sym:both len=0 ops=1 time=5
//sym:both len=1 ops=1 time=5
//sym:both len=0 ops=2 time=7
//sym:both len=2 ops=1 time=20
//sym:both len=1 ops=2 time=30
//sym:thorough len=3 ops=1 time=100
//sym:thorough len=2 ops=2 time=300
//sym:reach found missing
func C28_names() {
	o, text := files28(sym.Choose(5))
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	if sym.Choose(2) == 1 {
		f.DeleteSection("")
	}
	f.BlockMode = sym.Choose(2) == 0
	s := f.Section([]string{"a", "a.b", "x.y.z"}[sym.Choose(3)])
	before := everything(f)
	text = string(written(f))
	for n := sym.Param("ops", 1); n > 0; n-- {
		name := sym.StrIn(sym.Choose(sym.Param("len", 2)+1), "akAb./lx1")
		op := sym.Choose(lookups28)
		found, exact := lookup28(f, s, op, name)
		again, _ := lookup28(f, s, op, name)
		sym.Assert(found == again, "the same look-up finds something else")
		if exact && !found {
			sym.Reach("missing")
		} else if found {
			sym.Reach("found")
		}
	}
	unchanged(before, everything(f), "after looking up")
	sym.Assert(string(written(f)) == text, "what is written after looking up")
}

// C28_lists reads every listing of every section.
//
//sym:both time=20
//sym:reach done
func C28_lists() {
	o, text := files28(sym.Choose(5))
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	f.BlockMode = sym.Choose(2) == 0
	sym.Assert(f.NewSections("x.y.z", "x/y/z") == nil, "NewSections") // the sections above them do not exist
	all := f.Sections()
	s := all[sym.Choose(len(all))]
	before := everything(f)
	text = string(written(f))
	list28(f, s, sym.Choose(lists28))
	list28(f, s, sym.Choose(lists28))
	unchanged(before, everything(f), "after listing")
	sym.Assert(string(written(f)) == text, "what is written after listing")
	sym.Reach("done")
}

// read28 reads a key in one way and tells whether it was to keep its value.
func read28(k *ini.Key, op int) {
	switch op {
	case 0:
		_ = k.Name() + k.Value() + k.String()
	case 1:
		for i, x := 0, k.ValueWithShadows(); i < len(x); i++ {
			x[i] = "changed"
		}
		for i, x := 0, k.StringsWithShadows(","); i < len(x); i++ {
			x[i] = "changed"
		}
	case 2:
		_ = k.Validate(func(string) string { return "other" })
		_ = len(k.NestedValues())
	case 3:
		_, _ = k.Bool()
		_, _ = k.Float64()
	case 4:
		_, _ = k.Int()
		_, _ = k.Int64()
	case 5:
		_, _ = k.Uint()
		_, _ = k.Uint64()
	case 6:
		_, _ = k.Duration()
	case 7:
		_, _ = k.Time()
		_, _ = k.TimeFormat("2006")
	case 8:
		k.MustBool()
		k.MustFloat64()
		k.MustInt()
		k.MustInt64()
		k.MustUint()
		k.MustUint64()
	case 9:
		k.MustDuration()
		k.MustTime()
		k.MustTimeFormat("2006")
	case 10:
		k.In("d", []string{"a", "b"})
		k.InInt(7, []int{1, 2})
		k.InInt64(7, []int64{1, 2})
	case 11:
		k.InUint(7, []uint{1, 2})
		k.InUint64(7, []uint64{1, 2})
		k.InFloat64(7, []float64{1, 2})
		k.InTime(time.Time{}, nil)
		k.InTimeFormat("2006", time.Time{}, nil)
	case 12:
		k.RangeInt(7, 1, 2)
		k.RangeInt64(7, 1, 2)
		k.RangeFloat64(7, 1, 2)
		k.RangeTime(time.Time{}, time.Time{}, time.Time{})
		k.RangeTimeFormat("2006", time.Time{}, time.Time{}, time.Time{})
	case 13:
		for i, x := 0, k.Strings(","); i < len(x); i++ {
			x[i] = "changed"
		}
		k.Ints(",")
		k.Int64s(",")
		k.Uints(",")
		k.Uint64s(",")
		k.Bools(",")
		k.Float64s(",")
	case 14:
		k.ValidInts(",")
		k.ValidInt64s(",")
		k.ValidUints(",")
		k.ValidUint64s(",")
		k.ValidBools(",")
		k.ValidFloat64s(",")
	case 15:
		_, _ = k.StrictInts(",")
		_, _ = k.StrictInt64s(",")
		_, _ = k.StrictUints(",")
		_, _ = k.StrictUint64s(",")
		_, _ = k.StrictBools(",")
		_, _ = k.StrictFloat64s(",")
	case 16:
		k.Times(",")
		k.ValidTimes(",")
		_, _ = k.StrictTimes(",")
		k.TimesFormat("2006", ",")
		k.ValidTimesFormat("2006", ",")
		_, _ = k.StrictTimesFormat("2006", ",")
	}
}

const reads28 = 17

// C28_reads reads a key of any value in every way.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach done
func C28_reads() {
	o := []ini.LoadOptions{{}, {AllowShadows: true}}[sym.Choose(2)]
	f := ini.Empty(o)
	v := sym.StrIn(sym.Param("len", 2), "%(k)s1,-.at")
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	k, err := s.NewKey("k", v)
	sym.Assert(err == nil, "NewKey")
	if o.AllowShadows {
		sym.Assert(k.AddShadow("w") == nil, "AddShadow")
	}
	if sym.Choose(2) == 1 {
		f.DeleteSection("")
		if s.Name() == "DEFAULT" {
			sym.Stop()
		}
	}
	before := everything(f)
	text := string(written(f))
	read28(k, sym.Choose(reads28))
	sym.Assert(k.Value() == v, "the value after reading")
	unchanged(before, everything(f), "after reading")
	sym.Assert(string(written(f)) == text, "what is written after reading")
	sym.Reach("done")
}

// C28_expand reads values that refer to keys and sections that exist or do not.
//
//sym:both time=20
//sym:reach done
func C28_expand() {
	f := ini.Empty()
	v := []string{"%(x)s", "%(a)s", "%(k)s", "x%(none)sy%(a)s", "%(a.b)s", "%()s", "%(DEFAULT)s", "%(p)s"}[sym.Choose(8)]
	s := f.Section([]string{"", "s", "s.t"}[sym.Choose(3)])
	sym.Assert(f.NewSections("s.t.u") == nil, "NewSections")
	_, err := s.NewKey("k", v)
	sym.Assert(err == nil, "NewKey")
	_, err = f.Section("s.t.u").NewKey("p", "%(q)s")
	sym.Assert(err == nil, "NewKey")
	if w := sym.Choose(3); w > 0 {
		f.Section("").Key("a").SetValue([]string{"%(b)s", ""}[w-1])
	} else if s.Name() != "DEFAULT" {
		f.DeleteSection("")
	}
	before := everything(f)
	text := string(written(f))
	op := sym.Choose(reads28 + 1)
	for _, x := range f.Sections() {
		for _, k := range x.Keys() {
			if op < reads28 {
				read28(k, op)
			} else if k.String() != "" {
				_ = k.MustString("d")
			}
		}
	}
	unchanged(before, everything(f), "after expanding")
	sym.Assert(string(written(f)) == text, "what is written after expanding")
	sym.Reach("done")
}

// C28_missing reads names that do not exist.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:thorough len=4 time=100
//sym:reach done
func C28_missing() {
	o, text := files28(sym.Choose(5))
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	name := "z" + sym.Str(sym.Param("len", 2))
	before := everything(f)
	sym.Assert(!f.HasSection(name), "HasSection of a missing section")
	x, err := f.GetSection(name)
	sym.Assert(x == nil && err != nil, "GetSection of a missing section")
	y, err := f.SectionsByName(name)
	sym.Assert(len(y) == 0 && err != nil, "SectionsByName of a missing section")
	sym.Assert(len(f.ChildSections(name)) == 0, "ChildSections of a missing section")
	for _, s := range f.Sections() {
		sym.Assert(!s.HasKey(name) && !s.Haskey(name), "HasKey of a missing key")
		k, err := s.GetKey(name)
		sym.Assert(k == nil && err != nil, "GetKey of a missing key")
		sym.Assert(!s.HasValue(name), "HasValue of a missing value")
		_, ok := s.KeysHash()[name]
		sym.Assert(!ok, "KeysHash of a missing key")
		s.DeleteKey(name)
	}
	f.DeleteSection(name)
	unchanged(before, everything(f), "after looking for what is missing")
	sym.Reach("done")
}

// C28_later changes one file that was looked at and one that was not in the same way: they stay the same.
//
//sym:both time=60
//sym:reach done
func C28_later() {
	o, text := files28(sym.Choose(5))
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	g, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	f.BlockMode = sym.Choose(2) == 0
	g.BlockMode = f.BlockMode
	names := []string{"a", "a.b", "a/b", "", "k", "l", "m", "none"}
	switch sym.Choose(4) {
	case 0:
		op := sym.Choose(lookups28)
		for _, s := range f.Sections() {
			for _, n := range names {
				lookup28(f, s, op, n)
			}
		}
	case 1:
		op := sym.Choose(lists28)
		for _, s := range f.Sections() {
			list28(f, s, op)
		}
	case 2:
		op := sym.Choose(reads28)
		for _, s := range f.Sections() {
			for _, k := range s.Keys() {
				read28(k, op)
			}
		}
	case 3:
		written(f)
		sym.Assert(f.SaveTo(sym.Dir()+"/x.ini") == nil, "SaveTo")
	}
	v := sym.StrIn(1, "1%xY")
	op := sym.Choose(6)
	for _, x := range []*ini.File{f, g} {
		s := x.Section([]string{"", "a"}[op%2])
		switch op / 2 {
		case 0:
			s.DeleteKey("k")
		case 1:
			s.Key("k").SetValue(v)
		case 2:
			x.DeleteSection("a")
			_, err := x.Section("").NewKey("m", v)
			sym.Assert(err == nil, "NewKey")
		}
	}
	unchanged(everything(g), everything(f), "after a change")
	sym.Assert(string(written(f)) == string(written(g)), "what is written after a change")
	x, y := f.Sections(), g.Sections()
	for i := range x {
		for _, n := range names[4:] {
			k, err := x[i].GetKey(n)
			l, err2 := y[i].GetKey(n)
			sym.Assert((err == nil) == (err2 == nil) && (k == nil) == (l == nil), "GetKey after a change")
			sym.Assert(k == nil || k.Value() == l.Value() && k.String() == l.String(), "the value after a change")
			sym.Assert(x[i].HasKey(n) == y[i].HasKey(n), "HasKey after a change")
			sym.Assert(x[i].HasValue(v) == y[i].HasValue(v), "HasValue after a change")
		}
		sym.Assert(len(x[i].ParentKeys()) == len(y[i].ParentKeys()), "ParentKeys after a change")
		sym.Assert(len(x[i].ChildSections()) == len(y[i].ChildSections()), "ChildSections after a change")
	}
	sym.Reach("done")
}
