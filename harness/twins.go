package harness

import (
	"github.com/go-ini/ini"

	"verif/sym"
)

// seen is what looking at a file gives.
type seen struct {
	strs []string
	ints []int

	lists  [][]string // lists that were handed out
	copies [][]string // what they held
}

// list notes a list that was handed out and that has to stay as it is.
func (s *seen) list(v []string) {
	s.str(v...)
	s.num(len(v))
	s.lists = append(s.lists, v)
	s.copies = append(s.copies, append([]string(nil), v...))
}

func (s *seen) kept() bool {
	for i := range s.lists {
		if !eqStrs(s.lists[i], s.copies[i]) {
			return false
		}
	}
	return true
}

func (s *seen) str(v ...string) { s.strs = append(s.strs, v...) }
func (s *seen) num(v ...int)    { s.ints = append(s.ints, v...) }
func (s *seen) is(v bool) {
	n := 0
	if v {
		n = 1
	}
	s.num(n)
}

// names are sections that may be there.
var twinNames = []string{"", "a", "a.b", "a.b.c", "raw", "new"}

// each gives every section of these names that is there.
func each(f *ini.File, do func(s *ini.Section)) {
	for _, n := range twinNames {
		if s, err := f.GetSection(n); err == nil {
			do(s)
		}
	}
}

// key gives the key of that name if it is there, its own or an inherited one.
func eachKey(f *ini.File, do func(k *ini.Key)) {
	each(f, func(s *ini.Section) {
		for _, n := range []string{"k", "l", "r", "q", "e"} {
			if k, err := s.GetKey(n); err == nil {
				do(k)
			}
		}
	})
}

const twinText = "k = 1\nr = %(k)s\n[a]\nk = 2\nq = %(l)s,x\n[a.b.c]\nr = %(k)s\n[raw]\nbody\n"

// change changes a file in one of several ways.
func change(f *ini.File, c int, v string) {
	switch c {
	case 0:
		f.Section("").Key("k").SetValue(v)
	case 1:
		f.Section("a").NewKey("k", v)
	case 2:
		f.Section("a").DeleteKey("k")
	case 3:
		f.Section("a.b").NewKey("k", v)
	case 4:
		f.DeleteSection("a")
	case 5:
		f.Section("a").NewKey("l", v)
	case 6:
		f.DeleteSection("a.b")
	case 7:
		f.Section("").NewKey("l", v)
	case 8:
		f.NewSection("new")
	case 9:
		sym.Assert(f.Append([]byte("[a]\nk = 6\n")) == nil, "Append")
	case 10:
		f.Section("a").Comment = "; note"
		f.Section("a").Key("k").Comment = "; note"
	case 11:
		f.Section("").DeleteKey("l")
		f.DeleteSectionWithIndex("new", 0)
	case 12:
		f.ValueMapper = func(s string) string { return "<" + s + ">" }
	case 13:
		f.Section("raw").SetBody(v + "x")
	case 14:
		f.Section("").Key("k").AddShadow(v)
	case 15:
		f.Section("").Key("e").AddNestedValue(v + "n")
	}
}

const twinChanges = 16

// twins makes the same changes to two files, of which only one is looked at in between, and looks at both in the end.
func twins(o ini.LoadOptions, alphabet string, look func(f *ini.File, s *seen)) {
	f, err := ini.LoadSources(o, []byte(twinText))
	sym.Assert(err == nil, "load")
	g, err := ini.LoadSources(o, []byte(twinText))
	sym.Assert(err == nil, "load")
	f.BlockMode = sym.Choose(2) == 0
	var looks []*seen
	for i := 0; i < sym.Param("ops", 2); i++ {
		if i == 0 || sym.Choose(2) == 1 {
			s := new(seen)
			look(f, s)
			looks = append(looks, s)
		}
		c := sym.Choose(twinChanges)
		v := sym.StrIn(1, alphabet)
		change(f, c, v)
		change(g, c, v)
	}
	a, b := new(seen), new(seen)
	look(f, a)
	look(g, b)
	sym.Assert(eqStrs(a.strs, b.strs) && eqList(a.ints, b.ints), "what was seen before is seen again")
	for _, s := range append(looks, a) {
		sym.Assert(s.kept(), "a list that was handed out changes")
	}
	sym.Reach("done")
}

func seeSections(f *ini.File, s *seen) {
	s.list(f.SectionStrings())
	for _, x := range f.Sections() {
		s.str(x.Name())
		s.num(len(x.KeyStrings()))
	}
	for _, n := range twinNames {
		s.is(f.HasSection(n))
		l, err := f.SectionsByName(n)
		s.is(err == nil)
		s.num(len(l))
	}
}

func seeKeys(f *ini.File, s *seen) {
	for _, x := range f.Sections() {
		s.list(x.KeyStrings())
		h := x.KeysHash()
		s.num(len(h))
		for _, k := range x.Keys() {
			s.str(k.Name(), k.Value(), h[k.Name()])
			s.is(x.HasValue(k.Value()))
		}
		for _, n := range []string{"k", "l", "z"} {
			s.is(x.HasKey(n))
		}
	}
}

func seeFamily(f *ini.File, s *seen) {
	each(f, func(x *ini.Section) {
		for _, n := range []string{"k", "l", "q"} {
			if k, err := x.GetKey(n); err == nil {
				s.str(k.Value())
			} else {
				s.str("none")
			}
		}
		for _, k := range x.ParentKeys() {
			s.str(k.Name(), k.Value())
		}
		for _, c := range x.ChildSections() {
			s.str(c.Name())
			s.num(len(c.Keys()))
		}
	})
}

func seeFolded(f *ini.File, s *seen) {
	for _, n := range []string{"DEFAULT", "A", "a", "A.b", "NEW"} {
		s.is(f.HasSection(n))
		x, err := f.GetSection(n)
		if err != nil {
			continue
		}
		s.str(x.Name())
		for _, n := range []string{"K", "k", "L"} {
			s.is(x.HasKey(n))
			if k, err := x.GetKey(n); err == nil {
				s.str(k.Name(), k.Value())
			}
		}
	}
}

func seeStrings(f *ini.File, s *seen) {
	eachKey(f, func(k *ini.Key) {
		s.str(k.String(), k.MustString(""), k.Validate(func(v string) string { return v }))
	})
}

func seeTyped(f *ini.File, s *seen) {
	eachKey(f, func(k *ini.Key) {
		n, err := k.Int()
		s.num(n)
		s.is(err == nil)
		u, err := k.Uint64()
		s.num(int(u))
		s.is(err == nil)
		b, err := k.Bool()
		s.is(b)
		s.is(err == nil)
		s.num(k.MustInt(), int(k.MustInt64()), int(k.MustUint()), int(k.MustUint64()))
		s.is(k.MustBool())
	})
}

func seeLists(f *ini.File, s *seen) {
	eachKey(f, func(k *ini.Key) {
		s.list(k.Strings(","))
		s.num(k.Ints(",")...)
		s.num(k.ValidInts(",")...)
		l, err := k.StrictInts(",")
		s.num(l...)
		s.is(err == nil)
	})
}

func seeChoices(f *ini.File, s *seen) {
	eachKey(f, func(k *ini.Key) {
		s.str(k.In("other", []string{"2", "1", "6"}))
		s.num(k.InInt(-1, []int{2, 6, 1}), k.RangeInt(-1, 1, 5), int(k.RangeInt64(-1, 2, 9)), int(k.InUint64(77, []uint64{1})))
	})
}

func seeShadows(f *ini.File, s *seen) {
	eachKey(f, func(k *ini.Key) {
		s.list(k.ValueWithShadows())
		s.list(k.StringsWithShadows(","))
		s.str(k.Value())
	})
}

func seeNested(f *ini.File, s *seen) {
	eachKey(f, func(k *ini.Key) {
		s.list(k.NestedValues())
	})
}

func seeBodies(f *ini.File, s *seen) {
	each(f, func(x *ini.Section) {
		s.str(x.Body())
	})
}

func seeMapped(f *ini.File, s *seen) {
	type cfg struct {
		K int    `ini:"k"`
		L string `ini:"l"`
		R []int  `ini:"r"`
		A struct {
			K *string  `ini:"k"`
			Q []string `ini:"q"`
		} `ini:"a"`
	}
	var c cfg
	sym.Assert(f.MapTo(&c) == nil, "MapTo")
	s.num(c.K)
	s.str(c.L)
	s.num(c.R...)
	if c.A.K != nil {
		s.str(*c.A.K)
	}
	s.str(c.A.Q...)
	var d cfg
	s.is(f.StrictMapTo(&d) == nil)
}

var twinRaw = ini.LoadOptions{UnparseableSections: []string{"raw"}}
