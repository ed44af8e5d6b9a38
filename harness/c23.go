package harness

import (
	"strings"
	"time"

	"github.com/go-ini/ini"

	"verif/sym"
)

// back reflects the struct, optionally writes and loads the file, and maps it onto a fresh struct.
func back[T any](o ini.LoadOptions, v *T) (*ini.File, *T) {
	f := ini.Empty(o)
	sec := []string{"", "s"}[sym.Choose(2)]
	f.Section("other").NewKey("k", "v")
	if sec == "" {
		sym.Assert(f.ReflectFrom(v) == nil, "ReflectFrom fails")
	} else {
		sym.Assert(f.Section(sec).ReflectFrom(v) == nil, "ReflectFrom fails")
	}
	g := f
	if sym.Choose(2) == 1 {
		g = reload(f, o)
	}
	w := new(T)
	sym.Assert(g.Section(sec).MapTo(w) == nil, "MapTo fails")
	sym.Assert(g.Section("other").Key("k").Value() == "v", "another section changes")
	return f, w
}

// textual tells whether a string field can hold the text: what a value can hold and no reference.
func textual(v string) bool {
	if has(v, "`") && has(v, `"`) {
		return false
	}
	_, _, ok := reference(v)
	return !ok
}

// C23_strings reflects texts.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:both len=3 time=60
//sym:thorough len=4 time=200
//sym:thorough len=5 time=300
//sym:reach done
func C23_strings() {
	type cfg struct {
		A string
		B string `ini:"b key"`
		C *string
		D string `ini:"d,omitempty"`
	}
	v := sym.Str(sym.Param("len", 2))
	sym.Assume(textual(v))
	c := cfg{A: v, B: "b", C: &v}
	if sym.Choose(2) == 1 {
		c.D = v
	}
	f, w := back(ini.LoadOptions{}, &c)
	sym.Assert(w.A == v && w.B == "b" && *w.C == v && w.D == c.D, "strings mapped back")
	_ = f
	sym.Reach("done")
}

// C23_ints reflects any numbers.
//
//sym:both time=30
//sym:reach done
func C23_ints() {
	type cfg struct {
		I   int
		I8  int8
		I16 int16
		U   uint
		U16 uint16
		B   bool
		L   level
		P   *int
		PU  *uint16
		N   *int
		O   int64 `ini:"o,omitempty"`
	}
	var x int64
	switch sym.Choose(2) {
	case 0:
		x = int64(sym.Byte())
		if sym.Param("wide", 0) == 1 {
			x = int64(sym.U16())
		}
		if sym.Choose(2) == 1 {
			x = -x
		}
	case 1:
		x = []int64{1<<63 - 1, -1 << 63, -1 << 31, 1 << 32, -1, 1<<31 - 1, -32769, 65536}[sym.Choose(8)]
	}
	i := int(x)
	u := uint(x)
	if x < 0 {
		u = -u
	}
	pu := uint16(7)
	c := cfg{I: 1, I8: 2, I16: 3, U: 4, U16: 5, B: true, L: 6, P: new(int), PU: &pu, O: 0}
	switch sym.Choose(9) {
	case 0:
		c.I = i
	case 1:
		c.I8 = int8(x)
	case 2:
		c.I16 = int16(x)
	case 3:
		c.U = u
	case 4:
		c.U16 = uint16(u)
	case 5:
		c.B, c.L = x&1 == 0, level(x)
	case 6:
		c.P = &i
	case 7:
		pu = uint16(u)
	case 8:
		c.O = x
	}
	f, w := back(ini.LoadOptions{}, &c)
	sym.Assert(w.I == c.I && w.I8 == c.I8 && w.I16 == c.I16 && w.U == c.U && w.U16 == c.U16 && w.L == c.L && w.O == c.O, "numbers mapped back")
	sym.Assert(w.B == c.B, "bool mapped back")
	sym.Assert(*w.P == *c.P && *w.PU == pu && w.N == nil, "pointers mapped back")
	sym.Assert((f.Section("").HasKey("o") || f.Section("s").HasKey("o")) == (c.O != 0), "omitempty")
	sym.Reach("done")
}

// C23_floats reflects any floating point number, durations and times.
//
//sym:both time=60
//sym:reach done
func C23_floats() {
	type cfg struct {
		F  float64
		G  float32
		P  *float64
		D  time.Duration
		PD *time.Duration
		T  time.Time
		PT *time.Time
		Fs []float64
		Ts []time.Time
		O  float64   `ini:"o,omitempty"`
		Z  time.Time `ini:"z,omitempty"`
	}
	x := sym.Float64()
	sym.Assume(x == x)
	zone := []*time.Location{time.UTC, time.FixedZone("", 5400), time.FixedZone("", -3600)}[sym.Choose(3)]
	t := time.Date(2000+sym.Choose(3), time.Month(1+sym.Choose(2)), 28, 1, 2, 3, 0, zone)
	d := time.Duration(sym.Choose(4)-1) * 1500 * time.Millisecond
	c := cfg{F: x, G: 1.25, P: &x, D: d, PD: &d, T: t, PT: &t, Fs: []float64{1, x, 2.5}, Ts: []time.Time{t, t.Add(time.Hour)}, O: x}
	_, w := back(ini.LoadOptions{}, &c)
	sym.Assert(w.F == x && w.G == 1.25 && *w.P == x && w.O == x, "floats mapped back")
	sym.Assert(len(w.Fs) == 3 && w.Fs[1] == x && w.Fs[2] == 2.5, "list of floats mapped back")
	sym.Assert(w.D == d && *w.PD == d, "durations mapped back")
	sym.Assert(w.T.Equal(t) && w.PT.Equal(t) && w.Z.IsZero(), "times mapped back")
	sym.Assert(len(w.Ts) == 2 && w.Ts[0].Equal(t) && w.Ts[1].Equal(t.Add(time.Hour)), "list of times mapped back")
	sym.Assert(w.T.Format(time.RFC3339) == t.Format(time.RFC3339) && w.PT.Format(time.RFC3339) == t.Format(time.RFC3339), "times mapped back in another zone")
	sym.Reach("done")
}

// C23_lists reflects lists of texts.
//
//sym:both len=1 time=5
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach done
func C23_lists() {
	type cfg struct {
		A []string
		B []string `delim:"|"`
		C []string `ini:"c,omitempty"`
		I []int
		U []uint64
		T []bool
	}
	var a, b []string
	var is []int
	for i := sym.Choose(3); i > 0; i-- {
		v := sym.StrIn(sym.Param("len", 2), "ab \"'=#;[1")
		sym.Assume(strings.TrimSpace(v) == v)
		a = append(a, v)
		is = append(is, int(v[0])-64)
	}
	for i := sym.Choose(2); i > 0; i-- {
		v := sym.StrIn(1, ",a/#\"x1")
		b = append(b, v, "z")
	}
	c := cfg{A: a, B: b, C: b, I: is, U: []uint64{1<<64 - 1, 0}, T: []bool{true, false}}
	for _, x := range b {
		if x == "," {
			c.C = nil
		}
	}
	_, w := back(ini.LoadOptions{}, &c)
	sym.Assert(eqStrs(w.A, a), "list mapped back")
	sym.Assert(eqStrs(w.B, b), "list with another delimiter mapped back")
	sym.Assert(eqStrs(w.C, c.C), "list with omitempty mapped back")
	sym.Assert(eqList(w.I, is) && eqList(w.U, c.U) && eqList(w.T, c.T), "lists of numbers mapped back")
	sym.Reach("done")
}

// C23_shadows reflects lists into keys with shadows.
//
//sym:both len=1 time=60
//sym:thorough len=2 time=300
//sym:reach done
func C23_shadows() {
	type cfg struct {
		A []string `ini:"a,omitempty,allowshadow" comment:"note"`
		I []int64  `ini:"i,,allowshadow"`
	}
	o := ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: sym.Choose(2) == 1}
	var c cfg
	for i := sym.Choose(4); i > 0; i-- {
		v := sym.StrIn(sym.Param("len", 1), "ab#;|=")
		if !o.AllowDuplicateShadowValues {
			for _, x := range c.A {
				sym.Assume(x != v)
			}
		}
		c.A = append(c.A, v)
		c.I = append(c.I, int64(i))
	}
	f, w := back(o, &c)
	sym.Assert(eqStrs(w.A, c.A), "list mapped back from shadows")
	sym.Assert(eqList(w.I, c.I), "list of numbers mapped back from shadows")
	for _, s := range f.Sections() {
		if s.HasKey("a") {
			sym.Assert(eqStrs(s.Key("a").ValueWithShadows(), c.A), "shadows")
			sym.Assert(s.KeysHash()["a"] == c.A[0], "KeysHash")
			sym.Assert(s.Key("a").Comment == "note", "comment of the field")
		}
	}
	sym.Reach("done")
}

type leaf struct {
	N int
	S string `ini:"text"`
}

type Emb struct {
	E string
}

type nest struct {
	Leaf  leaf `comment:"about"`
	Other leaf `ini:"other name"`
	Ptr   *leaf
	Nil   *leaf `ini:",omitempty"`
	No    leaf  `ini:"-"`
	Emb   `ini:",extends"`
	Plain string `comment:"; of plain"`
}

// C23_tree reflects sub-structs.
//
//sym:both len=0 time=15
//sym:both len=1 time=5
//sym:both len=2 time=60
//sym:thorough len=3 time=200
//sym:reach done
func C23_tree() {
	v := sym.Str(sym.Param("len", 2))
	sym.Assume(textual(v))
	n := int(sym.Byte())
	t := nest{Leaf: leaf{n, v}, Other: leaf{1, "x"}, Ptr: &leaf{-n, v}, No: leaf{5, "no"}, Emb: Emb{v}, Plain: v}
	f, w := back(ini.LoadOptions{}, &t)
	sym.Assert(w.Leaf == t.Leaf && w.Other == t.Other && *w.Ptr == *t.Ptr && w.Nil == nil, "sub-structs mapped back")
	sym.Assert(w.Emb == t.Emb && w.Plain == v, "fields mapped back")
	sym.Assert(w.No == leaf{} && !f.HasSection("No"), "an omitted field is reflected")
	sym.Assert(f.Section("Leaf").Comment == "about" && f.Section("Ptr").Comment == "", "section comment")
	sym.Reach("done")
}

// C23_over overwrites the keys there are.
//
//sym:both time=60
//sym:reach done
func C23_over() {
	type cfg struct {
		S string `comment:"new"`
		I int    `comment:"number"`
		L []string
		N []int
		P *int
		O string `ini:"o,omitempty"`
	}
	f := ini.Empty()
	s := f.Section("s")
	old := plain(sym.Str(2))
	for _, n := range []string{"S", "I", "L", "N", "P", "o", "more"} {
		s.NewKey(n, old)
	}
	s.Key("S").Comment = "# kept"
	v := sym.Str(sym.Choose(3))
	sym.Assume(textual(v))
	i := 5
	c := cfg{S: v, I: i, L: []string{"a", "b"}}
	if sym.Choose(2) == 1 {
		c.P = &i
		c.N = []int{1, 2}
	}
	if sym.Choose(2) == 1 {
		c.L = nil
	}
	sym.Assert(s.ReflectFrom(&c) == nil, "ReflectFrom fails")
	sym.Assert(len(s.Keys()) == 7, "number of keys")
	sym.Assert(s.Key("S").Value() == v && s.Key("S").Comment == "# kept", "string overwritten")
	sym.Assert(s.Key("I").Value() == "5" && s.Key("I").Comment == "number", "number overwritten")
	sym.Assert(s.Key("L").Value() == strings.Join(c.L, ","), "list overwritten")
	if c.P != nil {
		sym.Assert(s.Key("P").Value() == "5" && s.Key("N").Value() == "1,2", "pointer and list overwritten")
	} else {
		sym.Assert(s.Key("P").Value() == "" && s.Key("N").Value() == "", "empty pointer and list overwritten")
	}
	sym.Assert(s.Key("o").Value() == old && s.Key("more").Value() == old, "an omitted field is overwritten")
	var w cfg
	s.DeleteKey("o")
	sym.Assert(s.StrictMapTo(&w) == nil || c.P == nil, "StrictMapTo fails")
	sym.Assert(w.S == v && w.I == 5 && eqStrs(w.L, c.L), "mapped back")
	sym.Reach("done")
}

// C23_overShadows overwrites keys that have shadows.
//
//sym:both time=30
//sym:reach done
func C23_overShadows() {
	type cfg struct {
		A []string `ini:"a,,allowshadow" comment:"tag"`
		I []int64  `ini:"i,,allowshadow" comment:"tag"`
		P []string `ini:"p"`
	}
	f := ini.Empty(ini.LoadOptions{AllowShadows: true})
	s := f.Section("s")
	for i := 1 + sym.Choose(3); i > 0; i-- {
		for _, n := range []string{"a", "i"} {
			_, err := s.NewKey(n, string('0'+rune(i)))
			sym.Assert(err == nil, "NewKey")
		}
	}
	comment := "tag"
	if sym.Choose(2) == 1 {
		comment = "# old"
		s.Key("a").Comment = comment
	}
	s.NewKey("p", "x")
	var c cfg
	for i := sym.Choose(4); i > 0; i-- {
		c.A = append(c.A, sym.StrIn(1, "ab#;|=")+string('a'+rune(i)))
		c.I = append(c.I, int64(5+i))
	}
	c.P = c.A
	sym.Assert(s.ReflectFrom(&c) == nil, "ReflectFrom fails")
	sym.Assert(eqStrs(s.KeyStrings(), []string{"a", "i", "p"}), "the keys")
	sym.Assert(eqStrs(s.Key("a").ValueWithShadows(), c.A), "shadows overwritten")
	sym.Assert(len(s.Key("i").ValueWithShadows()) == len(c.I), "number of shadows")
	sym.Assert(s.Key("p").Value() == strings.Join(c.P, ","), "list overwritten")
	sym.Assert(s.Key("a").Comment == comment && s.Key("i").Comment == "tag" && s.Key("p").Comment == "", "comments")
	var w cfg
	sym.Assert(s.MapTo(&w) == nil && eqStrs(w.A, c.A) && eqList(w.I, c.I), "mapped back")
	sym.Reach("done")
}

// C23_mapper names the keys with the name mapper.
//
//sym:both time=30
//sym:reach done
func C23_mapper() {
	type cfg struct {
		FieldOne string
		Two      string `ini:"given"`
	}
	v := sym.Str(2)
	sym.Assume(textual(v))
	f := ini.Empty()
	mapper := []ini.NameMapper{ini.SnackCase, ini.TitleUnderscore, nil}[sym.Choose(3)]
	c := cfg{v, "2"}
	sym.Assert(ini.ReflectFromWithMapper(f, &c, mapper) == nil, "ReflectFromWithMapper fails")
	name := "FieldOne"
	if mapper != nil {
		name = mapper(name)
	}
	sym.Assert(eqStrs(f.Section("").KeyStrings(), []string{name, "given"}), "keys")
	sym.Assert(f.Section("").Key(name).Value() == v, "value")
	var w cfg
	g := reload(f, ini.LoadOptions{})
	g.NameMapper = mapper
	sym.Assert(g.MapTo(&w) == nil && w == c, "mapped back")
	sym.Assert(f.ReflectFrom(c) != nil, "reflecting a struct value")
	sym.Reach("done")
}

// C23_many reflects lists of structs into sections of the same name.
//
//sym:both n=2 time=30
//sym:thorough n=3 time=100
//sym:reach done
func C23_many() {
	type list struct {
		In []leaf `ini:"in,omitempty,,nonunique" comment:"of each"`
	}
	o := ini.LoadOptions{AllowNonUniqueSections: true}
	var l list
	for i := sym.Choose(sym.Param("n", 2) + 1); i > 0; i-- {
		v := sym.StrIn(1, "a;`[")
		l.In = append(l.In, leaf{10 * int(sym.ByteIn("\x00\x01\xff")) * sym.Choose(2), v})
	}
	f := ini.Empty(o)
	f.Section("").NewKey("k", "v")
	sym.Assert(f.ReflectFrom(&l) == nil, "ReflectFrom fails")
	if sym.Choose(2) == 1 {
		f = reload(f, o)
	}
	if len(l.In) == 0 {
		sym.Assert(!f.HasSection("in"), "an omitted list is reflected")
		sym.Stop()
	}
	all, err := f.SectionsByName("in")
	sym.Assert(err == nil && len(all) == len(l.In), "one section for each element")
	for _, s := range all {
		sym.Assert(strings.TrimLeft(s.Comment, "; ") == "of each", "section comment")
		sym.Assert(len(s.Keys()) == 2, "keys of an element")
	}
	var w list
	sym.Assert(f.StrictMapTo(&w) == nil && eqList(w.In, l.In), "list of structs mapped back")
	// through a section, replacing what is there
	var ps []*leaf
	for i := range l.In {
		ps = append(ps, &l.In[len(l.In)-1-i])
	}
	sym.Assert(f.Section("in").ReflectFrom(ps) == nil, "ReflectFrom of a list")
	sym.Assert(f.Section("other").ReflectFrom(l.In) != nil, "ReflectFrom of a list of structs that are not pointers")
	var back []leaf
	sym.Assert(f.Section("in").MapTo(&back) == nil && len(back) == len(ps), "list replaced")
	for i := range back {
		sym.Assert(back[i] == *ps[i], "element replaced")
	}
	sym.Reach("done")
}

// C23_nil reflects pointers to nothing.
//
//sym:both time=30
//sym:reach done
func C23_nil() {
	type cfg struct {
		P *leaf
		I *int
		N string
	}
	v := sym.Str(2)
	sym.Assume(textual(v))
	c := cfg{N: v}
	f := ini.Empty()
	sym.Assert(f.ReflectFrom(&c) == nil, "ReflectFrom fails")
	var w cfg
	sym.Assert(f.MapTo(&w) == nil, "MapTo fails")
	sym.Assert(w.N == v && w.I == nil && w.P == nil, "mapped back")
	sym.Reach("done")
}

type branch struct {
	X string
	N int
	L []string
}

// C23_child reflects structs into sections that inherit from each other.
//
//sym:both len=0 time=25
//sym:both len=1 time=60
//sym:both len=2 time=100
//sym:reach done
func C23_child() {
	type tree struct {
		Leaf  branch  `ini:"a.b"`
		Trunk branch  `ini:"a"`
		Twig  *branch `ini:"a.b.c"`
	}
	v, u := sym.Str(sym.Param("len", 1)), sym.Str(sym.Param("len", 1))
	sym.Assume(textual(v) && textual(u) && v != "" && u != "")
	t := tree{branch{v, 7, []string{"l", "m"}}, branch{u, -1, []string{"n"}}, &branch{"twig", 0, []string{"o"}}}
	f := ini.Empty()
	if sym.Choose(2) == 1 {
		f.Section("a").NewKey("X", "old")
		f.Section("a").NewKey("only", "old")
	}
	n := len(f.Sections())
	sym.Assert(f.ReflectFrom(&t) == nil, "ReflectFrom fails")
	for _, name := range []string{"a", "a.b", "a.b.c"} {
		sym.Assert(has(strings.Join(f.Section(name).KeyStrings(), ","), "X,") && has(strings.Join(f.Section(name).KeyStrings(), ","), "N,L"), "a field has no key of its own")
	}
	if n == 2 {
		sym.Assert(f.Section("a").Key("only").Value() == "old", "another key changes")
	}
	if sym.Choose(2) == 1 {
		f = reload(f, ini.LoadOptions{})
	}
	var w tree
	sym.Assert(f.MapTo(&w) == nil, "MapTo fails")
	for _, p := range [][2]*branch{{&t.Leaf, &w.Leaf}, {&t.Trunk, &w.Trunk}, {t.Twig, w.Twig}} {
		sym.Assert(p[0].X == p[1].X && p[0].N == p[1].N && strings.Join(p[0].L, ",") == strings.Join(p[1].L, ","), "a struct mapped back")
	}
	sym.Reach("done")
}

// C23_delims reflects lists with delimiters of any kind; the last element may end with a part of the delimiter.
//
//sym:both len=1 time=60
//sym:thorough len=2 time=200
//sym:reach done
func C23_delims() {
	type cfg struct {
		A []string `delim:"::"`
		B []string `delim:" and "`
		C []string `delim:"é"`
		N []int    `delim:"--"`
	}
	var c cfg
	for i := sym.Choose(3); i >= 0; i-- {
		v := sym.StrIn(sym.Param("len", 1), ":and-x\xc3\xa9,")
		sym.Assume(i == 0 || v[len(v)-1] != ':')
		sym.Assume(len(c.A) == 0 || v[0] != ':')
		c.A = append(c.A, v)
		sym.Assume(v[len(v)-1] < 128 && v[0] < 128) // a value is text
		c.B = append(c.B, v)
		c.C = append(c.C, v)
		c.N = append(c.N, int(v[0]))
	}
	_, w := back(ini.LoadOptions{}, &c)
	sym.Assert(eqStrs(w.A, c.A), "list with two signs between")
	sym.Assert(eqStrs(w.B, c.B), "list with a word between")
	sym.Assert(eqStrs(w.C, c.C), "list with a character between")
	sym.Assert(eqList(w.N, c.N), "list of numbers mapped back")
	sym.Reach("done")
}

// C23_omit leaves out the fields that are empty, and them only.
//
//sym:both time=60
//sym:reach done
func C23_omit() {
	type cfg struct {
		S  string        `ini:"s,omitempty"`
		I  int           `ini:"i,omitempty"`
		U  uint16        `ini:"u,omitempty"`
		F  float64       `ini:"f,omitempty"`
		B  bool          `ini:"b,omitempty"`
		D  time.Duration `ini:"d,omitempty"`
		T  time.Time     `ini:"t,omitempty"`
		L  []string      `ini:"l,omitempty"`
		PI *int          `ini:"pi,omitempty"`
		PB *bool         `ini:"pb,omitempty"`
		PF *float64      `ini:"pf,omitempty"`
		PS *string       `ini:"ps,omitempty"`
		PD *int64        `ini:"pd,omitempty"`
		Z  int           `ini:"z"`
	}
	var c cfg
	var want []string
	b := int(sym.ByteIn("\x00\x01\x02\xff"))
	set := func(name string, full bool) {
		if full {
			want = append(want, name)
		}
	}
	flip := sym.Choose(2) == 1
	if sym.Choose(2) == 1 {
		c.S, c.U, c.B, c.T = sym.Str(1), uint16(b), b == 1, time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
		sym.Assume(textual(c.S))
		if flip {
			c.F, c.L = 0.5, []string{"x"}
		}
	}
	if sym.Choose(2) == 1 {
		c.I, c.D = b-1, 1500*time.Millisecond
	}
	if sym.Choose(2) == 1 {
		x, y, z, s, d := b, b == 2, float64(sym.Choose(3)), "", int64(b)
		if flip {
			s = "p"
		}
		c.PI, c.PB, c.PF, c.PS, c.PD = &x, &y, &z, &s, &d
	}
	set("s", c.S != "")
	set("i", c.I != 0)
	set("u", c.U != 0)
	set("f", c.F != 0)
	set("b", c.B)
	set("d", c.D != 0)
	set("t", !c.T.IsZero())
	set("l", len(c.L) > 0)
	set("pi", c.PI != nil)
	set("pb", c.PB != nil)
	set("pf", c.PF != nil)
	set("ps", c.PS != nil)
	set("pd", c.PD != nil)
	want = append(want, "z")
	f, w := back(ini.LoadOptions{}, &c)
	s := f.Section("")
	if !s.HasKey("z") {
		s = f.Section("s")
	}
	sym.Assert(eqStrs(s.KeyStrings(), want), "the keys that are reflected")
	sym.Assert(w.S == c.S && w.I == c.I && w.U == c.U && w.F == c.F && w.B == c.B && w.D == c.D && w.T.Equal(c.T) && eqStrs(w.L, c.L), "mapped back")
	if c.PI != nil {
		sym.Assert(*w.PI == *c.PI && *w.PB == *c.PB && *w.PF == *c.PF && *w.PS == *c.PS && *w.PD == *c.PD, "pointers mapped back")
	} else {
		sym.Assert(w.PI == nil && w.PB == nil && w.PF == nil && w.PD == nil, "nil pointers mapped back")
	}
	sym.Reach("done")
}

// C23_options has the options of a tag in any place.
//
//sym:both time=60
//sym:reach done
func C23_options() {
	type cfg struct {
		A    string   `ini:",,omitempty"`
		B    string   `ini:"b,,,,omitempty"`
		C    []string `ini:"c,,,,allowshadow"`
		D    []int    `ini:"d,allowshadow,,omitempty"`
		Es   []leaf   `ini:"e,,,,nonunique"`
		Fs   []leaf   `ini:"f,nonunique,omitempty"`
		*Emb `ini:",,,,extends"`
		G    string `ini:"g,omitempty,allowshadow,nonunique,extends"`
	}
	v := sym.Str(1)
	sym.Assume(textual(v))
	c := cfg{A: v, Emb: &Emb{v}}
	if sym.Choose(2) == 1 {
		c.A, c.B, c.G = "", v, v
	}
	c.Fs = []leaf{{1, "f"}}
	c.C = []string{"12", "3"}
	if sym.Choose(2) == 1 {
		c.D = []int{4, int(sym.Byte())}
		sym.Assume(c.D[1] != 4)
	}
	c.Es = []leaf{{1, "x"}, {2, v}}
	o := ini.LoadOptions{AllowShadows: true, AllowNonUniqueSections: true}
	f := ini.Empty(o)
	sym.Assert(f.ReflectFrom(&c) == nil, "ReflectFrom fails")
	s := f.Section("")
	sym.Assert(s.HasKey("A") == (c.A != ""), "omitempty in the second place")
	sym.Assert(s.HasKey("b") == (c.B != ""), "omitempty in the last place")
	sym.Assert(s.HasKey("d") == (len(c.D) > 0), "omitempty after another option")
	sym.Assert(s.HasKey("g") == (c.G != ""), "omitempty before other options")
	sym.Assert(s.HasKey("E") && !f.HasSection("Emb"), "extends in the last place")
	sym.Assert(eqStrs(s.Key("c").ValueWithShadows(), c.C), "allowshadow in the last place")
	if sym.Choose(2) == 1 {
		f = reload(f, o)
	}
	var w cfg
	err := f.StrictMapTo(&w)
	if err != nil {
		sym.Fail(err.Error())
	}
	sym.Assert(w.A == c.A && w.B == c.B && w.G == c.G && w.Emb != nil && w.E == v, "texts mapped back")
	sym.Assert(eqStrs(w.C, c.C) && eqList(w.D, c.D), "lists mapped back")
	sym.Assert(eqList(w.Es, c.Es) && eqList(w.Fs, c.Fs), "lists of structs mapped back")
	sym.Reach("done")
}

// itself reflects itself.
type itself struct {
	V string
}

func (x itself) ReflectINIStruct(f *ini.File) error {
	if x.V == "" {
		return errRead
	}
	_, err := f.Section("by itself").NewKey("v", x.V)
	return err
}

// C23_reflector has fields that reflect themselves.
//
//sym:both len=0 time=7
//sym:both len=1 time=30
//sym:reach done refused
func C23_reflector() {
	type cfg struct {
		A string
		I itself
		P *itself `ini:"p,omitempty"`
		N itself  `ini:"-"`
		Z string
	}
	v := sym.Str(sym.Choose(sym.Param("len", 1) + 1))
	sym.Assume(textual(v))
	c := cfg{A: "a", I: itself{v}, N: itself{"n"}, Z: "z"}
	if sym.Choose(2) == 1 {
		c.I, c.P = itself{"before"}, &itself{v}
	}
	f := ini.Empty()
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	err := s.ReflectFrom(&c)
	if v == "" {
		sym.Assert(err == errRead, "the error of a field is lost")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "ReflectFrom fails")
	sym.Assert(eqStrs(s.KeyStrings(), []string{"A", "Z"}), "the other fields")
	sym.Assert(eqStrs(f.Section("by itself").KeyStrings(), []string{"v"}) && f.Section("by itself").Key("v").Value() == v, "a field does not reflect itself")
	sym.Assert(!f.HasSection("I") && !f.HasSection("p") && !f.HasSection("N"), "a field is reflected twice")
	sym.Reach("done")
}

// C23_kinds leaves out the empty fields of every type.
//
//sym:both time=30
//sym:reach done
func C23_kinds() {
	type cfg struct {
		I8  int8            `ini:"i8,omitempty"`
		I16 int16           `ini:"i16,omitempty"`
		I32 int32           `ini:"i32,omitempty"`
		I64 int64           `ini:"i64,omitempty"`
		U   uint            `ini:"u,omitempty"`
		U32 uint32          `ini:"u32,omitempty"`
		U64 uint64          `ini:"u64,omitempty"`
		F32 float32         `ini:"f32,omitempty"`
		LI  []int           `ini:"li,omitempty"`
		LU  []uint64        `ini:"lu,omitempty"`
		LF  []float64       `ini:"lf,omitempty"`
		LB  []bool          `ini:"lb,omitempty"`
		LT  []time.Time     `ini:"lt,omitempty"`
		PT  *time.Time      `ini:"pt,omitempty"`
		PU  *uint32         `ini:"pu,omitempty"`
		Sub struct{ K int } `ini:"sub"`
		Z   int             `ini:"z"`
	}
	var c cfg
	var want []string
	b := []byte{0, 1, 0x7f}[sym.Choose(3)]
	full := func(name string, is bool) {
		if is {
			want = append(want, name)
		}
	}
	at := time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
	if sym.Choose(2) == 1 {
		c.I8, c.I16, c.I32, c.I64 = int8(b), -int16(b), int32(b)<<16, int64(b)<<40
	}
	if sym.Choose(2) == 1 {
		c.U, c.U32, c.U64 = uint(b), uint32(b)<<16, uint64(b)<<40
		c.PU = &c.U32
	}
	if sym.Choose(2) == 1 {
		c.F32, c.LI, c.LU, c.LF = 0.25, []int{0}, []uint64{uint64(b), 0}, []float64{0, 1.5}
	}
	if sym.Choose(2) == 1 {
		c.LB, c.LT, c.PT = []bool{false}, []time.Time{at}, &at
	}
	full("i8", c.I8 != 0)
	full("i16", c.I16 != 0)
	full("i32", c.I32 != 0)
	full("i64", c.I64 != 0)
	full("u", c.U != 0)
	full("u32", c.U32 != 0)
	full("u64", c.U64 != 0)
	full("f32", c.F32 != 0)
	full("li", c.LI != nil)
	full("lu", c.LU != nil)
	full("lf", c.LF != nil)
	full("lb", c.LB != nil)
	full("lt", c.LT != nil)
	full("pt", c.PT != nil)
	full("pu", c.PU != nil)
	want = append(want, "z")
	f, w := back(ini.LoadOptions{}, &c)
	s := f.Section("")
	if !s.HasKey("z") {
		s = f.Section("s")
	}
	sym.Assert(eqStrs(s.KeyStrings(), want), "the keys that are reflected")
	sym.Assert(w.I8 == c.I8 && w.I16 == c.I16 && w.I32 == c.I32 && w.I64 == c.I64 && w.U == c.U && w.U32 == c.U32 && w.U64 == c.U64 && w.F32 == c.F32, "mapped back")
	sym.Assert(len(w.LI) == len(c.LI) && len(w.LU) == len(c.LU) && len(w.LF) == len(c.LF) && len(w.LB) == len(c.LB) && len(w.LT) == len(c.LT), "lists mapped back")
	if len(c.LU) > 0 {
		sym.Assert(w.LU[0] == c.LU[0] && w.LF[1] == 1.5, "lists mapped back")
	}
	sym.Assert((w.PT == nil) == (c.PT == nil) && (w.PU == nil) == (c.PU == nil), "pointers mapped back")
	if c.PU != nil {
		sym.Assert(*w.PU == *c.PU, "pointers mapped back")
	}
	if c.PT != nil {
		sym.Assert(w.PT.Equal(at) && w.LT[0].Equal(at), "times mapped back")
	}
	sym.Reach("done")
}

// C23_likeTime has structs and times with misleading names, embedded pointers and lists of pointers.
//
//sym:both time=40
//sym:reach done
func C23_likeTime() {
	type cfg struct {
		A Time
		P *Time
		T time.Time
		*Level
		L []*Time `ini:"l,omitempty,,nonunique"`
	}
	v := sym.Str(1)
	sym.Assume(textual(v))
	l := Level(5)
	c := cfg{A: Time{1, v}, T: time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC), Level: &l}
	if sym.Choose(2) == 1 {
		c.P = &Time{2, v}
	}
	for i := sym.Choose(3); i > 0; i-- {
		c.L = append(c.L, &Time{i, v})
	}
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	sym.Assert(f.ReflectFrom(&c) == nil, "ReflectFrom fails")
	var w cfg
	sym.Assert(f.StrictMapTo(&w) == nil, "StrictMapTo fails")
	sym.Assert(w.A == c.A && w.T.Equal(c.T) && w.Level != nil && *w.Level == l, "mapped back")
	sym.Assert((w.P == nil) == (c.P == nil) && (w.P == nil || *w.P == *c.P), "pointer to a struct mapped back")
	sym.Assert(len(w.L) == len(c.L), "list of pointers mapped back")
	for i := range w.L {
		sym.Assert(*w.L[i] == *c.L[i], "element mapped back")
	}
	sym.Reach("done")
}

// C23_targets reflects what cannot be reflected.
//
//sym:both time=10
//sym:reach done
func C23_targets() {
	n := 1
	l := Level(2)
	type noMap struct{ M map[string]int }
	type extends struct {
		*Level `ini:",extends"`
	}
	type list struct{ L []leaf }
	type shadowed struct {
		L []leaf `ini:",,allowshadow"`
	}
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: sym.Choose(2) == 1, AllowShadows: true})
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	for _, v := range []interface{}{n, &n, leaf{}, []leaf{{}}, &[]*leaf{}, (*leaf)(nil), []*leaf{nil}, &noMap{}, &list{[]leaf{{}}}, &shadowed{[]leaf{{}}}, nil} {
		sym.Assert(s.ReflectFrom(v) != nil, "reflecting what cannot be reflected")
	}
	sym.Assert(s.ReflectFrom(&extends{&l}) == nil, "an embedded pointer to a number")
	sym.Reach("done")
}

// C23_default reflects into the default section, whatever the options make of
// its name: its other keys and its place in the file stay.
//
//sym:both time=20
//sym:reach done file section
func C23_default() {
	type cfg struct {
		A string
		N int `ini:"n"`
	}
	o := ini.LoadOptions{AllowNonUniqueSections: sym.Choose(2) == 1}
	switch sym.Choose(3) {
	case 1:
		o.Insensitive = true
	case 2:
		o.InsensitiveSections = true
	}
	v := sym.Str(1)
	sym.Assume(textual(v))
	f := ini.Empty(o)
	_, err := f.Section("").NewKey("other", v)
	sym.Assert(err == nil, "NewKey")
	_, err = f.Section("s").NewKey("k", v)
	sym.Assert(err == nil, "NewKey")
	f.Section("").Comment = "# c"
	names := f.SectionStrings()
	c := cfg{v, 7}
	if sym.Choose(2) == 1 {
		sym.Assert(f.ReflectFrom(&c) == nil, "ReflectFrom fails")
		sym.Reach("file")
	} else {
		sym.Assert(f.Section(ini.DefaultSection).ReflectFrom(&c) == nil, "ReflectFrom fails")
		sym.Reach("section")
	}
	sym.Assert(eqStrs(f.SectionStrings(), names), "the sections are in another order")
	d := f.Section("")
	sym.Assert(len(d.Keys()) == 3 && d.HasKey("other") && d.Key("other").Value() == v, "another key of the default section is lost")
	sym.Assert(d.Comment == "# c", "the comment of the default section is lost")
	sym.Assert(d.Key("A").Value() == v && d.Key("n").Value() == "7", "the values are not reflected")
	sym.Assert(f.Section("s").Key("k").Value() == v, "another section changed")
	sym.Reach("done")
}
