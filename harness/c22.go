package harness

import (
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"verif/sym"
)

type level int

// kinds has a field of every kind that can be mapped.
type kinds struct {
	S    string
	B    bool
	I    int
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	L    level
	U    uint
	U16  uint16
	U32  uint32
	U64  uint64
	F    float64
	F32  float32
	D    time.Duration
	T    time.Time
	PS   *string
	PB   *bool
	PI   *int
	PI8  *int8
	PU   *uint16
	PF   *float64
	PD   *time.Duration
	PT   *time.Time
	Ss   []string
	Is   []int
	I64s []int64
	Us   []uint
	U64s []uint64
	Fs   []float64
	Bs   []bool
	Ts   []time.Time
	skip string
	No   string `ini:"-"`
	Tag  int    `ini:"tagged"`
	Bar  []int  `delim:"|"`
}

func oldKinds() kinds {
	s, b, i, i8, u, f := "old", true, 11, int8(12), uint16(13), 1.5
	d, t := time.Second, time.Unix(77, 0).UTC()
	return kinds{S: "old", B: true, I: 1, I8: 2, I16: 3, I32: 4, I64: 5, L: 6, U: 7, U16: 8, U32: 9, U64: 10, F: 2.5, F32: 3.5, D: time.Minute, T: t,
		PS: &s, PB: &b, PI: &i, PI8: &i8, PU: &u, PF: &f, PD: &d, PT: &t,
		Ss: []string{"old"}, Is: []int{1}, I64s: []int64{2}, Us: []uint{3}, U64s: []uint64{4}, Fs: []float64{5}, Bs: []bool{true}, Ts: []time.Time{t},
		skip: "old", No: "old", Tag: 14, Bar: []int{15}}
}

func eqList[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqPtr[T comparable](a, b *T) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func sameKinds(a, b *kinds, what string) {
	sym.Assert(a.S == b.S, what+": string field")
	sym.Assert(a.B == b.B, what+": bool field")
	sym.Assert(a.I == b.I && a.I8 == b.I8 && a.I16 == b.I16 && a.I32 == b.I32 && a.I64 == b.I64 && a.L == b.L, what+": int field")
	sym.Assert(a.U == b.U && a.U16 == b.U16 && a.U32 == b.U32 && a.U64 == b.U64, what+": uint field")
	sym.Assert(math.Float64bits(a.F) == math.Float64bits(b.F) && math.Float32bits(a.F32) == math.Float32bits(b.F32), what+": float field")
	sym.Assert(a.D == b.D, what+": duration field")
	sym.Assert(a.T.Equal(b.T), what+": time field")
	sym.Assert(eqPtr(a.PS, b.PS), what+": string pointer")
	sym.Assert(eqPtr(a.PB, b.PB), what+": bool pointer")
	sym.Assert(eqPtr(a.PI, b.PI) && eqPtr(a.PI8, b.PI8) && eqPtr(a.PU, b.PU), what+": number pointer")
	sym.Assert(eqPtr(a.PF, b.PF), what+": float pointer")
	sym.Assert(eqPtr(a.PD, b.PD), what+": duration pointer")
	sym.Assert((a.PT == nil) == (b.PT == nil) && (a.PT == nil || a.PT.Equal(*b.PT)), what+": time pointer")
	sym.Assert(eqList(a.Ss, b.Ss), what+": strings")
	sym.Assert(eqList(a.Is, b.Is) && eqList(a.I64s, b.I64s) && eqList(a.Us, b.Us) && eqList(a.U64s, b.U64s), what+": numbers")
	sym.Assert(eqList(a.Fs, b.Fs), what+": floats")
	sym.Assert(eqList(a.Bs, b.Bs), what+": bools")
	sym.Assert(len(a.Ts) == len(b.Ts), what+": times")
	for i := range a.Ts {
		sym.Assert(a.Ts[i].Equal(b.Ts[i]), what+": time")
	}
	sym.Assert(a.skip == b.skip && a.No == b.No, what+": field that is not mapped")
	sym.Assert(a.Tag == b.Tag, what+": tagged field")
	sym.Assert(eqList(a.Bar, b.Bar), what+": list with another delimiter")
}

// setInt is what the text of a number does to a field of the given limits.
func setInt(v string, old, lo, hi int64, ok *bool) int64 {
	x, good := signedNumber(v)
	if !good || x < lo || x > hi {
		*ok = false
		return old
	}
	return x
}

func setUint(v string, old, hi uint64, ok *bool) uint64 {
	x, form, fits := number(v)
	if !form || !fits || x > hi {
		*ok = false
		return old
	}
	return x
}

// setKind gives the field of that name the value of the text; false when the text has no such value.
func setKind(k *kinds, name, v string) bool {
	ok := true
	switch name {
	case "S":
		if v != "" {
			k.S = v
		}
	case "B", "PB":
		if ok = oneOf(v, truths...) || oneOf(v, lies...); ok {
			b := oneOf(v, truths...)
			if name == "B" {
				k.B = b
			} else {
				k.PB = &b
			}
		}
	case "I":
		k.I = int(setInt(v, int64(k.I), math.MinInt64, math.MaxInt64, &ok))
	case "I8":
		k.I8 = int8(setInt(v, int64(k.I8), -128, 127, &ok))
	case "I16":
		k.I16 = int16(setInt(v, int64(k.I16), -1<<15, 1<<15-1, &ok))
	case "I32":
		k.I32 = int32(setInt(v, int64(k.I32), -1<<31, 1<<31-1, &ok))
	case "I64":
		k.I64 = setInt(v, k.I64, math.MinInt64, math.MaxInt64, &ok)
	case "L":
		k.L = level(setInt(v, int64(k.L), math.MinInt64, math.MaxInt64, &ok))
	case "tagged":
		k.Tag = int(setInt(v, int64(k.Tag), math.MinInt64, math.MaxInt64, &ok))
	case "U":
		k.U = uint(setUint(v, uint64(k.U), math.MaxUint64, &ok))
	case "U16":
		k.U16 = uint16(setUint(v, uint64(k.U16), 1<<16-1, &ok))
	case "U32":
		k.U32 = uint32(setUint(v, uint64(k.U32), 1<<32-1, &ok))
	case "U64":
		k.U64 = setUint(v, k.U64, math.MaxUint64, &ok)
	case "PS":
		k.PS = &v
	case "PI":
		i := int(setInt(v, 0, math.MinInt64, math.MaxInt64, &ok))
		if ok {
			k.PI = &i
		}
	case "PI8":
		i := int8(setInt(v, 0, -128, 127, &ok))
		if ok {
			k.PI8 = &i
		}
	case "PU":
		i := uint16(setUint(v, 0, 1<<16-1, &ok))
		if ok {
			k.PU = &i
		}
	case "F", "F32", "PF":
		x, err := strconv.ParseFloat(v, 64)
		if ok = err == nil; !ok {
			break
		}
		switch name {
		case "F":
			k.F = x
		case "F32":
			if x > math.MaxFloat32 && x <= math.MaxFloat64 || -x > math.MaxFloat32 && -x <= math.MaxFloat64 {
				ok = false
			} else {
				k.F32 = float32(x)
			}
		case "PF":
			k.PF = &x
		}
	case "D", "PD":
		d, err := time.ParseDuration(v)
		if err != nil {
			x, good := signedNumber(v)
			if !good {
				ok = false
				break
			}
			d = time.Duration(x)
		}
		if name == "PD" {
			k.PD = &d
		} else {
			k.D = d
		}
	case "T", "PT":
		t, err := time.Parse(time.RFC3339, v)
		if ok = err == nil; ok {
			if name == "T" {
				k.T = t
			} else {
				k.PT = &t
			}
		}
	case "Ss":
		if p := refSplit(v, ","); len(p) > 0 {
			k.Ss = p
		}
	case "Is", "I64s", "Bar":
		delim := ","
		if name == "Bar" {
			delim = "|"
		}
		p := refSplit(v, delim)
		if len(p) == 0 {
			break
		}
		var is []int
		var is64 []int64
		for _, x := range p {
			i := setInt(x, 0, math.MinInt64, math.MaxInt64, &ok)
			is, is64 = append(is, int(i)), append(is64, i)
		}
		switch name {
		case "Is":
			k.Is = is
		case "Bar":
			k.Bar = is
		default:
			k.I64s = is64
		}
	case "Us", "U64s":
		p := refSplit(v, ",")
		if len(p) == 0 {
			break
		}
		var us []uint
		var us64 []uint64
		for _, x := range p {
			u := setUint(x, 0, math.MaxUint64, &ok)
			us, us64 = append(us, uint(u)), append(us64, u)
		}
		if name == "Us" {
			k.Us = us
		} else {
			k.U64s = us64
		}
	case "Fs":
		p := refSplit(v, ",")
		if len(p) == 0 {
			break
		}
		var fs []float64
		for _, x := range p {
			f, err := strconv.ParseFloat(x, 64)
			if err != nil {
				ok, f = false, 0
			}
			fs = append(fs, f)
		}
		k.Fs = fs
	case "Bs":
		p := refSplit(v, ",")
		if len(p) == 0 {
			break
		}
		var bs []bool
		for _, x := range p {
			t := oneOf(x, truths...)
			ok = ok && (t || oneOf(x, lies...))
			bs = append(bs, t)
		}
		k.Bs = bs
	case "Ts":
		p := refSplit(v, ",")
		if len(p) == 0 {
			break
		}
		var ts []time.Time
		for _, x := range p {
			t, err := time.Parse(time.RFC3339, x)
			if err != nil {
				ok, t = false, time.Time{}
			}
			ts = append(ts, t)
		}
		k.Ts = ts
	}
	return ok
}

func checkMap(f *ini.File, s *ini.Section, name, v string) {
	k, _ := s.NewKey(name, v)
	sym.Assert(k != nil, "NewKey")
	got, want := oldKinds(), oldKinds()
	ok := setKind(&want, name, v)
	err := s.MapTo(&got)
	sym.Assert(err == nil, "MapTo fails")
	sameKinds(&got, &want, "MapTo "+name)
	got = oldKinds()
	err = s.StrictMapTo(&got)
	sym.Assert((err == nil) == ok, "StrictMapTo of "+name+": error")
	if ok {
		sym.Reach("value")
		sameKinds(&got, &want, "StrictMapTo "+name)
	} else {
		sym.Reach("no value")
	}
	sym.Assert(k.Value() == v && len(s.Keys()) == 1, "mapping changes the section")
}

var scalarNames = []string{"S", "B", "I", "I8", "I16", "I32", "I64", "L", "U", "U16", "U32", "U64", "PS", "PB", "PI", "PI8", "PU", "tagged"}

// C22_scalars maps any short text to every kind of plain field.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=60
//sym:both len=3 time=60
//sym:thorough len=4 time=300
//sym:reach value no&value
func C22_scalars() {
	f := ini.Empty()
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	checkMap(f, s, scalarNames[sym.Choose(len(scalarNames))], plain(sym.Str(sym.Param("len", 2))))
}

// C22_limits maps numbers around the limits of the fields.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach value no&value
func C22_limits() {
	names := []string{"I8", "I16", "I32", "I64", "I", "PI8", "U16", "U32", "U64", "U", "PU", "PI"}
	heads := []string{"1", "327", "2147483", "92233720368547758", "92233720368547758", "1", "655", "4294967", "184467440737095516", "184467440737095516", "655", "-92233720368547758"}
	i := sym.Choose(len(names))
	sign := []string{"", "-"}[sym.Choose(2)]
	f := ini.Empty()
	checkMap(f, f.Section(""), names[i], sign+heads[i]+sym.StrIn(sym.Param("len", 2), "0123456789"))
}

// C22_lists maps short texts to lists.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=60
//sym:both len=3 time=60
//sym:thorough len=4 time=300
//sym:reach value no&value
func C22_lists() {
	names := []string{"Ss", "Is", "I64s", "Us", "U64s", "Bs", "Bar"}
	f := ini.Empty()
	checkMap(f, f.Section("s"), names[sym.Choose(len(names))], sym.StrIn(sym.Param("len", 2), ",|-01yx \\"))
}

// C22_floats maps texts to floating point fields.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach value no&value
func C22_floats() {
	names := []string{"F", "F32", "PF", "Fs"}
	f := ini.Empty()
	v := []string{"", "1e3", "-3.4", "3.41e3"}[sym.Choose(4)] + sym.StrIn(sym.Param("len", 2), "-.e18,9")
	checkMap(f, f.Section("s"), names[sym.Choose(len(names))], v)
}

// C22_times maps texts to durations and times.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach value no&value
func C22_times() {
	f := ini.Empty()
	s := f.Section("s")
	if sym.Choose(2) == 0 {
		checkMap(f, s, []string{"D", "PD"}[sym.Choose(2)], []string{"", "1", "-2"}[sym.Choose(3)]+sym.StrIn(sym.Param("len", 2), "-.0158hmsx"))
		return
	}
	v := "2001-0" + sym.StrIn(1, "0129") + "-" + sym.StrIn(2, "0239") + "T00:00:00Z"
	checkMap(f, s, []string{"T", "PT", "Ts"}[sym.Choose(3)], v+[]string{"", ",", "x", ",2020-02-02T02:02:02Z"}[sym.Choose(4)])
}

// C22_none maps a section that has no key for any field, and keys that belong to no field.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=100
//sym:reach done
func C22_none() {
	f := ini.Empty()
	n := sym.Str(sym.Param("len", 2))
	for _, x := range append([]string{"D", "F", "F32", "PD", "PF", "PT", "T", "Ts", "Ss", "Is", "I64s", "Us", "U64s", "Bs", "Bar", "Fs"}, scalarNames...) {
		sym.Assume(n != x)
	}
	s := f.Section("s")
	s.NewKey(n, "x")
	s.NewKey("No", "new")
	s.NewKey("skip", "new")
	s.NewKey("Tag", "99")
	s.NewKey("-", "new")
	f.Section("").NewKey("I", "5")
	f.Section("t").NewKey("S", "other")
	got, want := oldKinds(), oldKinds()
	sym.Assert(s.MapTo(&got) == nil, "MapTo fails")
	sameKinds(&got, &want, "MapTo without keys")
	sym.Assert(s.StrictMapTo(&got) == nil, "StrictMapTo fails")
	sameKinds(&got, &want, "StrictMapTo without keys")
	sym.Reach("done")
}

type inner struct {
	A int
	B string `ini:"bee"`
}

type Base struct {
	X int
}

type outer struct {
	A      int
	In     inner
	Other  inner `ini:"other"`
	P      *inner
	Q      *inner
	hidden inner
	Base   `ini:",extends"`
}

// C22_nested maps sub-structs from the sections of their names.
//
//sym:both len=1 time=60
//sym:thorough len=2 time=200
//sym:reach done
func C22_nested() {
	n := sym.Param("len", 1)
	f := ini.Empty()
	val := func() string { return sym.StrIn(n, "07x-") }
	names := []string{"In", "other", "P", "Q", "hidden", "Other"}
	want := outer{A: 1, In: inner{2, "b"}, Other: inner{3, "c"}, P: &inner{4, "d"}, Base: Base{5}}
	got := outer{A: 1, In: inner{2, "b"}, Other: inner{3, "c"}, P: &inner{4, "d"}, Base: Base{5}}
	ok := true
	set := func(dst *int, v string) { *dst = int(setInt(v, int64(*dst), math.MinInt64, math.MaxInt64, &ok)) }
	root := f.Section([]string{"", "root"}[sym.Choose(2)])
	if sym.Choose(2) == 1 {
		v := val()
		root.NewKey("A", v)
		set(&want.A, v)
	}
	if sym.Choose(2) == 1 {
		v := val()
		root.NewKey("X", v)
		set(&want.X, v)
	}
	for i := 0; i < 2; i++ {
		name := names[sym.Choose(len(names))]
		if f.HasSection(name) {
			sym.Stop()
		}
		v, w := val(), val()
		f.Section(name).NewKey("A", v)
		f.Section(name).NewKey("bee", w)
		f.Section(name).NewKey("B", "no")
		var dst *inner
		switch name {
		case "In":
			dst = &want.In
		case "other":
			dst = &want.Other
		case "P":
			dst = want.P
		case "Q":
			want.Q = &inner{}
			dst = want.Q
		default:
			continue
		}
		set(&dst.A, v)
		dst.B = w
	}
	sym.Assert(root.MapTo(&got) == nil, "MapTo fails")
	sym.Assert(got.A == want.A && got.X == want.X, "fields of the root")
	sym.Assert(got.In == want.In && got.Other == want.Other && got.hidden == want.hidden, "sub-structs")
	sym.Assert(eqPtr(got.P, want.P) && eqPtr(got.Q, want.Q), "pointers to sub-structs")
	err := root.StrictMapTo(&got)
	sym.Assert((err == nil) == ok, "StrictMapTo: error")
	sym.Reach("done")
}

// C22_mapper finds fields by tag first, then by the name mapper.
//
//sym:both time=30
//sym:reach done
func C22_mapper() {
	type cfg struct {
		FieldOne string
		Two      string   `ini:"given,omitempty"`
		List     []string `ini:"list,omitempty,allowshadow"`
	}
	mapper := []ini.NameMapper{nil, ini.SnackCase, ini.TitleUnderscore, func(string) string { return "same" }}[sym.Choose(4)]
	one := []string{"FieldOne", "FIELD_ONE", "field_one", "same"}
	f := ini.Empty(ini.LoadOptions{AllowShadows: true})
	v := plain(sym.Str(2))
	for _, n := range one {
		f.Section("").NewKey(n, "of "+n)
	}
	f.Section("").NewKey("Two", "no")
	f.Section("").NewKey("given", v)
	f.Section("").NewKey("list", "a,b")
	f.Section("").NewKey("list", "c")
	f.NameMapper = mapper
	want := "of FieldOne"
	if mapper != nil {
		want = "of " + mapper("FieldOne")
	}
	var c cfg
	sym.Assert(f.MapTo(&c) == nil, "MapTo fails")
	sym.Assert(c.FieldOne == want, "field found by its name")
	sym.Assert(c.Two == v, "field found by its tag")
	sym.Assert(eqStrs(c.List, []string{"a", "b", "c"}), "list with shadows")
	var d cfg
	sym.Assert(ini.MapToWithMapper(&d, mapper, []byte(one[0]+"=of FieldOne\n"+one[1]+"=of FIELD_ONE\n"+one[2]+"=of field_one\nsame=of same\ngiven=w")) == nil, "MapToWithMapper fails")
	sym.Assert(d.FieldOne == want && d.Two == "w", "MapToWithMapper")
	sym.Reach("done")
}

// C22_wrong maps onto things that are no pointers to structs, and fields of types that have no text.
//
//sym:both time=20
//sym:reach done
func C22_wrong() {
	f := ini.Empty()
	v := plain(sym.Str(1))
	f.Section("").NewKey("M", v)
	f.Section("").NewKey("C", v)
	sym.Assert(f.MapTo(kinds{}) != nil, "mapping onto a struct value")
	sym.Assert(f.StrictMapTo(kinds{}) != nil, "mapping onto a struct value")
	var m struct{ M map[string]string }
	sym.Assert(f.MapTo(&m) != nil, "mapping onto a map")
	var c struct{ C complex128 }
	sym.Assert(f.MapTo(&c) != nil, "mapping onto a complex number")
	var l struct{ C []int8 }
	err := f.MapTo(&l)
	sym.Assert((err == nil) == (len(refSplit(v, ",")) == 0), "mapping onto a list of bytes")
	sym.Reach("done")
}

// C22_slice maps sections of the same name onto a list of structs.
//
//sym:both n=2 time=30
//sym:thorough n=3 time=100
//sym:reach done
func C22_slice() {
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	type list struct {
		In []inner `ini:"in,,,nonunique"`
	}
	n := sym.Choose(sym.Param("n", 2) + 1)
	var want []inner
	valid := true
	for i := 0; i < n; i++ {
		s, _ := f.NewSection("in")
		v := sym.StrIn(2, "07x-")
		s.NewKey("A", v)
		w := inner{}
		ok := true
		w.A = int(setInt(v, 0, math.MinInt64, math.MaxInt64, &ok))
		valid = valid && ok
		want = append(want, w)
		f.NewSection("other")
	}
	var l list
	err := f.MapTo(&l)
	sym.Assert(err == nil, "MapTo fails")
	if n == 0 {
		sym.Assert(l.In == nil && f.StrictMapTo(&l) == nil && l.In == nil, "no section of that name")
		l.In = []inner{{A: 7}}
		sym.Assert(f.MapTo(&l) == nil && len(l.In) == 1 && l.In[0].A == 7, "no section of that name changes the list")
		sym.Stop()
	}
	sym.Assert(eqList(l.In, want), "list of structs")
	var is []inner
	sym.Assert(f.Section("in").MapTo(&is) == nil, "MapTo of a section")
	sym.Assert(eqList(is, want), "list of structs from a section")
	var sl list
	err = f.StrictMapTo(&sl)
	sym.Assert((err == nil) == valid && (err != nil || eqList(sl.In, want)), "StrictMapTo")
	var ss []inner
	err = f.Section("in").StrictMapTo(&ss)
	sym.Assert((err == nil) == valid && (err != nil || eqList(ss, want)), "StrictMapTo of a section")
	sym.Reach("done")
}

// C22_expanded maps what the references of the values expand to.
//
//sym:both time=30
//sym:reach done
func C22_expanded() {
	f := ini.Empty()
	v := plain(sym.StrIn(2, "07x-,"))
	f.Section("").NewKey("n", v)
	s := f.Section("s")
	s.NewKey("I", "%(n)s")
	s.NewKey("S", "<%(n)s>")
	s.NewKey("Is", "1,%(n)s")
	got, want := oldKinds(), oldKinds()
	setKind(&want, "I", v)
	setKind(&want, "S", "<"+v+">")
	setKind(&want, "Is", "1,"+v)
	sym.Assert(s.MapTo(&got) == nil, "MapTo fails")
	sameKinds(&got, &want, "MapTo of references")
	sym.Assert(strings.HasPrefix(s.Key("S").Value(), "<%"), "mapping expands the stored value")
	sym.Reach("done")
}

// C22_package maps sources directly, with and without a mapper, strictly or not.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=60
//sym:reach mapped refused
func C22_package() {
	type sub struct{ N int }
	type cfg struct {
		AnInt  int
		List   []int `ini:"list"`
		Sub    sub   `ini:"part"`
		NotSet int
	}
	v := sym.StrIn(sym.Param("len", 2), "1-x, ")
	at := sym.Choose(3)
	texts := []string{"5", "5", "5"}
	texts[at] = v
	mapper := []ini.NameMapper{nil, ini.SnackCase, func(s string) string { return "<" + s + ">" }}[sym.Choose(3)]
	name, n := "AnInt", "N"
	if mapper != nil {
		name, n = mapper(name), mapper(n)
	}
	one, two := []byte(name+"="+texts[0]+"\nlist=7"), []byte("list="+texts[1]+"\n[part]\n"+n+"="+texts[2])
	bad := sym.Choose(2) == 1
	if bad {
		two = []byte("[part")
	}
	c := cfg{AnInt: 1, NotSet: 4, List: []int{9}, Sub: sub{8}}
	var err error
	strict := sym.Choose(2) == 1
	switch {
	case strict && (mapper != nil || sym.Choose(2) == 1):
		err = ini.StrictMapToWithMapper(&c, mapper, one, two)
	case strict:
		err = ini.StrictMapTo(&c, one, two)
	case mapper != nil || sym.Choose(2) == 1:
		err = ini.MapToWithMapper(&c, mapper, one, two)
	default:
		err = ini.MapTo(&c, one, two)
	}
	if bad {
		sym.Assert(err != nil && c.AnInt == 1 && c.Sub.N == 8 && len(c.List) == 1 && c.List[0] == 9, "a source that cannot be read")
		sym.Reach("refused")
		return
	}
	f, lerr := ini.Load(one, two)
	sym.Assert(lerr == nil, "Load fails")
	want := cfg{AnInt: 1, NotSet: 4, List: []int{9}, Sub: sub{8}}
	i, e1 := f.Section("").Key(name).Int()
	l, e2 := f.Section("").Key("list").StrictInts(",")
	j, e3 := f.Section("part").Key(n).Int()
	sym.Assert((err != nil) == (strict && (e1 != nil || e2 != nil || e3 != nil)), "error")
	if err != nil {
		sym.Reach("refused")
		return
	}
	if e1 == nil {
		want.AnInt = i
	}
	if l = f.Section("").Key("list").Ints(","); len(l) > 0 {
		want.List = l
	}
	if e3 == nil {
		want.Sub.N = j
	}
	sym.Assert(c.AnInt == want.AnInt && c.NotSet == 4 && c.Sub == want.Sub && len(c.List) == len(want.List), "fields")
	for i := range c.List {
		sym.Assert(c.List[i] == want.List[i], "list")
	}
	sym.Reach("mapped")
}

// C22_delims splits lists at other delimiters.
//
//sym:both len=2 time=10
//sym:both len=3 time=10
//sym:both len=4 time=10
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=5 time=40
//sym:thorough len=7 time=200
//sym:reach one more
func C22_delims() {
	var c struct {
		A []string `delim:"::"`
		B []string `delim:":"`
		C []int    `delim:" , "`
		D []string `delim:""`
	}
	v := plain(sym.StrIn(sym.Param("len", 5), ":a, "))
	f := ini.Empty()
	_, err := f.Section("").NewKey("A", v)
	sym.Assert(err == nil, "NewKey")
	f.Section("").Key("B").SetValue(v)
	f.Section("").Key("C").SetValue("1 , 2")
	f.Section("").Key("D").SetValue(v)
	sym.Assert(f.MapTo(&c) == nil, "MapTo")
	sym.Assert(eqStrs(c.A, refSplit(v, "::")), "a delimiter of two characters")
	sym.Assert(eqStrs(c.B, refSplit(v, ":")), "another delimiter")
	sym.Assert(eqStrs(c.D, refSplit(v, ",")), "the usual delimiter")
	sym.Assert(len(c.C) == 2 && c.C[0] == 1 && c.C[1] == 2, "a delimiter with spaces")
	if len(c.A) > 1 {
		sym.Reach("more")
	} else {
		sym.Reach("one")
	}
}

type (
	Level int
	Words []string
)

// C22_embedded maps embedded fields of every sort, which may hold something already.
//
//sym:both len=0 time=10
//sym:both len=1 time=40
//sym:thorough len=3 time=100
//sym:reach there missing
func C22_embedded() {
	type inner struct {
		*Level `ini:"Level"`
		X      string
	}
	type cfg struct {
		*Emb
		Words  `ini:"words,,,,extends"`
		*Level `ini:",extends"`
		inner  // not exported: not mapped
		Z      string
	}
	type extended struct {
		*Emb `ini:",extends"`
		Z    string
	}
	v := plain(sym.StrIn(sym.Param("len", 1), "a1-"))
	f := ini.Empty()
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	put := func(s *ini.Section, name string) bool {
		if sym.Choose(2) == 0 {
			sym.Reach("missing")
			return false
		}
		_, err := s.NewKey(name, v)
		sym.Assert(err == nil, "NewKey")
		sym.Reach("there")
		return true
	}
	hasW, hasL, hasE := put(s, "words"), put(s, "Level"), put(s, "E")
	named := sym.Choose(2) == 1 // a section of the name of every embedded field
	inSection := false
	if named {
		sym.Assert(f.NewSections("words", "Level", "inner") == nil, "NewSections")
		inSection = put(f.Section("Emb"), "E")
	}
	l := Level(7)
	full := sym.Choose(2) == 1
	c := cfg{Z: "z"}
	e := extended{Z: "z"}
	if full {
		c = cfg{Emb: &Emb{"old"}, Words: Words{"old"}, Level: &l, Z: "z"}
		e.Emb = &Emb{"old"}
	}
	sym.Assert(s.MapTo(&c) == nil && s.MapTo(&e) == nil, "MapTo")
	sym.Assert(c.Z == "z" && e.Z == "z" && c.inner == inner{}, "a field without a key")
	x, ok := signedNumber(v)
	switch {
	case hasL && ok:
		sym.Assert(c.Level != nil && int64(*c.Level) == x, "embedded pointer to a number")
	case full:
		sym.Assert(c.Level != nil && *c.Level == 7, "embedded pointer to a number: the old one")
	default:
		sym.Assert(c.Level == nil, "embedded pointer to a number: none")
	}
	switch {
	case hasW && v != "":
		sym.Assert(len(c.Words) == 1 && c.Words[0] == v, "embedded list")
	case full:
		sym.Assert(len(c.Words) == 1 && c.Words[0] == "old", "embedded list: the old one")
	default:
		sym.Assert(len(c.Words) == 0, "embedded list: none")
	}
	want := func(has bool) string {
		if has && v != "" {
			return v
		}
		if full {
			return "old"
		}
		return ""
	}
	if c.Emb != nil {
		sym.Assert(c.E == want(inSection), "embedded struct")
	} else {
		sym.Assert(want(inSection) == "", "embedded struct: none")
	}
	if e.Emb != nil {
		sym.Assert(e.E == want(hasE), "extended struct")
	} else {
		sym.Assert(want(hasE) == "", "extended struct: none")
	}
}

// Time is a struct of its own, not a time.Time.
type Time struct {
	H int
	S string `ini:"s"`
}

// C22_likeTime has structs and times with misleading names.
//
//sym:both time=40
//sym:reach done
func C22_likeTime() {
	type cfg struct {
		A Time
		P *Time
		T time.Time
		Q *time.Time
		L []*Time `ini:"l,,,nonunique"`
		M []Time  `ini:"l,,,nonunique"`
	}
	v := plain(sym.StrIn(2, "0123456789x-"))
	o := ini.LoadOptions{AllowNonUniqueSections: sym.Choose(2) == 1}
	f := ini.Empty(o)
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	at := "2001-02-03T04:05:06Z"
	for _, n := range []string{"T", "Q"} {
		_, err := s.NewKey(n, at)
		sym.Assert(err == nil, "NewKey")
		if sym.Choose(2) == 1 {
			_, err = f.NewSection(n)
			sym.Assert(err == nil, "NewSection")
		}
	}
	for _, n := range []string{"A", "P", "l", "l"} {
		sec, err := f.NewSection(n)
		sym.Assert(err == nil, "NewSection")
		_, err = sec.NewKey("H", v)
		sym.Assert(err == nil, "NewKey")
		_, err = sec.NewKey("s", "text")
		sym.Assert(err == nil, "NewKey")
	}
	c := cfg{}
	err := s.MapTo(&c)
	sym.Assert(err == nil, "MapTo")
	x, ok := signedNumber(v)
	if !ok {
		x = 0
	}
	want := Time{int(x), "text"}
	moment := time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	sym.Assert(c.A == want && c.P != nil && *c.P == want, "structs called Time")
	sym.Assert(c.T.Equal(moment) && c.Q != nil && c.Q.Equal(moment), "times beside sections of their names")
	n := 1
	if o.AllowNonUniqueSections {
		n = 2
	}
	sym.Assert(len(c.L) == n && len(c.M) == n, "lists of sections")
	for i := range c.L {
		sym.Assert(*c.L[i] == want && c.M[i] == want, "element of a list")
	}
	sym.Assert((s.StrictMapTo(&cfg{}) == nil) == ok, "StrictMapTo")
	var l []*Time
	sym.Assert(f.Section("l").MapTo(&l) == nil && len(l) == n && *l[0] == want, "list of pointers")
	sym.Reach("done")
}

// C22_targets maps to what is no struct.
//
//sym:both time=10
//sym:reach done
func C22_targets() {
	f, err := ini.LoadSources(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("N=1\nL=1\n[L]\n[s]\nN=2\n"))
	sym.Assert(err == nil, "load")
	s := f.Section([]string{"", "s"}[sym.Choose(2)])
	n, text := 1, "t"
	px := &n
	var nums []int
	var deep [][]Time
	var lists struct {
		L []int `ini:"L,,,nonunique"`
	}
	for _, v := range []interface{}{Time{}, n, text, &n, &text, &px, (*Time)(nil), &nums, &deep, &lists, map[string]int{}, []Time{}, nil} {
		if s.Name() != "DEFAULT" && v == interface{}(&lists) {
			continue
		}
		sym.Assert(s.MapTo(v) != nil, "mapping to no struct")
		sym.Assert(s.StrictMapTo(v) != nil, "mapping strictly to no struct")
	}
	sym.Assert(n == 1 && text == "t" && len(nums) == 0 && len(deep) == 0 && len(lists.L) == 0, "mapping to no struct sets something")
	sym.Reach("done")
}

// C22_repeated maps the structs inside of a list of structs: the n-th from the n-th section.
//
//sym:quick n=2 time=40
//sym:thorough n=3 time=100
//sym:reach mapped short none
func C22_repeated() {
	type deep struct {
		S    string `ini:"text"`
		Deep struct {
			D string
		} `ini:"deep"`
	}
	type elem struct {
		A      string
		Sub    deep `ini:"sub"`
		Emb    `ini:"emb,,,,extends"`
		Ignore *leaf
	}
	type cfg struct {
		In []*elem `ini:"in,,,nonunique"`
		Z  string
	}
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	f.Section("").NewKey("Z", "z")
	v := plain(sym.StrIn(1, "a1-"))
	size := sym.Param("n", 2)
	add := func(name, key string, least int) int {
		n := least + sym.Choose(size+1-least)
		for i := 0; i < n; i++ {
			s, err := f.NewSection(name)
			sym.Assert(err == nil, "NewSection")
			_, err = s.NewKey(key, v+string(rune('0'+i)))
			sym.Assert(err == nil, "NewKey")
		}
		return n
	}
	n, subs, embs, deeps := add("in", "A", 1), add("sub", "text", 0), add("in.emb", "E", 0), add("deep", "D", 0)
	own := sym.Choose(2) == 1
	if own {
		in, err := f.SectionsByName("in")
		sym.Assert(err == nil && len(in) == n, "SectionsByName")
		for _, s := range in {
			s.NewKey("E", "own")
		}
	}
	var c cfg
	var err error
	if sym.Choose(2) == 0 {
		err = f.MapTo(&c)
	} else {
		err = f.StrictMapTo(&c)
	}
	if subs > 0 && (subs < n || deeps > 0 && deeps < n) {
		sym.Assert(err != nil, "not enough sections")
		sym.Reach("short")
		return
	}
	sym.Assert(err == nil && c.Z == "z", "MapTo")
	sym.Assert(len(c.In) == n, "elements of the list")
	for i, e := range c.In {
		sym.Assert(e.A == v+string(rune('0'+i)) && e.Ignore == nil, "elements of the list")
		if subs == 0 {
			sym.Assert(e.Sub == deep{}, "no section of that name")
			sym.Reach("none")
		} else {
			sym.Assert(e.Sub.S == v+string(rune('0'+i)), "the section of the same index")
			if deeps == 0 {
				sym.Assert(e.Sub.Deep.D == "", "no section of that name")
			} else {
				sym.Assert(e.Sub.Deep.D == v+string(rune('0'+i)), "the section of the same index inside of another one")
			}
		}
		want := ""
		if i < embs {
			want = v + string(rune('0'+i))
		} else if own {
			want = "own"
		}
		sym.Assert(e.E == want, "extended")
	}
	sym.Reach("mapped")
}

// C22_twins looks at structs of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C22_twins() { twins(twinRaw, "1a", seeMapped) }

type twin struct {
	K string `ini:"a"`
	L int    `ini:"b"`
}

// otherTwin is mapped onto another type of the same name.
func otherTwin(f *ini.File, strict bool) (string, int, error) {
	type twin struct {
		K string `ini:"b"`
		L int    `ini:"a"`
		M *twin  `ini:"s"`
	}
	var v twin
	var err error
	if strict {
		err = f.StrictMapTo(&v)
	} else {
		err = f.MapTo(&v)
	}
	if v.M != nil {
		sym.Assert(v.M.K == "in" && v.M.M == v.M.M, "sub-struct")
	}
	return v.K, v.L, err
}

// C22_same maps lists of two sections to the same struct, which leaves the lists mapped before as they are.
//
//sym:both time=30
//sym:reach done
func C22_same() {
	type cfg struct {
		L []int
		S []string
		F []float64
		B []bool
		D []time.Duration
		U []uint64
		T []time.Time
	}
	f := ini.Empty()
	d := []string{"1", "2"}
	for i, n := range []string{"a", "b"} {
		s := f.Section(n)
		for j := sym.Choose(3); j >= 0; j-- {
			x := d[i] + sym.StrIn(1, "07")
			for _, k := range []string{"L", "S", "F", "U"} {
				s.NewKey(k, s.Key(k).Value()+x+",")
			}
			s.NewKey("B", s.Key("B").Value()+[]string{"true", "false"}[i]+",")
			s.NewKey("D", s.Key("D").Value()+x+"s,")
			s.NewKey("T", s.Key("T").Value()+"20"+x+"-01-02T03:04:05Z,")
		}
	}
	var v, a, b cfg
	sym.Assert(f.Section("a").MapTo(&v) == nil && f.Section("a").MapTo(&a) == nil && f.Section("b").MapTo(&b) == nil, "MapTo")
	first := v
	sym.Assert(f.Section("b").MapTo(&v) == nil, "MapTo again")
	for i, p := range [][2]cfg{{first, a}, {v, b}} {
		what := []string{"the lists mapped before", "the lists mapped again"}[i]
		x, y := p[0], p[1]
		sym.Assert(len(x.L) > 0 && eqList(x.L, y.L) && eqList(x.S, y.S) && eqList(x.F, y.F) && eqList(x.B, y.B) && eqList(x.D, y.D) && eqList(x.U, y.U) && eqList(x.T, y.T), what)
	}
	sym.Reach("done")
}

// C22_twice maps onto two types of the same name and twice onto the same one.
//
//sym:both time=20
//sym:reach done
func C22_twice() {
	a, b := plain(sym.StrIn(1, "1x")), plain(sym.StrIn(1, "2y"))
	f, err := ini.Load([]byte("a=" + a + "\nb=" + b + "\n"))
	sym.Assert(err == nil, "load")
	ok := true
	na, nb := int(setInt(a, 0, math.MinInt64, math.MaxInt64, &ok)), int(setInt(b, 0, math.MinInt64, math.MaxInt64, &ok))
	check := func() {
		var v twin
		sym.Assert(f.MapTo(&v) == nil && v.K == a && v.L == nb, "the first type")
	}
	if sym.Choose(2) == 1 {
		check()
	}
	k, l, err := otherTwin(f, false)
	sym.Assert(err == nil && k == b && l == na, "the second type")
	_, _, err = otherTwin(f, true)
	okA := true
	setInt(a, 0, math.MinInt64, math.MaxInt64, &okA)
	sym.Assert((err == nil) == okA, "the second type, strict")
	check()
	f.NameMapper = func(n string) string { return "mapped" + n } // only for names that no tag gives
	check()
	type plainTwin struct{ A, B string }
	var v plainTwin
	sym.Assert(f.MapTo(&v) == nil && v.A == "" && v.B == "", "a mapper")
	f.Section("").NewKey("mappedA", b)
	sym.Assert(f.MapTo(&v) == nil && v.A == b && v.B == "", "a mapper")
	f.NameMapper = func(n string) string { return "a" }
	sym.Assert(f.MapTo(&v) == nil && v.A == a && v.B == a, "another mapper")
	f.NameMapper = nil
	f.Section("").NewKey("B", b)
	sym.Assert(f.MapTo(&v) == nil && v.A == a && v.B == b, "no mapper")
	sym.Reach("done")
}
