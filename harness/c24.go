package harness

import (
	"strconv"
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// env24 is what the goroutines share: the file, a section and a key that were looked up before.
type env24 struct {
	f *ini.File
	s *ini.Section
	k *ini.Key
}

// setup24 makes the file anew.
func setup24(kind int) *env24 {
	o := ini.LoadOptions{}
	text := "[s]\nk=1\nj=2\n"
	switch kind {
	case 1:
		o.AllowNonUniqueSections = true
		text = "[s]\nk=1\nj=2\n[t]\n[s]\nk=3\n"
	case 2:
		o.AllowShadows = true
	case 3:
		o.Insensitive = true
		text = "[S]\nk=1\nJ=2\n"
	case 4:
		o.AllowShadows, o.AllowDuplicateShadowValues, o.AllowNestedValues = true, true, true
		text = "k=1\n[s]\nk=1\nk=1\nj=\n  x\n[s.c]\n"
	}
	f, err := ini.LoadSources(o, []byte(text))
	sym.Assert(err == nil, "load")
	sym.Assert(f.BlockMode, "block mode is not the default")
	s := f.Section("s")
	return &env24{f, s, s.Key("k")}
}

// state24 is everything that can be read in the end.
func (e *env24) state24() string {
	r := ""
	for _, s := range e.f.Sections() {
		r += "[" + s.Name() + "]" + keys24(s)
	}
	r += "\n" + strings.Join(e.f.SectionStrings(), ",") + "\n" + keys24(e.s) + "\n" + e.k.Value() + strings.Join(e.k.ValueWithShadows(), ",")
	return r + strings.Join(e.k.NestedValues(), ",")
}

func keys24(s *ini.Section) string {
	r := ""
	h := s.KeysHash()
	r += strconv.Itoa(len(h))
	for _, k := range s.Keys() {
		r += k.Name() + "=" + strings.Join(k.ValueWithShadows(), ",") + "/" + h[k.Name()] + ";"
	}
	return r
}

func found24(err error) string {
	if err != nil {
		return "no"
	}
	return "yes"
}

func names24(l []*ini.Section) string {
	r := ""
	for _, s := range l {
		r += s.Name() + ","
	}
	return r
}

func bool24(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

const (
	sections24 = 14
	keys24n    = 20
)

// op24 is one call; v is any value, n a name that exists or not.
func (e *env24) op24(op int, n, v string) string {
	switch op {
	case 0:
		s, err := e.f.NewSection(n)
		return found24(err) + s.Name()
	case 1:
		e.f.DeleteSection(n)
	case 2:
		return e.f.Section(n).Name()
	case 3:
		return bool24(e.f.HasSection(n))
	case 4:
		return strings.Join(e.f.SectionStrings(), ",")
	case 5:
		return names24(e.f.Sections())
	case 6:
		l, err := e.f.SectionsByName(n)
		return found24(err) + names24(l)
	case 7:
		return names24(e.f.ChildSections("s"))
	case 8:
		return found24(e.f.DeleteSectionWithIndex(n, 0))
	case 9:
		return e.f.SectionWithIndex(n, 0).Name()
	case 10:
		_, err := e.f.GetSection(n)
		return found24(err)
	case 11:
		return found24(e.f.DeleteSectionWithIndex(n, 1))
	case 12:
		return names24(e.s.ChildSections())
	case 13:
		_, err := e.f.NewSection("s." + n)
		return found24(err)

	case 14:
		k, err := e.s.NewKey(n, v)
		return found24(err) + bool24(k != nil)
	case 15:
		return e.s.Key(n).Name()
	case 16:
		return bool24(e.s.HasKey(n))
	case 17:
		_, err := e.s.GetKey(n)
		return found24(err)
	case 18:
		return strings.Join(e.s.KeyStrings(), ",")
	case 19:
		r := ""
		for _, k := range e.s.Keys() {
			r += k.Name() + ","
		}
		return r
	case 20:
		h := e.s.KeysHash()
		return strconv.Itoa(len(h)) + "," + h["k"] + "," + h["s"] + "," + h["n"]
	case 21:
		e.s.DeleteKey(n)
	case 22:
		return bool24(e.s.HasValue(v))
	case 23:
		e.k.SetValue(v)
	case 24:
		return e.k.Value()
	case 25:
		return e.k.String()
	case 26:
		return strings.Join(e.k.ValueWithShadows(), ",")
	case 27:
		return found24(e.k.AddShadow(v))
	case 28:
		return found24(e.k.AddNestedValue(v))
	case 29:
		return strings.Join(e.k.NestedValues(), ",")
	case 30:
		_, err := e.s.NewBooleanKey("b")
		return found24(err)
	case 31:
		i, err := e.k.Int()
		return strconv.Itoa(i) + found24(err)
	case 32:
		return e.k.Name() + e.s.Name()
	case 33:
		return strings.Join(e.k.Strings(","), ",")
	}
	return ""
}

// call24 is one call with its arguments.
type call24 struct {
	op   int
	n, v string
}

// anyCall24 is any call of the group: 0 sections, 1 keys, 2 both.
func anyCall24(group int, v string) call24 {
	var op int
	switch group {
	case 0:
		op = sym.Choose(sections24)
	case 1:
		op = sections24 + sym.Choose(keys24n)
	case 2:
		op = sym.Choose(sections24 + keys24n)
	}
	n := "s"
	switch op {
	case 14, 15, 16, 17, 21:
		n = []string{"k", "n"}[sym.Choose(2)]
	case 0, 1, 2, 3, 6, 8, 9, 10, 11:
		n = []string{"s", "n"}[sym.Choose(2)]
	}
	return call24{op, n, v}
}

// merges calls f with every order of the calls that keeps the order within each goroutine.
func merges(calls [][]call24, f func(order []int)) {
	at := make([]int, len(calls))
	var order []int
	var rec func()
	rec = func() {
		end := true
		for t := range calls {
			if at[t] < len(calls[t]) {
				end = false
				at[t]++
				order = append(order, t)
				rec()
				order = order[:len(order)-1]
				at[t]--
			}
		}
		if end {
			f(order)
		}
	}
	rec()
}

// atomic24 runs the calls concurrently and compares what they return and what is left with every sequential order.
func atomic24(kind int, calls [][]call24) {
	e := setup24(kind)
	res := make([][]string, len(calls))
	fs := make([]func(), len(calls))
	for t := range calls {
		t := t
		out := make([]string, len(calls[t]))
		res[t] = out
		fs[t] = func() {
			for i, c := range calls[t] {
				out[i] = e.op24(c.op, c.n, c.v)
			}
		}
	}
	sym.Par(fs...)
	end := e.state24()
	fits := false
	merges(calls, func(order []int) {
		x := setup24(kind)
		at := make([]int, len(calls))
		same := true
		for _, t := range order {
			c := calls[t][at[t]]
			same = sym.And(same, x.op24(c.op, c.n, c.v) == res[t][at[t]])
			at[t]++
		}
		fits = sym.Or(fits, sym.And(same, x.state24() == end))
	})
	sym.Assert(fits, "the outcome is not that of a sequential order")
	sym.Reach("done")
}

func value24() string { return sym.StrIn(1, "12x") }

// C24_sections lets two goroutines do any calls on sections.
//
//sym:both a=1 b=1 time=30
//sym:thorough a=2 b=1 time=200
//sym:reach done
func C24_sections() {
	kind := sym.Choose(5)
	calls := [][]call24{nil, nil}
	for t, p := range []string{"a", "b"} {
		for n := sym.Param(p, 1); n > 0; n-- {
			calls[t] = append(calls[t], anyCall24(0, "v"))
		}
	}
	atomic24(kind, calls)
}

// C24_keys lets two goroutines do any calls on one section and one key.
//
//sym:both a=1 b=1 time=30
//sym:thorough a=2 b=1 time=300
//sym:reach done
func C24_keys() {
	kind := sym.Choose(5)
	calls := [][]call24{nil, nil}
	for t, p := range []string{"a", "b"} {
		for n := sym.Param(p, 1); n > 0; n-- {
			calls[t] = append(calls[t], anyCall24(1, value24()))
		}
	}
	atomic24(kind, calls)
}

// C24_mixed lets one goroutine work on sections while the other works on keys.
//
//sym:both a=1 b=1 time=30
//sym:thorough a=2 b=1 time=200
//sym:thorough a=1 b=2 time=200
//sym:reach done
func C24_mixed() {
	kind := sym.Choose(5)
	calls := [][]call24{nil, nil}
	for t, p := range []string{"a", "b"} {
		for n := sym.Param(p, 1); n > 0; n-- {
			calls[t] = append(calls[t], anyCall24(t, value24()))
		}
	}
	atomic24(kind, calls)
}

// C24_three lets three goroutines change things.
//
//sym:both kinds=1 calls=7 time=30
//sym:thorough kinds=3 calls=11 time=200
//sym:reach done
func C24_three() {
	kind := sym.Choose(sym.Param("kinds", 1))
	mut := []call24{{0, "n", ""}, {1, "s", ""}, {2, "s", ""}, {14, "n", "7"}, {20, "", ""}, {21, "k", ""}, {23, "", "8"}, {4, "", ""}, {15, "n", ""}, {24, "", ""}, {18, "", ""}}
	var calls [][]call24
	for t := 0; t < 3; t++ {
		calls = append(calls, []call24{mut[sym.Choose(sym.Param("calls", 7))]})
	}
	atomic24(kind, calls)
}

// C24_compound lets one goroutine make calls that take several steps, such as looking for inherited keys and
// expanding references, while another changes things: there is no data race, no deadlock and no panic.
//
//sym:both others=1 time=30
//sym:thorough others=2 time=200
//sym:reach done
func C24_compound() {
	f, err := ini.LoadSources(ini.LoadOptions{AllowNonUniqueSections: sym.Choose(2) == 1}, []byte("d=3\n[s]\nk=%(j)s%(d)s\nj=2\nt=1,x\n[s.c]\nl=%(j)s\n"))
	sym.Assert(err == nil, "load")
	e := &env24{f, f.Section("s"), f.Section("s").Key("k")}
	c := f.Section("s.c")
	l, t := c.Key("l"), e.s.Key("t")
	op := sym.Choose(14)
	calls := []call24{}
	for n := sym.Param("others", 1); n > 0; n-- {
		calls = append(calls, []call24{{0, "n", ""}, {1, "s", ""}, {1, "", ""}, {14, "j", "7"}, {21, "j", ""}, {23, "", "8"}, {14, "d", "1"}, {2, "s", ""}}[sym.Choose(8)])
	}
	sym.Par(func() {
		switch op {
		case 0:
			_, err := c.GetKey("k")
			_ = err
		case 1:
			c.HasKey("none")
		case 2:
			c.ParentKeys()
		case 3:
			_ = e.k.String()
		case 4:
			_ = l.String()
		case 5:
			e.k.MustInt(5)
		case 6:
			t.Ints(",")
			t.ValidInts(",")
		case 7:
			c.Key("none").SetValue("x")
		case 8:
			c.Key("j").SetValue("x")
		case 9:
			l.MustString("d")
			l.In("a", []string{"b"})
			l.RangeInt(1, 2, 3)
		case 10:
			_ = f.NewSections("n", "s", "m")
		case 11:
			f.ChildSections("none")
		case 12:
			var x struct {
				K string `ini:"k"`
				L []int  `ini:"t"`
			}
			_ = e.s.MapTo(&x)
		case 13:
			_ = f.Section("s").Key("k").Value()
			f.Section("").Key("z").SetValue("1")
		}
	}, func() {
		for _, x := range calls {
			e.op24(x.op, x.n, x.v)
		}
	})
	for _, s := range f.Sections() {
		ks := s.Keys()
		h := s.KeysHash()
		sym.Assert(len(ks) == len(h) && len(ks) == len(s.KeyStrings()), "keys and KeysHash differ")
		for _, k := range ks {
			sym.Assert(k != nil && h[k.Name()] == k.Value(), "a key and KeysHash differ")
		}
	}
	sym.Reach("done")
}
