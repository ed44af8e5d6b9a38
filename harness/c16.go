package harness

import (
	"strconv"
	"time"

	"github.com/go-ini/ini"

	"verif/sym"
)

// C16_in picks among text candidates.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=4 time=100
//sym:thorough len=6 time=100
//sym:reach in out
func C16_in() {
	n := sym.Param("len", 2)
	v := plain(sym.Str(n))
	d := sym.Str(n)
	var cs []string
	for i := sym.Choose(4); i > 0; i-- {
		cs = append(cs, sym.Str(sym.Choose(2)*n))
	}
	f, k := keyWith(v)
	in := false
	for _, c := range cs {
		in = sym.Or(in, c == v)
	}
	got := k.In(d, cs)
	if in {
		sym.Reach("in")
		sym.Assert(got == v, "In does not give the value")
	} else {
		sym.Reach("out")
		sym.Assert(got == d, "In does not give the default")
	}
	sym.Assert(k.Value() == v && f.Section("s").KeysHash()["k"] == v, "In changes the value")
	k.SetValue("")
	sym.Assert(k.In(d, cs) == d || oneOf("", cs...), "In of an empty value")
	sym.Assert(k.Value() == "" && f.Section("s").KeysHash()["k"] == "", "In changes an empty value")
}

// someText is the text of a number, or some other text.
func someText(n int) string {
	if sym.Choose(2) == 0 {
		return []string{"9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "0x1F"}[sym.Choose(6)]
	}
	return plain(sym.Str(n))
}

// C16_ints picks and bounds integers.
//
//sym:both len=0 time=15
//sym:both len=1 time=60
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:thorough len=4 time=300
//sym:reach in out
func C16_ints() {
	v := someText(sym.Param("len", 1))
	f, k := keyWith(v)
	x, ok := signedNumber(v)
	d, lo, hi := sym.I64(), sym.I64(), sym.I64()
	want := d
	if ok && lo <= x && x <= hi {
		want = x
	}
	sym.Assert(k.RangeInt64(d, lo, hi) == want, "RangeInt64")
	sym.Assert(k.RangeInt(int(d), int(lo), int(hi)) == int(want), "RangeInt")
	want = d
	if ok && (x == lo || x == hi) {
		sym.Reach("in")
		want = x
	} else {
		sym.Reach("out")
	}
	sym.Assert(k.InInt64(d, []int64{lo, hi}) == want, "InInt64")
	sym.Assert(k.InInt(int(d), []int{int(lo), int(hi)}) == int(want), "InInt")
	sym.Assert(k.InInt(int(d), nil) == int(d) && k.InInt64(d, nil) == d, "InInt of nothing")

	ud, a, b := sym.U64(), sym.U64(), sym.U64()
	u, form, fits := number(v)
	uwant := ud
	if form && fits && (u == a || u == b) {
		uwant = u
	}
	sym.Assert(k.InUint64(ud, []uint64{a, b}) == uwant, "InUint64")
	sym.Assert(k.InUint(uint(ud), []uint{uint(a), uint(b)}) == uint(uwant), "InUint")
	sym.Assert(k.InUint(uint(ud), nil) == uint(ud) && k.InUint64(ud, nil) == ud, "InUint of nothing")
	sym.Assert(k.Value() == v && f.Section("s").KeysHash()["k"] == v, "a range changes the value")
}

// C16_floats picks and bounds floating point numbers.
//
//sym:both time=100
//sym:reach number other
func C16_floats() {
	d, lo, hi := sym.Float64(), sym.Float64(), sym.Float64()
	var v string
	var x float64
	ok := sym.Choose(2) == 0
	if ok {
		sym.Reach("number")
		if sym.Choose(2) == 0 {
			x = sym.Float64()
			v = strconv.FormatFloat(x, 'g', -1, 64)
		} else {
			v = []string{"nan", "inf", "-Inf", "0x1p-2", "1e308"}[sym.Choose(5)]
			x, _ = strconv.ParseFloat(v, 64)
		}
	} else {
		sym.Reach("other")
		v = []string{"", "x", "1e999", "-1e999", "1.5.", " 1"}[sym.Choose(6)]
	}
	_, k := keyWith(v)
	same := func(a, b float64) bool { return a == b || a != a && b != b }
	want := d
	if ok && lo <= x && x <= hi {
		want = x
	}
	sym.Assert(same(k.RangeFloat64(d, lo, hi), want), "RangeFloat64")
	want = d
	if ok && (x == lo || x == hi) {
		want = x
	}
	sym.Assert(same(k.InFloat64(d, []float64{lo, hi}), want), "InFloat64")
	sym.Assert(same(k.InFloat64(d, nil), d), "InFloat64 of nothing")
	sym.Assert(k.Value() == v, "a range changes the value")
}

// C16_times picks and bounds times.
//
//sym:both time=60
//sym:thorough wide=1 time=200
//sym:reach in out invalid
func C16_times() {
	v := "200" + sym.StrIn(1, "12") + "-0" + sym.StrIn(1, "123") + "-" + sym.StrIn(2, "0123") + "T00:00:00Z"
	if sym.Param("wide", 0) == 1 {
		v = "20" + sym.StrIn(2, "0123456789") + "-" + sym.StrIn(2, "012349") + "-" + sym.StrIn(1, "0123") + "1T00:00:00Z"
	}
	f, k := keyWith(v)
	d := time.Unix(5, 0).UTC()
	lo := time.Date(2001, 2, 3, 0, 0, 0, 0, time.UTC)
	hi := time.Date(2002, 1, 31, 0, 0, 0, 0, time.UTC)
	x, err := time.Parse(time.RFC3339, v)
	want, one := d, d
	if err != nil {
		sym.Reach("invalid")
	} else {
		if !x.Before(lo) && !x.After(hi) {
			sym.Reach("in")
			want = x
		} else {
			sym.Reach("out")
		}
		if x.Equal(lo) || x.Equal(hi) {
			one = x
		}
	}
	sym.Assert(k.RangeTime(d, lo, hi).Equal(want), "RangeTime")
	sym.Assert(k.RangeTimeFormat(time.RFC3339, d, lo, hi).Equal(want), "RangeTimeFormat")
	sym.Assert(k.InTime(d, []time.Time{lo, hi}).Equal(one), "InTime")
	sym.Assert(k.InTime(d, nil).Equal(d), "InTime of nothing")
	sym.Assert(k.InTimeFormat(time.RFC3339, d, []time.Time{hi, lo}).Equal(one), "InTimeFormat")
	sym.Assert(k.Value() == v && f.Section("s").KeysHash()["k"] == v, "a range changes the value")
	k.SetValue(v[:10])
	sym.Assert(k.RangeTimeFormat("2006-01-02", d, lo, hi).Equal(want), "RangeTimeFormat of a date")
	sym.Assert(k.InTimeFormat("2006-01-02", d, []time.Time{hi, lo}).Equal(one), "InTimeFormat of a date")
	sym.Assert(k.RangeTime(d, lo, hi).Equal(d), "RangeTime of no RFC 3339 time")
}

// C16_expanded looks at what the references of the value expand to.
//
//sym:both time=30
//sym:reach done
func C16_expanded() {
	f, k := keyWith("1%(n)s")
	n := plain(sym.StrIn(2, "0129x-"))
	f.Section("").NewKey("n", n)
	x, ok := signedNumber("1" + n)
	want := 7
	if ok && x >= 100 && x <= 122 {
		want = int(x)
	}
	sym.Assert(k.RangeInt(7, 100, 122) == want, "RangeInt of a reference")
	s := "other"
	if n == "00" || n == "xx" {
		s = "1" + n
	}
	sym.Assert(k.In("other", []string{"100", "1xx"}) == s, "In of a reference")
	sym.Assert(k.Value() == "1%(n)s", "a range changes the value")
	sym.Reach("done")
}

// C16_fractions picks and bounds times with fractions of a second and with zones.
//
//sym:both time=60
//sym:reach in out
func C16_fractions() {
	at := func() (string, time.Time) {
		ms := sym.StrIn(2, "059")
		h := sym.Choose(2)
		n := int(ms[0]-'0')*100 + int(ms[1]-'0')*10
		zone := []string{"Z", "+00:00", "+02:00"}[sym.Choose(3)]
		if zone == "+02:00" {
			return "2001-02-03T0" + itoa(6+h) + ":05:06." + ms + zone, time.Date(2001, 2, 3, 4+h, 5, 6, n*1000000, time.UTC)
		}
		return "2001-02-03T0" + itoa(4+h) + ":05:06." + ms + zone, time.Date(2001, 2, 3, 4+h, 5, 6, n*1000000, time.UTC)
	}
	v, x := at()
	_, lo := at()
	_, hi := at()
	f, k := keyWith(v)
	d := time.Unix(5, 0).UTC()
	want, one := d, d
	if !x.Before(lo) && !x.After(hi) {
		want = x
		sym.Reach("in")
	} else {
		sym.Reach("out")
	}
	if x.Equal(lo) || x.Equal(hi) {
		one = x
	}
	sym.Assert(k.RangeTime(d, lo, hi).Equal(want), "RangeTime")
	sym.Assert(k.RangeTimeFormat(time.RFC3339Nano, d, lo, hi).Equal(want), "RangeTimeFormat")
	sym.Assert(k.InTime(d, []time.Time{lo, hi}).Equal(one), "InTime")
	sym.Assert(k.InTimeFormat(time.RFC3339Nano, d, []time.Time{lo, hi}).Equal(one), "InTimeFormat")
	sym.Assert(k.Value() == v && f.Section("s").KeysHash()["k"] == v, "a range changes the value")
}

// C16_near has candidates and bounds close to large values.
//
//sym:both time=60
//sym:reach in out
func C16_near() {
	at := sym.Choose(4)
	v := []string{"9007199254740993", "9223372036854775807", "18446744073709551615", "4294967297"}[at]
	x := []uint64{9007199254740993, 9223372036854775807, 18446744073709551615, 4294967297}[at]
	_, k := keyWith(v)
	near := func() uint64 { return x ^ uint64(sym.Byte()) ^ uint64(sym.Choose(2))<<32 }
	a, b := near(), near()
	want := uint64(1)
	if x == a || x == b {
		want = x
		sym.Reach("in")
	} else {
		sym.Reach("out")
	}
	sym.Assert(k.InUint64(1, []uint64{a, b}) == want, "InUint64")
	sym.Assert(k.InUint(1, []uint{uint(a), uint(b)}) == uint(want), "InUint")
	if at == 2 {
		return
	}
	signed := int64(1)
	if int64(x) == int64(a) || int64(x) == int64(b) {
		signed = int64(x)
	}
	sym.Assert(k.InInt64(1, []int64{int64(a), int64(b)}) == signed, "InInt64")
	sym.Assert(k.InInt(1, []int{int(a), int(b)}) == int(signed), "InInt")
	signed = 1
	if int64(a) <= int64(x) && int64(x) <= int64(b) {
		signed = int64(x)
	}
	sym.Assert(k.RangeInt64(1, int64(a), int64(b)) == signed, "RangeInt64")
	sym.Assert(k.RangeInt(1, int(a), int(b)) == int(signed), "RangeInt")
}

// C16_twins looks at the In and Range readers of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C16_twins() { twins(twinRaw, "2a", seeChoices) }

// C16_again reads a key again and again with other candidates, bounds and defaults.
//
//sym:both ops=2 time=30
//sym:thorough ops=3 time=200
//sym:reach done
func C16_again() {
	f := ini.Empty()
	f.BlockMode = sym.Choose(2) == 0
	v := plain(sym.StrIn(1, "159x"))
	k, _ := f.Section("s").NewKey("k", v)
	for i := sym.Param("ops", 2); i > 0; i-- {
		n, ok := signedNumber(v)
		for j := 0; j < 2; j++ {
			lo, hi := []int{1, 6}[sym.Choose(2)], []int{5, 9}[sym.Choose(2)]
			want := -1 - j
			if ok && int(n) >= lo && int(n) <= hi {
				want = int(n)
			}
			sym.Assert(k.RangeInt(-1-j, lo, hi) == want && k.RangeInt64(int64(-1-j), int64(lo), int64(hi)) == int64(want), "Range")
			want = -1 - j
			if ok && (int(n) == lo || int(n) == hi) {
				want = int(n)
			}
			sym.Assert(k.InInt(-1-j, []int{lo, hi}) == want, "InInt")
			def, a := []string{"d", "e"}[j], []string{"1", "x"}[sym.Choose(2)]
			if v == a || v == "5" {
				def = v
			}
			sym.Assert(k.In([]string{"d", "e"}[j], []string{a, "5"}) == def, "In")
		}
		v = sym.StrIn(1, "59")
		k.SetValue(v)
	}
	sym.Reach("done")
}
