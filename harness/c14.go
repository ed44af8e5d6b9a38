package harness

import (
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"verif/sym"
)

// keyWith is a key of that value in a file.
func keyWith(v string) (*ini.File, *ini.Key) {
	f := ini.Empty()
	k, _ := f.Section("s").NewKey("k", v)
	return f, k
}

// plain assumes that the value has no reference in it.
func plain(v string) string {
	_, _, ok := reference(v)
	sym.Assume(!ok)
	return v
}

// number reads an integer literal with an optional base prefix: value, whether it has the form of a number,
// and whether it fits into 64 bits without a sign.
func number(s string) (v uint64, form, fits bool) {
	base := uint64(10)
	digits := s
	if len(s) > 1 && s[0] == '0' {
		base, digits = 8, s[1:]
		if len(s) > 2 {
			switch s[1] {
			case 'x', 'X':
				base, digits = 16, s[2:]
			case 'b', 'B':
				base, digits = 2, s[2:]
			case 'o', 'O':
				base, digits = 8, s[2:]
			}
		}
	}
	if digits == "" {
		return 0, false, false
	}
	fits = true
	prev := byte('_') // a separator needs a digit, or the prefix, before it
	if base != 10 {
		prev = '0'
	}
	for i := 0; i < len(digits); i++ {
		c := digits[i]
		d := uint64(99)
		switch {
		case c == '_':
			if prev == '_' {
				return 0, false, false
			}
			prev = c
			continue
		case '0' <= c && c <= '9':
			d = uint64(c - '0')
		case 'a' <= c && c <= 'f':
			d = uint64(c-'a') + 10
		case 'A' <= c && c <= 'F':
			d = uint64(c-'A') + 10
		}
		prev = c
		if d >= base {
			return 0, false, false
		}
		if v > (math.MaxUint64-d)/base {
			fits = false
		}
		v = v*base + d
	}
	return v, prev != '_', fits
}

func signedNumber(s string) (v int64, ok bool) {
	if s == "" {
		return 0, false
	}
	neg := s[0] == '-'
	if neg || s[0] == '+' {
		s = s[1:]
	}
	u, form, fits := number(s)
	if !form || !fits {
		return 0, false
	}
	if neg {
		return -int64(u), u <= 1<<63
	}
	return int64(u), u < 1<<63
}

func checkInts(v string) {
	_, k := keyWith(plain(v))
	want, ok := signedNumber(v)
	i, err := k.Int()
	sym.Assert((err == nil) == ok, "Int: error")
	i64, err2 := k.Int64()
	sym.Assert((err2 == nil) == ok, "Int64: error")
	if ok {
		sym.Reach("number")
		sym.Assert(int64(i) == want && i64 == want, "Int, Int64: value")
		sym.Assert(k.MustInt() == int(want) && k.MustInt64() == want, "MustInt, MustInt64: value")
		sym.Assert(k.MustInt(7) == int(want) && k.MustInt64(7) == want, "MustInt, MustInt64 take the default")
		sym.Assert(k.Value() == v, "a read changes the value")
	} else {
		sym.Reach("other")
		sym.Assert(k.MustInt() == 0 && k.MustInt64() == 0, "MustInt, MustInt64 of no number")
	}
	u, form, fits := number(v)
	ok = form && fits
	g, err := k.Uint()
	sym.Assert((err == nil) == ok, "Uint: error")
	g64, err2 := k.Uint64()
	sym.Assert((err2 == nil) == ok, "Uint64: error")
	if ok {
		sym.Assert(uint64(g) == u && g64 == u, "Uint, Uint64: value")
		sym.Assert(k.MustUint() == uint(u) && k.MustUint64() == u, "MustUint, MustUint64: value")
		sym.Assert(k.MustUint(7) == uint(u) && k.MustUint64(7) == u, "MustUint, MustUint64 take the default")
	} else {
		sym.Assert(k.MustUint() == 0 && k.MustUint64() == 0, "MustUint, MustUint64 of no number")
	}
	sym.Assert(k.Value() == v, "a read changes the value")
}

// C14_ints reads any short value as an integer.
//
//sym:both len=0 time=7
//sym:both len=1 time=10
//sym:both len=2 time=10
//sym:both len=3 time=30
//sym:thorough len=4 time=200
//sym:thorough len=5 time=300
//sym:reach number other
func C14_ints() { checkInts(sym.Str(sym.Param("len", 2))) }

// C14_limits reads numbers around the limits of 64 bits, in every base.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach number other
func C14_limits() {
	n := sym.Param("len", 2)
	t := []string{"922337203685477580799", "-922337203685477580799", "+922337203685477580799", "1844674407370955161599", "0x7fffffffffffffff0", "0xffffffffffffffffff",
		"-0x8000000000000000", "0b1000000000000000000000000000000000000000000000000000000000000000", "01777777777777777777777", "0o777777777777777777777", "-0b1_000"}[sym.Choose(11)]
	if sym.Choose(2) == 1 {
		t = t[:len(t)-1]
	}
	checkInts(t[:len(t)-n] + sym.Str(n))
}

var truths = []string{"1", "t", "T", "TRUE", "true", "True", "YES", "yes", "Yes", "y", "ON", "on", "On"}
var lies = []string{"0", "f", "F", "FALSE", "false", "False", "NO", "no", "No", "n", "OFF", "off", "Off"}

// C14_bool reads any value as a truth value.
//
//sym:both len=0 time=5
//sym:both len=1 time=10
//sym:both len=2 time=10
//sym:both len=3 time=10
//sym:both len=4 time=10
//sym:both len=5 time=20
//sym:thorough len=6 time=100
//sym:reach other
func C14_bool() {
	v := plain(sym.Str(sym.Param("len", 1)))
	f, k := keyWith(v)
	yes, no := false, false
	for _, x := range truths {
		yes = sym.Or(yes, v == x)
	}
	for _, x := range lies {
		no = sym.Or(no, v == x)
	}
	b, err := k.Bool()
	sym.Assert((err == nil) == sym.Or(yes, no), "Bool: error")
	sym.Assert(b == yes, "Bool: value")
	sym.Assert(k.MustBool() == yes, "MustBool")
	sym.Assert(k.Value() == v, "a read changes the value")
	d := sym.Choose(2) == 1
	got := k.MustBool(d)
	if yes || no {
		sym.Reach("truth")
		sym.Assert(got == yes && k.Value() == v, "MustBool takes the default")
		return
	}
	sym.Reach("other")
	sym.Assert(got == d, "MustBool ignores the default")
	taken(f, k, strconv.FormatBool(d))
}

// taken checks that a default has become the value of the key wherever it can be read.
func taken(f *ini.File, k *ini.Key, v string) {
	sym.Assert(k.Value() == v && k.String() == v, "the default does not become the value")
	sym.Assert(f.Section("s").KeysHash()["k"] == v, "KeysHash does not show the default")
	sym.Assert(f.Section("s").HasValue(v), "HasValue does not find the default")
	g := reload(f, ini.LoadOptions{})
	sym.Assert(g.Section("s").Key("k").Value() == v, "the default is not written")
}

// C14_default gives a default to a value that is no number.
//
//sym:both len=0 time=15
//sym:both len=1 time=60
//sym:thorough len=1 wide=1 time=300
//sym:thorough len=2 time=300
//sym:reach done
func C14_default() {
	v := plain(sym.Str(sym.Choose(sym.Param("len", 1) + 1)))
	_, isInt := signedNumber(v)
	_, isForm, _ := number(v)
	sym.Assume(!isInt && !isForm)
	f, k := keyWith(v)
	d := int64(sym.Byte()) - 128
	if sym.Param("wide", 0) == 1 {
		d = int64(sym.U16()) - 32768
	}
	switch sym.Choose(5) {
	case 0:
		sym.Assert(k.MustInt(int(d)) == int(d), "MustInt ignores the default")
		taken(f, k, strconv.FormatInt(d, 10))
	case 1:
		sym.Assert(k.MustInt64(d) == d, "MustInt64 ignores the default")
		taken(f, k, strconv.FormatInt(d, 10))
	case 2:
		sym.Assume(d >= 0)
		sym.Assert(k.MustUint(uint(d)) == uint(d), "MustUint ignores the default")
		taken(f, k, strconv.FormatUint(uint64(d), 10))
	case 3:
		sym.Assume(d >= 0)
		sym.Assert(k.MustUint64(uint64(d)) == uint64(d), "MustUint64 ignores the default")
		taken(f, k, strconv.FormatUint(uint64(d), 10))
	case 4:
		s := sym.Str(2)
		sym.Assert(k.MustString("") == v, "MustString")
		got := k.MustString(s)
		if v == "" {
			sym.Assert(got == s && k.Value() == s, "MustString ignores the default")
		} else {
			sym.Assert(got == v && k.Value() == v, "MustString takes the default")
		}
	}
	sym.Reach("done")
}

// C14_large gives large defaults.
//
//sym:both time=30
//sym:reach done
func C14_large() {
	f, k := keyWith("none")
	switch sym.Choose(6) {
	case 0:
		sym.Assert(k.MustInt64(math.MinInt64) == math.MinInt64, "MustInt64")
		taken(f, k, "-9223372036854775808")
	case 1:
		sym.Assert(k.MustUint64(math.MaxUint64) == math.MaxUint64, "MustUint64")
		taken(f, k, "18446744073709551615")
	case 2:
		sym.Assert(k.MustUint(math.MaxUint64) == math.MaxUint64, "MustUint")
		taken(f, k, "18446744073709551615")
	case 3:
		sym.Assert(k.MustInt(math.MinInt64) == math.MinInt64, "MustInt")
		taken(f, k, "-9223372036854775808")
	case 4:
		d := time.Duration(1+sym.Choose(3)) * 1500 * time.Millisecond
		sym.Assert(k.MustDuration() == 0, "MustDuration without a default")
		sym.Assert(k.MustDuration(d) == d, "MustDuration")
		taken(f, k, d.String())
		sym.Assert(k.MustDuration(5) == d, "MustDuration")
	case 5:
		t := time.Date(2020, 2, 29, 1, 2, 3, 0, time.UTC)
		sym.Assert(k.MustTime().IsZero(), "MustTime without a default")
		sym.Assert(k.MustTime(t).Equal(t), "MustTime")
		taken(f, k, "2020-02-29T01:02:03Z")
		sym.Assert(k.MustTime(time.Time{}).Equal(t), "MustTime")
	}
	sym.Reach("done")
}

// C14_float reads and defaults any float64.
//
//sym:both time=60
//sym:reach done
func C14_float() {
	x := sym.Float64()
	sym.Assume(x == x)
	v := strconv.FormatFloat(x, 'g', -1, 64)
	_, k := keyWith(v)
	y, err := k.Float64()
	sym.Assert(err == nil && y == x, "Float64")
	sym.Assert(k.MustFloat64() == x && k.MustFloat64(1) == x, "MustFloat64")
	sym.Assert(k.Value() == v, "a read changes the value")
	f, k := keyWith([]string{"", "x", "1.2.3", "1,5"}[sym.Choose(4)])
	_, err = k.Float64()
	sym.Assert(err != nil, "Float64 of no number")
	sym.Assert(k.MustFloat64() == 0, "MustFloat64 of no number")
	sym.Assert(k.MustFloat64(x) == x, "MustFloat64 ignores the default")
	y, err = k.Float64()
	sym.Assert(err == nil && y == x, "the default does not become the value")
	y, err = strconv.ParseFloat(f.Section("s").KeysHash()["k"], 64)
	sym.Assert(err == nil && y == x, "KeysHash does not show the default")
	sym.Reach("done")
}

// C14_durations reads short values as durations and times.
//
//sym:both len=2 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=60
//sym:thorough len=4 time=200
//sym:reach done
func C14_durations() {
	v := plain(sym.StrIn(sym.Param("len", 3), "-0159hmsu"))
	_, k := keyWith(v)
	want, werr := time.ParseDuration(v)
	d, err := k.Duration()
	sym.Assert((err == nil) == (werr == nil) && d == want, "Duration")
	sym.Assert(k.MustDuration() == want, "MustDuration")
	got := k.MustDuration(77)
	if werr == nil {
		sym.Assert(got == want && k.Value() == v, "MustDuration takes the default")
	} else {
		sym.Assert(got == 77 && k.Value() == "77ns", "MustDuration ignores the default")
	}
	sym.Reach("done")
}

// C14_times reads RFC 3339 times.
//
//sym:both time=60
//sym:reach done
func C14_times() {
	v := "2001-0" + sym.StrIn(1, "0129x") + "-" + sym.StrIn(2, "0239") + "T0" + sym.StrIn(1, "19") + ":00:00Z"
	_, k := keyWith(v)
	want, werr := time.Parse(time.RFC3339, v)
	d, err := k.Time()
	sym.Assert((err == nil) == (werr == nil) && d.Equal(want), "Time")
	def := time.Unix(1000, 0).UTC()
	got := k.MustTime(def)
	if werr == nil {
		sym.Assert(got.Equal(want) && k.Value() == v, "MustTime takes the default")
	} else {
		sym.Assert(got.Equal(def) && k.Value() == def.Format(time.RFC3339), "MustTime ignores the default")
	}
	day := strings.Split(v, "T")[0]
	k.SetValue(day)
	want, werr = time.Parse("2006-01-02", day)
	d, err = k.TimeFormat("2006-01-02")
	sym.Assert((err == nil) == (werr == nil) && d.Equal(want), "TimeFormat")
	got = k.MustTimeFormat("2006-01-02", def)
	if werr != nil {
		sym.Assert(got.Equal(def) && k.Value() == "1970-01-01", "MustTimeFormat ignores the default")
	} else {
		sym.Assert(got.Equal(want) && k.Value() == day, "MustTimeFormat takes the default")
	}
	sym.Reach("done")
}

// C14_expanded converts what the references of the value expand to.
//
//sym:both time=30
//sym:reach done
func C14_expanded() {
	f, k := keyWith("%(n)s")
	v := plain(sym.Str(2))
	f.Section("").NewKey("n", v)
	want, ok := signedNumber(v)
	i, err := k.Int()
	sym.Assert((err == nil) == ok, "Int of a reference: error")
	if ok {
		sym.Assert(int64(i) == want, "Int of a reference")
		sym.Assert(k.MustInt(5) == int(want) && k.Value() == "%(n)s", "MustInt of a reference")
	}
	s := k.Validate(func(x string) string { return "<" + x + ">" })
	sym.Assert(s == "<"+v+">", "Validate")
	sym.Reach("done")
}

// C14_twins looks at numbers of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C14_twins() { twins(twinRaw, "0a", seeTyped) }

// C14_again reads keys again and again, by other types, after changes, and other keys.
//
//sym:both ops=2 time=30
//sym:thorough ops=3 time=200
//sym:reach done
func C14_again() {
	f := ini.Empty()
	f.BlockMode = sym.Choose(2) == 0
	vals := []string{plain(sym.StrIn(2, "1t-")), "true"}
	var ks []*ini.Key
	for i, v := range vals {
		k, _ := f.Section("s").NewKey(string(rune('k'+i)), v)
		ks = append(ks, k)
	}
	read := func(i int) {
		k, v := ks[i], vals[i]
		n, ok := signedNumber(v)
		x, err := k.Int()
		sym.Assert((err == nil) == ok && (err != nil || int64(x) == n), "Int")
		u, form, fits := number(v)
		y, err := k.Uint64()
		sym.Assert((err == nil) == (form && fits) && (err != nil || y == u), "Uint64")
		b, err := k.Bool()
		sym.Assert(b == oneOf(v, truths...) && (err == nil) == (b || oneOf(v, lies...)), "Bool")
		sym.Assert(k.MustString("") == v && k.String() == v, "String")
	}
	for n := sym.Param("ops", 2); n > 0; n-- {
		i := sym.Choose(2)
		read(i)
		switch sym.Choose(5) {
		case 0:
			read(1 - i)
		case 1:
			vals[i] = []string{"7", "false", "", "1"}[sym.Choose(4)]
			ks[i].SetValue(vals[i])
		case 2:
			if _, ok := signedNumber(vals[i]); !ok {
				vals[i] = "9"
			}
			ks[i].MustInt(9)
		case 3:
			if !oneOf(vals[i], truths...) && !oneOf(vals[i], lies...) {
				vals[i] = "false"
			}
			ks[i].MustBool(false)
		case 4:
			vals[i] = "0"
			f.Section("s").NewKey(ks[i].Name(), "0")
		}
		read(i)
		sym.Assert(f.Section("s").KeysHash()[ks[i].Name()] == vals[i] && f.Section("s").HasValue(vals[i]), "the value everywhere it can be read")
	}
	sym.Reach("done")
}
