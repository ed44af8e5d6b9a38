package harness

import (
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-ini/ini"

	"verif/sym"
)

// refSplit is what Strings has to return.
func refSplit(v, delim string) []string {
	var parts []string
	part := ""
	i := 0
	for i < len(v) {
		switch {
		case v[i] == '\\' && i+1 < len(v) && v[i+1] == '\\':
			part += "\\"
			i += 2
		case v[i] == '\\' && strings.HasPrefix(v[i+1:], delim):
			_, n := utf8.DecodeRuneInString(delim)
			part += delim[:n]
			i += 1 + n
		case v[i] == '\\' && i+1 < len(v):
			_, n := utf8.DecodeRuneInString(v[i+1:])
			part += v[i : i+1+n]
			i += 1 + n
		case strings.HasPrefix(v[i:], delim):
			parts = append(parts, strings.TrimSpace(part))
			part = ""
			i += len(delim)
		default:
			part += v[i : i+1]
			i++
		}
	}
	if part != "" {
		parts = append(parts, strings.TrimSpace(part))
	}
	return parts
}

func checkStrings(v, delim string) {
	f, k := keyWith(plain(v))
	want := refSplit(v, delim)
	got := k.Strings(delim)
	sym.Assert(got != nil, "Strings is nil")
	sym.Assert(len(got) == len(want), "Strings: number of parts")
	for i := range got {
		sym.Assert(got[i] == want[i], "Strings: part")
		sym.Observe(got[i])
	}
	sym.Assert(k.Value() == v && f.Section("s").KeysHash()["k"] == v, "a read changes the value")
	if len(got) > 1 {
		sym.Reach("split")
	} else {
		sym.Reach("one")
	}
}

// C15_ascii splits values of the characters that matter.
//
//sym:both len=2 time=7
//sym:both len=4 time=7
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=10
//sym:both len=5 time=30
//sym:both len=6 time=30
//sym:thorough len=7 time=100
//sym:thorough len=8 time=300
//sym:reach split one
func C15_ascii() {
	delim := []string{",", "|", " ", ", ", "ab"}[sym.Choose(5)]
	checkStrings(sym.StrIn(sym.Param("len", 3), "\\,| \tab\n"), delim)
}

// C15_any splits any valid text.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=20
//sym:both len=3 time=30
//sym:both len=4 time=30
//sym:thorough len=5 time=200
//sym:thorough len=6 time=300
//sym:reach split one
func C15_any() {
	v := sym.Str(sym.Param("len", 2))
	sym.Assume(utf8.ValidString(v))
	delim := []string{",", "é", "→"}[sym.Choose(3)]
	if delim == "→" || delim == "é" {
		v = "x" + delim + v + "\\" + delim + "y" + delim
	}
	checkStrings(v, delim)
}

// C15_delim splits at any delimiter of one byte.
//
//sym:both len=2 time=7
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=30
//sym:both len=4 time=30
//sym:thorough len=5 time=200
//sym:thorough len=6 time=300
//sym:reach split one
func C15_delim() {
	d := sym.Byte()
	sym.Assume(d < 128)
	sym.Assume(d != '\\')
	checkStrings(sym.StrIn(sym.Param("len", 3), "\\,| \tab\n;"), string(rune(d)))
}

// C15_nothing splits at nothing.
//
//sym:both len=0 time=5
//sym:both len=3 time=10
//sym:thorough len=5 time=60
//sym:reach done
func C15_nothing() {
	v := plain(sym.Str(sym.Param("len", 3)))
	_, k := keyWith(v)
	got := k.Strings("")
	if v == "" {
		sym.Assert(len(got) == 0, "elements of nothing")
	} else {
		sym.Assert(len(got) == 1 && got[0] == strings.TrimSpace(v), "the whole value")
	}
	n := k.Ints("")
	sym.Assert(len(n) == len(got), "numbers")
	if len(got) == 1 {
		i, err := strconv.ParseInt(got[0], 0, 64)
		if err != nil {
			i = 0
		}
		sym.Assert(n[0] == int(i), "the number")
	}
	sym.Reach("done")
}

// typed checks the three list readers of one type.
func typed[T any](what string, plain func(string) []T, valid func(string) []T, strict func(string) ([]T, error), want []T, ok []bool, same func(a, b T) bool) {
	all := true
	for _, o := range ok {
		all = all && o
	}
	got := plain(",")
	sym.Assert(len(got) == len(ok), what+"s: number of elements")
	for i := range got {
		if ok[i] {
			sym.Assert(same(got[i], want[i]), what+"s: element")
		} else {
			var zero T
			sym.Assert(same(got[i], zero), what+"s: invalid element is not zero")
		}
	}
	got = valid(",")
	j := 0
	for i := range ok {
		if ok[i] {
			sym.Assert(j < len(got) && same(got[j], want[i]), "Valid"+what+"s: element")
			j++
		}
	}
	sym.Assert(j == len(got), "Valid"+what+"s: number of elements")
	got, err := strict(",")
	sym.Assert((err == nil) == all, "Strict"+what+"s: error")
	if all {
		sym.Reach("all")
		sym.Assert(len(got) == len(ok), "Strict"+what+"s: number of elements")
		for i := range got {
			sym.Assert(same(got[i], want[i]), "Strict"+what+"s: element")
		}
	} else {
		sym.Reach("some")
	}
}

func checkLists(v string) {
	_, k := keyWith(plain(v))
	parts := refSplit(v, ",")
	n := len(parts)
	ok := make([]bool, n)
	switch sym.Choose(3) {
	case 0:
		want, want64 := make([]int, n), make([]int64, n)
		for i, p := range parts {
			want64[i], ok[i] = signedNumber(p)
			want[i] = int(want64[i])
		}
		typed("Int", k.Ints, k.ValidInts, k.StrictInts, want, ok, func(a, b int) bool { return a == b })
		typed("Int64", k.Int64s, k.ValidInt64s, k.StrictInt64s, want64, ok, func(a, b int64) bool { return a == b })
	case 1:
		want, want64 := make([]uint, n), make([]uint64, n)
		for i, p := range parts {
			u, form, fits := number(p)
			ok[i] = form && fits
			want64[i], want[i] = u, uint(u)
		}
		typed("Uint", k.Uints, k.ValidUints, k.StrictUints, want, ok, func(a, b uint) bool { return a == b })
		typed("Uint64", k.Uint64s, k.ValidUint64s, k.StrictUint64s, want64, ok, func(a, b uint64) bool { return a == b })
	case 2:
		want := make([]bool, n)
		for i, p := range parts {
			want[i] = oneOf(p, truths...)
			ok[i] = want[i] || oneOf(p, lies...)
		}
		typed("Bool", k.Bools, k.ValidBools, k.StrictBools, want, ok, func(a, b bool) bool { return a == b })
	}
	sym.Assert(k.Value() == v, "a read changes the value")
}

// C15_lists reads lists of numbers and truth values.
//
//sym:both len=2 time=15
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=60
//sym:both len=4 time=60
//sym:thorough len=5 time=200
//sym:thorough len=6 time=300
//sym:reach all some
func C15_lists() { checkLists(sym.StrIn(sym.Param("len", 3), ", -018xtn\\")) }

// C15_long reads lists of three parts, the middle one symbolic.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=60
//sym:thorough len=3 time=300
//sym:reach all some
func C15_long() {
	v := []string{"1,", "x , ", "9223372036854775808,", "-9223372036854775808,t,", ",", "-,y,18446744073709551616 ,"}[sym.Choose(6)]
	v += sym.Str(sym.Param("len", 2)) + []string{",0", ",", ""}[sym.Choose(3)]
	sym.Assume(utf8.ValidString(v))
	checkLists(v)
}

// C15_floats reads lists of floating point numbers.
//
//sym:both len=0 time=15
//sym:both len=1 time=15
//sym:both len=2 time=60
//sym:thorough len=3 time=200
//sym:reach all some
func C15_floats() {
	var v string
	if sym.Choose(2) == 0 {
		v = []string{"1.5,", "1e999,", "2,,", "", "x,"}[sym.Choose(5)] + sym.StrIn(sym.Param("len", 2), "0123.-,e") + []string{"", ",-1e999", " , 7"}[sym.Choose(3)]
	} else {
		x := sym.Float64()
		v = "1," + strconv.FormatFloat(x, 'g', -1, 64) + ",0.5"
		_, k := keyWith(v)
		got := k.Float64s(",")
		sym.Assert(len(got) == 3 && got[0] == 1 && got[2] == 0.5 && (got[1] == x || x != x && got[1] != got[1]), "Float64s of a number")
		sym.Stop()
	}
	_, k := keyWith(v)
	parts := refSplit(v, ",")
	want, ok := make([]float64, len(parts)), make([]bool, len(parts))
	for i, p := range parts {
		x, err := strconv.ParseFloat(p, 64)
		want[i], ok[i] = x, err == nil
	}
	typed("Float64", k.Float64s, k.ValidFloat64s, k.StrictFloat64s, want, ok, func(a, b float64) bool {
		return math.Float64bits(a) == math.Float64bits(b)
	})
	sym.Assert(k.Value() == v, "a read changes the value")
}

// C15_times reads lists of times.
//
//sym:both time=60
//sym:reach all some
func C15_times() {
	good := "2020-02-29T01:02:03Z"
	v := []string{good, good + ",", ",", good + " , " + good + ","}[sym.Choose(4)]
	v += "20" + sym.StrIn(2, "0129") + "-02-" + sym.StrIn(2, "0239") + "T00:00:00Z" + []string{"", ",", "," + good}[sym.Choose(3)]
	_, k := keyWith(v)
	same := func(a, b time.Time) bool { return a.Equal(b) }
	parts := refSplit(v, ",")
	want, ok := make([]time.Time, len(parts)), make([]bool, len(parts))
	for i, p := range parts {
		x, err := time.Parse(time.RFC3339, p)
		want[i], ok[i] = x, err == nil
	}
	typed("Time", k.Times, k.ValidTimes, k.StrictTimes, want, ok, same)
	typed("TimesFormat ", func(d string) []time.Time { return k.TimesFormat(time.RFC3339, d) },
		func(d string) []time.Time { return k.ValidTimesFormat(time.RFC3339, d) },
		func(d string) ([]time.Time, error) { return k.StrictTimesFormat(time.RFC3339, d) }, want, ok, same)
	for i, p := range parts {
		x, err := time.Parse("2006-01-02", strings.TrimSuffix(p, "T00:00:00Z"))
		want[i], ok[i] = x, err == nil
	}
	k.SetValue(strings.ReplaceAll(v, "T00:00:00Z", ""))
	typed("TimesFormat ", func(d string) []time.Time { return k.TimesFormat("2006-01-02", d) },
		func(d string) []time.Time { return k.ValidTimesFormat("2006-01-02", d) },
		func(d string) ([]time.Time, error) { return k.StrictTimesFormat("2006-01-02", d) }, want, ok, same)
}

// C15_expanded splits what the references of the value expand to, and reads from a loaded file.
//
//sym:both time=60
//sym:reach done
func C15_expanded() {
	v := sym.StrIn(3, ",\\1 ")
	f := ini.Empty()
	f.Section("").NewKey("n", v)
	k, _ := f.Section("s").NewKey("k", "0,%(n)s,2")
	want := refSplit("0,"+v+",2", ",")
	sym.Assert(eqStrs(k.Strings(","), want), "Strings of a reference")
	sym.Assert(len(k.Ints(",")) == len(want), "Ints of a reference")
	g, err := ini.LoadSources(ini.LoadOptions{IgnoreContinuation: true}, []byte("k = a,"+v+"b"))
	sym.Assert(err == nil, "load")
	sym.Assert(eqStrs(g.Section("").Key("k").Strings(","), refSplit("a,"+v+"b", ",")), "Strings of a loaded value")
	sym.Reach("done")
}

// C15_twins looks at lists of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C15_twins() { twins(twinRaw, "0,", seeLists) }

// C15_again reads lists again and again, with other delimiters, after changes, and from other keys.
//
//sym:both ops=2 time=30
//sym:thorough ops=3 time=200
//sym:reach done
func C15_again() {
	f := ini.Empty()
	f.BlockMode = sym.Choose(2) == 0
	vals := []string{sym.StrIn(3, "1,|\\"), "2|3,4"}
	var ks []*ini.Key
	for i, v := range vals {
		k, _ := f.Section("s").NewKey(string(rune('k'+i)), v)
		ks = append(ks, k)
	}
	var got, want [][]string
	read := func(i int, delim string) {
		got, want = append(got, ks[i].Strings(delim)), append(want, refSplit(vals[i], delim))
		var ints, valid []int
		bad := false
		for _, p := range want[len(want)-1] {
			n, ok := signedNumber(p)
			ints = append(ints, int(n))
			if ok {
				valid = append(valid, int(n))
			} else {
				ints[len(ints)-1] = 0
				bad = true
			}
		}
		sym.Assert(eqList(ks[i].Ints(delim), ints) && eqList(ks[i].ValidInts(delim), valid), "numbers")
		_, err := ks[i].StrictInts(delim)
		sym.Assert((err != nil) == bad, "strict numbers")
	}
	for n := sym.Param("ops", 2); n > 0; n-- {
		i := sym.Choose(2)
		read(i, ",")
		switch sym.Choose(4) {
		case 0:
			read(i, "|")
		case 1:
			read(1-i, ",")
		case 2:
			vals[i] = "5,|" + sym.StrIn(1, "6,")
			ks[i].SetValue(vals[i])
			read(i, ",")
		case 3:
			read(i, ",|")
			read(i, "|,")
		}
		for j := range got {
			sym.Assert(eqStrs(got[j], want[j]), "list")
		}
	}
	sym.Reach("done")
}
