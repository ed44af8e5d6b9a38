package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, t *Thread, args []Value) Value

// callBody is returned by an intrinsic that leaves the work to the function's own body.
type callBody struct{}

var intrinsics map[string]intrinsic
var globalInits map[string]func(m *Machine) Value
var globalAlias = map[string][2]string{
	"os.ErrNotExist":   {"internal/oserror", "ErrNotExist"},
	"os.ErrExist":      {"internal/oserror", "ErrExist"},
	"os.ErrPermission": {"internal/oserror", "ErrPermission"},
	"os.ErrClosed":     {"internal/oserror", "ErrClosed"},
	"os.ErrInvalid":    {"internal/oserror", "ErrInvalid"},
}

func nop(m *Machine, t *Thread, a []Value) Value      { return nil }
func ident(m *Machine, t *Thread, a []Value) Value    { return a[0] }
func retZero(m *Machine, t *Thread, a []Value) Value  { return Const(64, 0) }
func retFalse(m *Machine, t *Thread, a []Value) Value { return eFalse }

func i64(n int) *Expr { return Const(64, uint64(int64(n))) }

// bytesOf gives the byte expressions of a string or byte slice.
func bytesOf(m *Machine, v Value) []*Expr {
	switch x := v.(type) {
	case Str:
		return x.Bytes()
	case Slice:
		b := make([]*Expr, len(x))
		for i := range x {
			if m.race != nil {
				m.raceAccess(&x[i], false)
			}
			b[i] = x[i].(*Expr)
		}
		return b
	}
	panic(unsupported(fmt.Sprintf("bytes of %T", v)))
}

func (m *Machine) bytesEq(a, b []*Expr) *Expr {
	return m.strEq(mkStr(a), mkStr(b))
}

func conc(v Value) (string, bool) {
	if s, ok := v.(Str); ok {
		return s.Conc()
	}
	return "", false
}

// index finds the first occurrence of pat in b, forking on the position.
func (m *Machine) indexOf(b, pat []*Expr) int {
	for i := 0; i+len(pat) <= len(b); i++ {
		if m.branch(m.bytesEq(b[i:i+len(pat)], pat)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lastIndexOf(b, pat []*Expr) int {
	for i := len(b) - len(pat); i >= 0; i-- {
		if m.branch(m.bytesEq(b[i:i+len(pat)], pat)) {
			return i
		}
	}
	return -1
}

func asciiSet(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return len(s) > 0
}

func (m *Machine) inSet(b *Expr, set string) *Expr {
	if b.isConst() {
		return Bool(strings.IndexByte(set, byte(b.val)) >= 0)
	}
	r := eFalse
	for i := 0; i < len(set); i++ {
		r = m.ctx.Or(r, m.ctx.Eq(b, Const(8, uint64(set[i]))))
	}
	return r
}

func indexAny(last bool) intrinsic {
	return func(m *Machine, t *Thread, a []Value) Value {
		set, ok := conc(a[1])
		if ok && set == "" {
			return i64(-1)
		}
		if !ok || !asciiSet(set) {
			if s, ok2 := conc(a[0]); ok && ok2 {
				if last {
					return i64(strings.LastIndexAny(s, set))
				}
				return i64(strings.IndexAny(s, set))
			}
			return callBody{}
		}
		b := bytesOf(m, a[0])
		if last {
			for i := len(b) - 1; i >= 0; i-- {
				if m.branch(m.inSet(b[i], set)) {
					return i64(i)
				}
			}
			return i64(-1)
		}
		for i := range b {
			if m.branch(m.inSet(b[i], set)) {
				return i64(i)
			}
		}
		return i64(-1)
	}
}

func containsAny(m *Machine, t *Thread, a []Value) Value {
	set, ok := conc(a[1])
	if !ok || (set != "" && !asciiSet(set)) {
		return callBody{}
	}
	r := eFalse
	for _, b := range bytesOf(m, a[0]) {
		r = m.ctx.Or(r, m.inSet(b, set))
	}
	return r
}

func contains(m *Machine, t *Thread, a []Value) Value {
	b, pat := bytesOf(m, a[0]), bytesOf(m, a[1])
	r := eFalse
	for i := 0; i+len(pat) <= len(b); i++ {
		r = m.ctx.Or(r, m.bytesEq(b[i:i+len(pat)], pat))
	}
	return r
}

// Unicode white space outside ASCII, as UTF-8: C2 85, C2 A0, E1 9A 80, E2 80 80-8A, E2 80 A8/A9/AF, E2 81 9F, E3 80 80.

func (m *Machine) asciiSpace(b *Expr) *Expr {
	c := m.ctx
	return c.Or(c.Eq(b, Const(8, ' ')), c.And(c.Ule(Const(8, 9), b), c.Ule(b, Const(8, 13))))
}

// spaceLen forks on whether a white-space rune starts at i and gives its length, 0 if none does.
func (m *Machine) spaceLen(b []*Expr, i int) int {
	c := m.ctx
	k := func(x *Expr, v uint64) *Expr { return c.Eq(x, Const(8, v)) }
	if m.branch(m.asciiSpace(b[i])) {
		return 1
	}
	if i+1 >= len(b) || !m.branch(m.inSet(b[i], "\xc2\xe1\xe2\xe3")) {
		return 0
	}
	if m.branch(k(b[i], 0xC2)) {
		if m.branch(c.Or(k(b[i+1], 0x85), k(b[i+1], 0xA0))) {
			return 2
		}
		return 0
	}
	if i+2 >= len(b) {
		return 0
	}
	switch {
	case m.branch(k(b[i], 0xE1)):
		if m.branch(k(b[i+1], 0x9A)) && m.branch(k(b[i+2], 0x80)) {
			return 3
		}
	case m.branch(k(b[i], 0xE2)):
		if m.branch(k(b[i+1], 0x80)) {
			x := b[i+2]
			if m.branch(c.Or(c.And(c.Ule(Const(8, 0x80), x), c.Ule(x, Const(8, 0x8A))), m.inSet(x, "\xa8\xa9\xaf"))) {
				return 3
			}
		} else if m.branch(k(b[i+1], 0x81)) {
			if m.branch(k(b[i+2], 0x9F)) {
				return 3
			}
		}
	default:
		if m.branch(k(b[i+1], 0x80)) && m.branch(k(b[i+2], 0x80)) {
			return 3
		}
	}
	return 0
}

// spaceLenBack is spaceLen for the rune that ends at j.
func (m *Machine) spaceLenBack(b []*Expr, j int) int {
	c := m.ctx
	k := func(x *Expr, v uint64) *Expr { return c.Eq(x, Const(8, v)) }
	last := b[j-1]
	if m.branch(m.asciiSpace(last)) {
		return 1
	}
	if j < 2 {
		return 0
	}
	x := last
	any := c.Or(c.Or(c.And(c.Ule(Const(8, 0x80), x), c.Ule(x, Const(8, 0x8A))), m.inSet(x, "\xa8\xa9\xaf")), m.inSet(x, "\x85\xa0\x9f"))
	if !m.branch(any) {
		return 0
	}
	if m.branch(k(b[j-2], 0xC2)) {
		if m.branch(c.Or(k(last, 0x85), k(last, 0xA0))) {
			return 2
		}
		return 0
	}
	if j < 3 {
		return 0
	}
	switch {
	case m.branch(k(b[j-2], 0x80)):
		if m.branch(k(b[j-3], 0xE2)) {
			if m.branch(c.Or(c.And(c.Ule(Const(8, 0x80), x), c.Ule(x, Const(8, 0x8A))), m.inSet(x, "\xa8\xa9\xaf"))) {
				return 3
			}
		} else if m.branch(k(b[j-3], 0xE3)) && m.branch(k(last, 0x80)) {
			return 3
		}
	case m.branch(k(b[j-2], 0x9A)):
		if m.branch(k(b[j-3], 0xE1)) && m.branch(k(last, 0x80)) {
			return 3
		}
	case m.branch(k(b[j-2], 0x81)):
		if m.branch(k(b[j-3], 0xE2)) && m.branch(k(last, 0x9F)) {
			return 3
		}
	}
	return 0
}

func (m *Machine) trimRange(b []*Expr, left, right bool) (int, int) {
	i, j := 0, len(b)
	if left {
		for i < j {
			n := m.spaceLen(b, i)
			if n == 0 {
				break
			}
			i += n
		}
	}
	if right {
		for j > i {
			n := m.spaceLenBack(b[i:], j-i)
			if n == 0 {
				break
			}
			j -= n
		}
	}
	return i, j
}

func isSpaceFn(v Value) bool {
	c, ok := v.(*Closure)
	return ok && c != nil && c.fn != nil && c.fn.String() == "unicode.IsSpace"
}

func trim(left, right, fn bool) intrinsic {
	return func(m *Machine, t *Thread, a []Value) Value {
		if fn && !isSpaceFn(a[1]) {
			return callBody{}
		}
		b := bytesOf(m, a[0])
		i, j := m.trimRange(b, left, right)
		switch x := a[0].(type) {
		case Str:
			return x.Sub(i, j)
		case Slice:
			if !right {
				// bytes.TrimLeftFunc keeps the tail's capacity, and gives nil when nothing is left
				if i == len(x) {
					return Slice(nil)
				}
				return x[i:]
			}
			if i == j {
				return Slice(nil)
			}
			return x[i:j]
		}
		panic("trim")
	}
}

func caseMap(lower bool) intrinsic {
	var tab [256]uint64
	for i := range tab {
		tab[i] = uint64(i)
		if lower && 'A' <= i && i <= 'Z' {
			tab[i] = uint64(i + 32)
		}
		if !lower && 'a' <= i && i <= 'z' {
			tab[i] = uint64(i - 32)
		}
	}
	return func(m *Machine, t *Thread, a []Value) Value {
		s, isStr := a[0].(Str)
		if isStr {
			if c, ok := s.Conc(); ok {
				if lower {
					return S(strings.ToLower(c))
				}
				return S(strings.ToUpper(c))
			}
		}
		b := bytesOf(m, a[0])
		r := make([]*Expr, len(b))
		for i, x := range b {
			if !m.branch(m.ctx.Ult(x, Const(8, 0x80))) {
				return callBody{}
			}
			r[i] = m.ctx.Table(x, 8, tab[:])
		}
		if isStr {
			return mkStr(r)
		}
		return bytesToSlice(r)
	}
}

func runeClass(name string, f func(r rune) bool) intrinsic {
	var tab [256]uint64
	for i := range tab {
		if f(rune(i)) {
			tab[i] = 1
		}
	}
	return func(m *Machine, t *Thread, a []Value) Value {
		r := a[0].(*Expr)
		if r.isConst() {
			return Bool(f(rune(int32(r.val))))
		}
		if r.op == OpZExt && r.a.w == 8 {
			return m.ctx.Eq(m.ctx.Table(r.a, 8, tab[:]), Const(8, 1))
		}
		if m.branch(m.ctx.Ult(r, Const(32, 256))) {
			return m.ctx.Eq(m.ctx.Table(m.ctx.Trunc(r, 8), 8, tab[:]), Const(8, 1))
		}
		return callBody{}
	}
}

func runeMap(f func(r rune) rune) intrinsic {
	var tab [128]uint64
	for i := range tab {
		tab[i] = uint64(f(rune(i)))
	}
	return func(m *Machine, t *Thread, a []Value) Value {
		r := a[0].(*Expr)
		if r.isConst() {
			return Const(32, uint64(uint32(f(rune(int32(r.val))))))
		}
		if m.branch(m.ctx.Ult(r, Const(32, 128))) {
			return m.ctx.ZExt(m.ctx.Table(m.ctx.Trunc(r, 8), 8, tab[:]), 32)
		}
		return callBody{}
	}
}

func (m *Machine) atomicPtr(t *Thread, v Value) *Value {
	p := lockPtr(m, v)
	m.atomicSync(t, p)
	return p
}

func atomicLoad(m *Machine, t *Thread, a []Value) Value { return *m.atomicPtr(t, a[0]) }
func atomicStore(m *Machine, t *Thread, a []Value) Value {
	m.set(m.atomicPtr(t, a[0]), a[1])
	return nil
}
func atomicAdd(m *Machine, t *Thread, a []Value) Value {
	p := m.atomicPtr(t, a[0])
	n := m.ctx.Bin(OpAdd, (*p).(*Expr), a[1].(*Expr))
	m.set(p, n)
	return n
}
func atomicSwap(m *Machine, t *Thread, a []Value) Value {
	p := m.atomicPtr(t, a[0])
	old := *p
	m.set(p, a[1])
	return old
}
func atomicCAS(m *Machine, t *Thread, a []Value) Value {
	p := lockPtr(m, a[0])
	if !m.branch(m.eq(nil, *p, a[1])) {
		m.atomicSync(t, p)
		return eFalse
	}
	m.atomicSync(t, p)
	m.set(p, a[2])
	return eTrue
}

func allConc(a ...Value) bool {
	for _, v := range a {
		switch x := v.(type) {
		case Str:
			if x.b != nil {
				return false
			}
		case *Expr:
			if !x.isConst() {
				return false
			}
		case Float:
			if !x.bits.isConst() {
				return false
			}
		}
	}
	return true
}

// concStr makes a string concrete, forking over its bytes.
func (m *Machine) concStr(s Str) string {
	if c, ok := s.Conc(); ok {
		return c
	}
	b := make([]byte, s.Len())
	for i := range b {
		b[i] = byte(m.concretize(s.At(i)))
	}
	return string(b)
}

// Floating-point text: a symbolic float is formatted as a token and the token parses back to it.
func (m *Machine) floatToken(f Float) Str {
	if x, ok := f.conc(); ok {
		return S(strconv.FormatFloat(x, 'g', -1, 64))
	}
	for i, g := range m.floats {
		if g.bits == f.bits {
			return S(tokenText(i))
		}
	}
	m.floats = append(m.floats, f)
	return S(tokenText(len(m.floats) - 1))
}

func tokenText(i int) string { return fmt.Sprintf("9.87654321012e%d", 200+i) }

func (m *Machine) tokenFloat(s string) (Float, bool) {
	for i, g := range m.floats {
		if tokenText(i) == s {
			return g, true
		}
	}
	return Float{}, false
}

func (m *Machine) mkError(msg string) Value {
	cell := newCell(Struct{S(msg)})
	return Iface{t: m.eng.errorString, v: cell}
}

func (m *Machine) mkNumError(fn, s, kind string) Value {
	if m.eng.numError == nil {
		return m.mkError("strconv." + fn + ": parsing " + strconv.Quote(s) + ": " + kind)
	}
	g := m.eng.strconvErrSyntax
	if kind == "range" {
		g = m.eng.strconvErrRange
	}
	cell := newCell(Struct{S(fn), S(s), deepCopy(*m.global(g))})
	return Iface{t: types.NewPointer(m.eng.numError), v: cell}
}

func parseFloat(m *Machine, t *Thread, a []Value) Value {
	s := a[0].(Str)
	bits := int(a[1].(*Expr).val)
	c := m.concStr(s)
	if f, ok := m.tokenFloat(c); ok {
		return Tuple{f, Iface{}}
	}
	f, err := strconv.ParseFloat(c, bits)
	if err != nil {
		k := "syntax"
		if err.(*strconv.NumError).Err == strconv.ErrRange {
			k = "range"
		}
		return Tuple{mkFloat(f), m.mkNumError("ParseFloat", c, k)}
	}
	return Tuple{mkFloat(f), Iface{}}
}

func hostStrFn(f func(string) string) intrinsic {
	return func(m *Machine, t *Thread, a []Value) Value {
		if c, ok := conc(a[0]); ok {
			return S(f(c))
		}
		return callBody{}
	}
}

func quoteApprox(m *Machine, t *Thread, a []Value) Value {
	s := a[0].(Str)
	if c, ok := s.Conc(); ok {
		return S(strconv.Quote(c))
	}
	return concat(concat(S("\""), s), S("\""))
}

func init() {
	intrinsics = map[string]intrinsic{
		"internal/bytealg.IndexByte": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.indexOf(bytesOf(m, a[0]), []*Expr{a[1].(*Expr)}))
		},
		"internal/bytealg.IndexByteString": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.indexOf(bytesOf(m, a[0]), []*Expr{a[1].(*Expr)}))
		},
		"internal/bytealg.LastIndexByte": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.lastIndexOf(bytesOf(m, a[0]), []*Expr{a[1].(*Expr)}))
		},
		"internal/bytealg.LastIndexByteString": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.lastIndexOf(bytesOf(m, a[0]), []*Expr{a[1].(*Expr)}))
		},
		"internal/bytealg.Index": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.indexOf(bytesOf(m, a[0]), bytesOf(m, a[1])))
		},
		"internal/bytealg.IndexString": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.indexOf(bytesOf(m, a[0]), bytesOf(m, a[1])))
		},
		"strings.Index": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.indexOf(bytesOf(m, a[0]), bytesOf(m, a[1])))
		},
		"bytes.Index": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.indexOf(bytesOf(m, a[0]), bytesOf(m, a[1])))
		},
		"strings.LastIndex": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.lastIndexOf(bytesOf(m, a[0]), bytesOf(m, a[1])))
		},
		"bytes.LastIndex": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.lastIndexOf(bytesOf(m, a[0]), bytesOf(m, a[1])))
		},
		"internal/stringslite.Index": func(m *Machine, t *Thread, a []Value) Value {
			return i64(m.indexOf(bytesOf(m, a[0]), bytesOf(m, a[1])))
		},
		"internal/bytealg.Count":       countBytes,
		"internal/bytealg.CountString": countBytes,
		"internal/bytealg.Equal": func(m *Machine, t *Thread, a []Value) Value {
			return m.bytesEq(bytesOf(m, a[0]), bytesOf(m, a[1]))
		},
		"bytes.Equal": func(m *Machine, t *Thread, a []Value) Value {
			return m.bytesEq(bytesOf(m, a[0]), bytesOf(m, a[1]))
		},
		"internal/bytealg.Compare":       compareBytes,
		"internal/bytealg.CompareString": compareBytes,
		"internal/bytealg.MakeNoZero": func(m *Machine, t *Thread, a []Value) Value {
			n := m.concInt(a[0])
			c := roundupsize(n)
			r := make(Slice, c)
			fillZero(r, types.Typ[types.Uint8])
			return r[:n]
		},
		"strings.Contains":      contains,
		"bytes.Contains":        contains,
		"strings.ContainsAny":   containsAny,
		"bytes.ContainsAny":     containsAny,
		"strings.IndexAny":      indexAny(false),
		"bytes.IndexAny":        indexAny(false),
		"strings.LastIndexAny":  indexAny(true),
		"bytes.LastIndexAny":    indexAny(true),
		"strings.TrimSpace":     trim(true, true, false),
		"bytes.TrimSpace":       trim(true, true, false),
		"strings.TrimFunc":      trim(true, true, true),
		"bytes.TrimFunc":        trim(true, true, true),
		"strings.TrimLeftFunc":  trim(true, false, true),
		"bytes.TrimLeftFunc":    trim(true, false, true),
		"strings.TrimRightFunc": trim(false, true, true),
		"strings.ToLower":       caseMap(true),
		"strings.ToUpper":       caseMap(false),
		"bytes.ToLower":         caseMap(true),
		"bytes.ToUpper":         caseMap(false),
		"unicode.IsSpace":       runeClass("IsSpace", unicode.IsSpace),
		"unicode.IsUpper":       runeClass("IsUpper", unicode.IsUpper),
		"unicode.IsLower":       runeClass("IsLower", unicode.IsLower),
		"unicode.IsLetter":      runeClass("IsLetter", unicode.IsLetter),
		"unicode.IsDigit":       runeClass("IsDigit", unicode.IsDigit),
		"unicode.IsControl":     runeClass("IsControl", unicode.IsControl),
		"unicode.IsPrint":       runeClass("IsPrint", unicode.IsPrint),
		"unicode.ToLower":       runeMap(unicode.ToLower),
		"unicode.ToUpper":       runeMap(unicode.ToUpper),
		"unicode/utf8.DecodeRune": func(m *Machine, t *Thread, a []Value) Value {
			return decode1(m, bytesOf(m, a[0]))
		},
		"unicode/utf8.DecodeRuneInString": func(m *Machine, t *Thread, a []Value) Value {
			return decode1(m, bytesOf(m, a[0]))
		},
		"unicode/utf8.AppendRune": func(m *Machine, t *Thread, a []Value) Value {
			s, _ := a[0].(Slice)
			return m.appendVals(s, bytesToSlice(m.encodeRune(a[1].(*Expr))), types.Typ[types.Uint8], false)
		},
		"unicode/utf8.EncodeRune": func(m *Machine, t *Thread, a []Value) Value {
			s, _ := a[0].(Slice)
			b := m.encodeRune(a[1].(*Expr))
			if len(s) < len(b) {
				panic(m.rtErr("index out of range"))
			}
			for i := range b {
				m.storeCell(&s[i], b[i])
			}
			return i64(len(b))
		},
		"unicode/utf8.RuneLen": func(m *Machine, t *Thread, a []Value) Value {
			r := a[0].(*Expr)
			if r.isConst() {
				v := int32(r.val)
				switch {
				case v < 0 || v > unicode.MaxRune || 0xD800 <= v && v <= 0xDFFF:
					return i64(-1)
				}
				return i64(len(string(rune(v))))
			}
			return callBody{}
		},
		"unicode/utf8.ValidString":       validUTF8,
		"unicode/utf8.Valid":             validUTF8,
		"unicode/utf8.RuneCountInString": runeCount,
		"unicode/utf8.RuneCount":         runeCount,

		"strconv.ParseFloat": parseFloat,
		"strconv.FormatFloat": func(m *Machine, t *Thread, a []Value) Value {
			f := a[0].(Float)
			x, ok := f.conc()
			if ok && allConc(a[1:]...) {
				return S(strconv.FormatFloat(x, byte(a[1].(*Expr).val), int(signed(a[2].(*Expr).val, 64)), int(a[3].(*Expr).val)))
			}
			if p := a[2].(*Expr); !p.isConst() || int64(p.val) != -1 {
				panic(unsupported("symbolic float with a precision"))
			}
			return m.floatToken(f)
		},
		"strconv.FormatInt": func(m *Machine, t *Thread, a []Value) Value {
			if !allConc(a...) {
				return callBody{}
			}
			return S(strconv.FormatInt(int64(a[0].(*Expr).val), int(a[1].(*Expr).val)))
		},
		"strconv.FormatUint": func(m *Machine, t *Thread, a []Value) Value {
			if !allConc(a...) {
				return callBody{}
			}
			return S(strconv.FormatUint(a[0].(*Expr).val, int(a[1].(*Expr).val)))
		},
		"strconv.Itoa": func(m *Machine, t *Thread, a []Value) Value {
			if !allConc(a...) {
				return callBody{}
			}
			return S(strconv.Itoa(int(int64(a[0].(*Expr).val))))
		},
		"strconv.Quote":              quoteApprox,
		"internal/stringslite.Clone": ident,
		"strings.Clone":              ident,

		"math.Float64bits":     func(m *Machine, t *Thread, a []Value) Value { return a[0].(Float).bits },
		"math.Float64frombits": func(m *Machine, t *Thread, a []Value) Value { return Float{a[0].(*Expr)} },
		"math.Float32bits": func(m *Machine, t *Thread, a []Value) Value {
			f, ok := a[0].(Float).conc()
			if !ok {
				panic(unsupported("symbolic float32 bits"))
			}
			return Const(32, uint64(math.Float32bits(float32(f))))
		},
		"math.Float32frombits": func(m *Machine, t *Thread, a []Value) Value {
			e := a[0].(*Expr)
			if !e.isConst() {
				panic(unsupported("symbolic float32 bits"))
			}
			return mkFloat(float64(math.Float32frombits(uint32(e.val))))
		},

		"internal/abi.NoEscape":   ident,
		"internal/abi.Escape":     ident,
		"internal/abi.FuncPCABI0": retZero,
		"runtime.KeepAlive":       nop,
		"runtime.GC":              nop,
		"runtime.SetFinalizer":    nop,
		"runtime.Gosched": func(m *Machine, t *Thread, a []Value) Value {
			if m.yieldPoint(t) {
				return noAdvance{}
			}
			return nil
		},
		"internal/race.Acquire":                     nop,
		"internal/race.Release":                     nop,
		"internal/race.Enable":                      nop,
		"internal/race.Disable":                     nop,
		"internal/race.Read":                        nop,
		"internal/race.Write":                       nop,
		"internal/race.ReadRange":                   nop,
		"internal/race.WriteRange":                  nop,
		"internal/race.Errors":                      retZero,
		"internal/godebug.New":                      func(m *Machine, t *Thread, a []Value) Value { return (*Value)(nil) },
		"(*internal/godebug.Setting).Value":         func(m *Machine, t *Thread, a []Value) Value { return Str{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,

		"(*sync.Mutex).Lock":       doLock,
		"(*sync.Mutex).Unlock":     doUnlock,
		"(*sync.Mutex).TryLock":    doTryLock,
		"(*sync.RWMutex).Lock":     doLock,
		"(*sync.RWMutex).Unlock":   doUnlock,
		"(*sync.RWMutex).RLock":    doRLock,
		"(*sync.RWMutex).RUnlock":  doRUnlock,
		"(*sync.RWMutex).TryLock":  doTryLock,
		"(*sync.RWMutex).TryRLock": doTryRLock,
		"verif/models.order": func(m *Machine, t *Thread, a []Value) Value {
			m.atomicSync(t, lockPtr(m, a[0]))
			return nil
		},

		"time.now": func(m *Machine, t *Thread, a []Value) Value {
			return Tuple{Const(64, 1700000000), Const(32, 0), Const(64, 1)}
		},
		"time.runtimeNow": func(m *Machine, t *Thread, a []Value) Value {
			return Tuple{Const(64, 1700000000), Const(32, 0), Const(64, 1)}
		},
		"time.runtimeNano":        func(m *Machine, t *Thread, a []Value) Value { return Const(64, 1) },
		"time.Now":                timeNow,
		"time.initLocal":          nop,
		"runtime.nanotime":        func(m *Machine, t *Thread, a []Value) Value { return Const(64, 1) },
		"os.runtime_args":         func(m *Machine, t *Thread, a []Value) Value { return Slice(nil) },
		"internal/cpu.Initialize": nop,
		"internal/cpu.Name":       func(m *Machine, t *Thread, a []Value) Value { return Str{} },
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+w] = atomicLoad
		intrinsics["sync/atomic.Store"+w] = atomicStore
		intrinsics["sync/atomic.Add"+w] = atomicAdd
		intrinsics["sync/atomic.Swap"+w] = atomicSwap
		intrinsics["sync/atomic.CompareAndSwap"+w] = atomicCAS
	}
	globalInits = map[string]func(m *Machine) Value{
		"internal/bytealg.MaxLen": func(m *Machine) Value { return i64(63) },
		"os.Args":                 func(m *Machine) Value { return Slice(nil) },
		"internal/cpu.X86":        func(m *Machine) Value { return nil },
	}
	delete(globalInits, "internal/cpu.X86")
	initSym()
	initReflect()
	initRegexp()
}

func timeNow(m *Machine, t *Thread, a []Value) Value {
	// an arbitrary but fixed instant, UTC
	tm := time.Unix(1700000000, 0).UTC()
	return Struct{Const(64, 0), Const(64, uint64(tm.Unix()+62135596800)), (*Value)(nil)}
}

func countBytes(m *Machine, t *Thread, a []Value) Value {
	n := 0
	c := a[1].(*Expr)
	for _, x := range bytesOf(m, a[0]) {
		if m.branch(m.ctx.Eq(x, c)) {
			n++
		}
	}
	return i64(n)
}

func compareBytes(m *Machine, t *Thread, a []Value) Value {
	x, y := mkStr(bytesOf(m, a[0])), mkStr(bytesOf(m, a[1]))
	if m.branch(m.strEq(x, y)) {
		return i64(0)
	}
	if m.branch(m.strLess(x, y, false)) {
		return i64(-1)
	}
	return i64(1)
}

func decode1(m *Machine, b []*Expr) Value {
	if len(b) == 0 {
		return Tuple{Const(32, 0xFFFD), i64(0)}
	}
	r, n := m.decodeRune(b, 0)
	return Tuple{r, i64(n)}
}

func validUTF8(m *Machine, t *Thread, a []Value) Value {
	b := bytesOf(m, a[0])
	for i := 0; i < len(b); {
		r, n := m.decodeRune(b, i)
		if n == 1 && r.isConst() && r.val == 0xFFFD {
			return eFalse
		}
		i += n
	}
	return eTrue
}

func runeCount(m *Machine, t *Thread, a []Value) Value {
	b := bytesOf(m, a[0])
	k := 0
	for i := 0; i < len(b); {
		_, n := m.decodeRune(b, i)
		i += n
		k++
	}
	return i64(k)
}

var _ = ssa.NaiveForm
