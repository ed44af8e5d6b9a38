package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreted Go value:
//
//	*Expr        booleans and integers
//	Float        floating point (64-bit pattern; float32 kept as float64)
//	Str          strings
//	Slice        slices (nil for nil slices)
//	Struct,Array aggregates; in memory their elements are addressable cells
//	*Value       pointers (nil pointer: (*Value)(nil))
//	*MapObj      maps
//	*Closure     functions
//	Iface        interfaces
//	Tuple        multiple results
//	RV, RT       reflect.Value, *reflect.rtype
//	*Native      host objects
//	*ChanObj     channels
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Float struct{ bits *Expr }

// Str is an immutable string: concrete (b == nil) or a list of byte expressions.
type Str struct {
	s string
	b []*Expr
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(m *Machine, args []Value) Value // native function value
}

type mapEntry struct {
	k, v Value
}

// MapObj holds entries in insertion order; the slice is replaced, never changed in place.
type MapObj struct {
	ents []mapEntry
}

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	et     types.Type
}

type Native struct{ x any }

type iterStr struct {
	s   Str
	pos Value // *Expr cell
}
type iterMap struct {
	m   *MapObj
	ks  []Value
	pos Value
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) At(i int) *Expr {
	if s.b != nil {
		return s.b[i]
	}
	return constTab[1][s.s[i]]
}

func (s Str) Conc() (string, bool) {
	if s.b == nil {
		return s.s, true
	}
	return "", false
}

func mkStr(b []*Expr) Str {
	for _, e := range b {
		if !e.isConst() {
			return Str{b: b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, e := range b {
		sb.WriteByte(byte(e.val))
	}
	return Str{s: sb.String()}
}

func (s Str) Sub(i, j int) Str {
	if s.b != nil {
		if i == j {
			return Str{}
		}
		return mkStr(s.b[i:j:j])
	}
	return Str{s: s.s[i:j]}
}

func (s Str) Bytes() []*Expr {
	if s.b != nil {
		return s.b
	}
	r := make([]*Expr, len(s.s))
	for i := range r {
		r[i] = constTab[1][s.s[i]]
	}
	return r
}

func concat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*Expr, 0, a.Len()+b.Len())
	r = append(r, a.Bytes()...)
	r = append(r, b.Bytes()...)
	return Str{b: r}
}

func S(s string) Str { return Str{s: s} }

func bytesToSlice(b []*Expr) Slice {
	r := make(Slice, len(b))
	for i, e := range b {
		r[i] = e
	}
	return r
}

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo gives the width and signedness of an integer or boolean type; w==255 when it is something else.
func intInfo(t types.Type) (w uint8, sgn bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 255, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 255, false
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

var zeroFloat = Float{Const(64, 0)}

// zero makes a fresh zero value of type t.
func zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Named:
		if isNamed(t, "reflect", "Value") {
			return RV{}
		}
		return zero(u.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Basic:
		if w, _ := intInfo(t); w != 255 {
			return Const(w, 0)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return zeroFloat
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return Native{} // complex: unsupported, kept opaque
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		fillZero([]Value(a), u.Elem())
		return a
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero of %T", t)))
}

func fillZero(a []Value, et types.Type) {
	if len(a) == 0 {
		return
	}
	switch under(et).(type) {
	case *types.Struct, *types.Array:
		for i := range a {
			a[i] = zero(et)
		}
	default:
		z := zero(et)
		for i := range a {
			a[i] = z
		}
	}
}

// deepCopy copies aggregates so that the result shares no cells with v.
func deepCopy(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = deepCopy(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = deepCopy(v[i])
		}
		return r
	}
	return v
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

// ---- Go's slice growth rule (capacities are observable through aliasing) ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(oldCap, need, esize int) int {
	c := oldCap
	if need > 2*oldCap {
		c = need
	} else if oldCap < 256 {
		c = 2 * oldCap
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	if c < need {
		c = need
	}
	if esize == 0 {
		return c
	}
	r := roundupsize(c*esize) / esize
	if r < c {
		r = c
	}
	return r
}

var sizes = types.SizesFor("gc", "amd64")

func esizeOf(t types.Type) int {
	defer func() { recover() }()
	return int(sizes.Sizeof(t))
}
