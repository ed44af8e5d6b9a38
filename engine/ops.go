package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func mkFloat(f float64) Float { return Float{Const(64, math.Float64bits(f))} }

func (f Float) conc() (float64, bool) {
	if f.bits.isConst() {
		return math.Float64frombits(f.bits.val), true
	}
	return 0, false
}

func (m *Machine) floatBin(op token.Token, a, b Float, t types.Type) Value {
	switch op {
	case token.LSS:
		return m.ctx.FCmp(OpFLt, a.bits, b.bits)
	case token.LEQ:
		return m.ctx.FCmp(OpFLe, a.bits, b.bits)
	case token.GTR:
		return m.ctx.FCmp(OpFLt, b.bits, a.bits)
	case token.GEQ:
		return m.ctx.FCmp(OpFLe, b.bits, a.bits)
	case token.EQL:
		return m.ctx.FCmp(OpFEq, a.bits, b.bits)
	case token.NEQ:
		return m.ctx.Not(m.ctx.FCmp(OpFEq, a.bits, b.bits))
	}
	if op == token.MUL {
		if x, ok := b.conc(); ok && x == -1 {
			return Float{m.ctx.Bin(OpBXor, a.bits, Const(64, 1<<63))}
		}
	}
	x, ok1 := a.conc()
	y, ok2 := b.conc()
	if !ok1 || !ok2 {
		o, ok := map[token.Token]Op{token.ADD: OpFAdd, token.SUB: OpFSub, token.MUL: OpFMul, token.QUO: OpFDiv}[op]
		if !ok {
			panic(unsupported("float op " + op.String()))
		}
		r := m.ctx.ArithF(o, a.bits, b.bits)
		if bt, ok := under(t).(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = m.ctx.ConvF(OpF32, r)
		}
		return Float{r}
	}
	var r float64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	default:
		panic(unsupported("float op " + op.String()))
	}
	if bt, ok := under(t).(*types.Basic); ok && bt.Kind() == types.Float32 {
		r = float64(float32(r))
	}
	return mkFloat(r)
}

func (m *Machine) strEq(a, b Str) *Expr {
	if a.Len() != b.Len() {
		return eFalse
	}
	if a.b == nil && b.b == nil {
		return Bool(a.s == b.s)
	}
	r := eTrue
	for i := 0; i < a.Len(); i++ {
		x, y := a.At(i), b.At(i)
		e := m.ctx.Eq(x, y)
		if e.isFalse() {
			return eFalse
		}
		// the domains may already tell the bytes apart
		if y.isConst() && x.op == OpVar || x.isConst() && y.op == OpVar {
			v, c := x, y
			if x.isConst() {
				v, c = y, x
			}
			d := m.dom[v.val]
			if d[c.val>>6]>>(c.val&63)&1 == 0 {
				m.obligation(e)
				return eFalse
			}
		}
		r = m.ctx.And(r, e)
	}
	return r
}

// strLess is lexicographic order.
func (m *Machine) strLess(a, b Str, orEq bool) *Expr {
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	var r *Expr
	if orEq {
		r = Bool(a.Len() <= b.Len())
	} else {
		r = Bool(a.Len() < b.Len())
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.At(i), b.At(i)
		r = m.ctx.Or(m.ctx.Ult(x, y), m.ctx.And(m.ctx.Eq(x, y), r))
	}
	return r
}

// eq builds the condition a == b for values of type t.
func (m *Machine) eq(t types.Type, a, b Value) *Expr {
	switch x := a.(type) {
	case *Expr:
		return m.ctx.Eq(x, b.(*Expr))
	case Float:
		return m.ctx.FCmp(OpFEq, x.bits, b.(Float).bits)
	case Str:
		return m.strEq(x, b.(Str))
	case *Value:
		y, ok := b.(*Value)
		return Bool(ok && x == y)
	case *MapObj:
		y, _ := b.(*MapObj)
		return Bool(x == y)
	case *ChanObj:
		y, _ := b.(*ChanObj)
		return Bool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		if x == nil || y == nil {
			return Bool(x == nil && y == nil)
		}
		return Bool(x == y)
	case Slice:
		y, _ := b.(Slice)
		return Bool(x == nil && y == nil)
	case Native:
		y, _ := b.(Native)
		return Bool(x.x == y.x)
	case RT:
		y, ok := b.(RT)
		return Bool(ok && types.Identical(x.t, y.t))
	case Struct:
		y := b.(Struct)
		st, _ := under(t).(*types.Struct)
		r := eTrue
		for i := range x {
			if st != nil && st.Field(i).Name() == "_" {
				continue
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			r = m.ctx.And(r, m.eq(ft, x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := eTrue
		for i := range x {
			var et types.Type
			if at, ok := under(t).(*types.Array); ok {
				et = at.Elem()
			}
			r = m.ctx.And(r, m.eq(et, x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("interface compared with %T", b)))
		}
		if x.t == nil || y.t == nil {
			return Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return eFalse
		}
		if !types.Comparable(x.t) {
			panic(m.rtErr("comparing uncomparable type " + x.t.String()))
		}
		return m.eq(x.t, x.v, y.v)
	case *SymPtr:
		panic(unsupported("comparison of symbolic pointers"))
	case slicePtr:
		y, ok := b.(slicePtr)
		return Bool(ok && len(x.s) > 0 && len(y.s) > 0 && &x.s[0] == &y.s[0])
	case RV:
		panic(unsupported("comparison of reflect values"))
	case nil:
		return Bool(b == nil)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", a)))
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		if _, ok := a.(Float); !ok {
			return m.eqMixed(tx, ty, a, b)
		}
	case token.NEQ:
		if _, ok := a.(Float); !ok {
			return m.ctx.Not(m.eqMixed(tx, ty, a, b))
		}
	}
	switch x := a.(type) {
	case *Expr:
		y := b.(*Expr)
		return m.intBin(op, tx, ty, x, y)
	case Float:
		return m.floatBin(op, x, b.(Float), tx)
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			return concat(x, y)
		case token.LSS:
			return m.strLess(x, y, false)
		case token.LEQ:
			return m.strLess(x, y, true)
		case token.GTR:
			return m.strLess(y, x, false)
		case token.GEQ:
			return m.strLess(y, x, true)
		}
	}
	panic(unsupported(fmt.Sprintf("operator %s on %T", op, a)))
}

func (m *Machine) eqMixed(tx, ty types.Type, a, b Value) *Expr {
	_, ia := a.(Iface)
	_, ib := b.(Iface)
	if ia && !ib {
		b = Iface{t: ty, v: b}
	} else if ib && !ia {
		a = Iface{t: tx, v: a}
	}
	return m.eq(tx, a, b)
}

func (m *Machine) intBin(op token.Token, tx, ty types.Type, x, y *Expr) Value {
	c := m.ctx
	w, sgn := intInfo(tx)
	if w == 0 {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	switch op {
	case token.ADD:
		return c.Bin(OpAdd, x, y)
	case token.SUB:
		return c.Bin(OpSub, x, y)
	case token.MUL:
		return c.Bin(OpMul, x, y)
	case token.QUO, token.REM:
		if m.branch(c.Eq(y, Const(y.w, 0))) {
			panic(m.rtErr("integer divide by zero"))
		}
		switch {
		case op == token.QUO && sgn:
			return c.Bin(OpSDiv, x, y)
		case op == token.QUO:
			return c.Bin(OpUDiv, x, y)
		case sgn:
			return c.Bin(OpSRem, x, y)
		}
		return c.Bin(OpURem, x, y)
	case token.AND:
		return c.Bin(OpBAnd, x, y)
	case token.OR:
		return c.Bin(OpBOr, x, y)
	case token.XOR:
		return c.Bin(OpBXor, x, y)
	case token.AND_NOT:
		return c.Bin(OpBAnd, x, c.Bin(OpBXor, y, Const(y.w, ^uint64(0))))
	case token.SHL, token.SHR:
		_, ysgn := intInfo(ty)
		if ysgn {
			if m.branch(c.Slt(y, Const(y.w, 0))) {
				panic(m.rtErr("negative shift amount"))
			}
		}
		// bring the count to the operand's width, saturating
		if y.w > x.w {
			big := c.Ule(Const(y.w, uint64(x.w)), y)
			y = c.Ite(big, Const(x.w, uint64(x.w)), c.Trunc(y, x.w))
		} else if y.w < x.w {
			y = c.ZExt(y, x.w)
		}
		switch {
		case op == token.SHL:
			return c.Bin(OpShl, x, y)
		case sgn:
			return c.Bin(OpAShr, x, y)
		}
		return c.Bin(OpLShr, x, y)
	case token.LSS:
		if sgn {
			return c.Slt(x, y)
		}
		return c.Ult(x, y)
	case token.LEQ:
		if sgn {
			return c.Sle(x, y)
		}
		return c.Ule(x, y)
	case token.GTR:
		if sgn {
			return c.Slt(y, x)
		}
		return c.Ult(y, x)
	case token.GEQ:
		if sgn {
			return c.Sle(y, x)
		}
		return c.Ule(y, x)
	}
	panic(unsupported("integer operator " + op.String()))
}

// ---------- conversions ----------

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (m *Machine) convert(from, to types.Type, v Value) Value {
	if tp, ok := from.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("conversion from type parameter"))
	}
	switch x := v.(type) {
	case *Expr:
		fw, fs := intInfo(from)
		if tw, _ := intInfo(to); tw != 255 {
			if fw == tw {
				return x
			}
			return m.ctx.Conv(x, tw, fs)
		}
		if isString(to) {
			r := m.ctx.Conv(x, 32, fs)
			if x.w == 64 && !m.branch(m.ctx.Eq(m.ctx.Conv(r, 64, fs), x)) {
				r = Const(32, 0xFFFD)
			}
			return mkStr(m.encodeRune(r))
		}
		if isFloat(to) {
			if !x.isConst() {
				o := OpU2F
				if fs {
					o = OpS2F
				}
				r := m.ctx.ConvF(o, m.ctx.Conv(x, 64, fs))
				if under(to).(*types.Basic).Kind() == types.Float32 {
					panic(unsupported("conversion of a symbolic integer to float32")) // would round twice
				}
				return Float{r}
			}
			var f float64
			if fs {
				f = float64(signed(x.val, x.w))
			} else {
				f = float64(x.val)
			}
			if under(to).(*types.Basic).Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return mkFloat(f)
		}
	case Float:
		if isFloat(to) {
			if under(to).(*types.Basic).Kind() == types.Float32 && under(from).(*types.Basic).Kind() != types.Float32 {
				if f, ok := x.conc(); ok {
					return mkFloat(float64(float32(f)))
				}
				return Float{m.ctx.ConvF(OpF32, x.bits)}
			}
			return x
		}
		if tw, ts := intInfo(to); tw != 255 {
			f, ok := x.conc()
			if !ok {
				panic(unsupported("conversion of a symbolic float to integer"))
			}
			if ts {
				return Const(tw, uint64(int64(f)))
			}
			return Const(tw, uint64(f))
		}
	case Str:
		if isString(to) {
			return x
		}
		if st, ok := under(to).(*types.Slice); ok {
			w, _ := intInfo(st.Elem())
			if w == 8 {
				n := x.Len()
				c := roundupsize(n)
				if n == 0 {
					return Slice{}
				}
				r := make(Slice, n, c)
				for i := 0; i < n; i++ {
					r[i] = x.At(i)
				}
				fillZero(r[:c][n:], st.Elem())
				return r
			}
			if w == 32 {
				var r Slice = Slice{}
				for i := 0; i < x.Len(); {
					c, n := m.decodeRune(x.Bytes(), i)
					r = append(r, c)
					i += n
				}
				return r[:len(r):len(r)]
			}
		}
	case Slice:
		if isString(to) {
			st := under(from).(*types.Slice)
			w, _ := intInfo(st.Elem())
			if w == 8 {
				if m.race != nil {
					for i := range x {
						m.raceAccess(&x[i], false)
					}
				}
				b := make([]*Expr, len(x))
				for i := range x {
					b[i] = x[i].(*Expr)
				}
				return mkStr(b)
			}
			if w == 32 {
				var b []*Expr
				for i := range x {
					b = append(b, m.encodeRune(x[i].(*Expr))...)
				}
				return mkStr(b)
			}
		}
		return v
	}
	// pointers, unsafe pointers, channels, functions
	switch under(to).(type) {
	case *types.Pointer, *types.Basic, *types.Chan, *types.Signature, *types.Map, *types.Struct, *types.Slice, *types.Interface, *types.Array:
		if b, ok := under(to).(*types.Basic); ok && b.Kind() != types.UnsafePointer {
			break
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
}

// decodeRune decodes one rune at position i, forking as needed.
func (m *Machine) decodeRune(b []*Expr, i int) (*Expr, int) {
	c := m.ctx
	b0 := b[i]
	if m.branch(c.Ult(b0, Const(8, 0x80))) {
		return c.ZExt(b0, 32), 1
	}
	bad := Const(32, 0xFFFD)
	rng := func(x *Expr, lo, hi uint64) *Expr {
		return c.And(c.Ule(Const(8, lo), x), c.Ule(x, Const(8, hi)))
	}
	n := len(b) - i
	if n < 2 {
		return bad, 1
	}
	part := func(x *Expr, mk uint64, sh uint64) *Expr {
		return c.Bin(OpShl, c.ZExt(c.Bin(OpBAnd, x, Const(8, mk)), 32), Const(32, sh))
	}
	or := func(x, y *Expr) *Expr { return c.Bin(OpBOr, x, y) }
	b1 := b[i+1]
	if m.branch(rng(b0, 0xC2, 0xDF)) {
		if !m.branch(rng(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		r := or(part(b0, 0x1F, 6), part(b1, 0x3F, 0))
		m.noteRune(r, b[i:i+2])
		return r, 2
	}
	if m.branch(rng(b0, 0xE0, 0xEF)) {
		if n < 3 || !m.branch(rng(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		if m.branch(c.Eq(b0, Const(8, 0xE0))) {
			if !m.branch(c.Ule(Const(8, 0xA0), b1)) {
				return bad, 1
			}
		} else if m.branch(c.Eq(b0, Const(8, 0xED))) {
			if !m.branch(c.Ule(b1, Const(8, 0x9F))) {
				return bad, 1
			}
		}
		b2 := b[i+2]
		if !m.branch(rng(b2, 0x80, 0xBF)) {
			return bad, 1
		}
		r := or(or(part(b0, 0x0F, 12), part(b1, 0x3F, 6)), part(b2, 0x3F, 0))
		m.noteRune(r, b[i:i+3])
		return r, 3
	}
	if n >= 4 && m.branch(rng(b0, 0xF0, 0xF4)) {
		if !m.branch(rng(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		if m.branch(c.Eq(b0, Const(8, 0xF0))) {
			if !m.branch(c.Ule(Const(8, 0x90), b1)) {
				return bad, 1
			}
		} else if m.branch(c.Eq(b0, Const(8, 0xF4))) {
			if !m.branch(c.Ule(b1, Const(8, 0x8F))) {
				return bad, 1
			}
		}
		b2, b3 := b[i+2], b[i+3]
		if !m.branch(rng(b2, 0x80, 0xBF)) || !m.branch(rng(b3, 0x80, 0xBF)) {
			return bad, 1
		}
		r := or(or(part(b0, 0x07, 18), part(b1, 0x3F, 12)), or(part(b2, 0x3F, 6), part(b3, 0x3F, 0)))
		m.noteRune(r, b[i:i+4])
		return r, 4
	}
	return bad, 1
}

// noteRune remembers the bytes a rune expression was decoded from: encoding it gives them back.
func (m *Machine) noteRune(r *Expr, b []*Expr) {
	if !r.isConst() {
		m.runeSrc[r] = b
	}
}

func (m *Machine) encodeRune(r *Expr) []*Expr {
	if r.isConst() {
		return S(string(rune(int32(r.val)))).Bytes()
	}
	if b, ok := m.runeSrc[r]; ok {
		return b
	}
	c := m.ctx
	if m.branch(c.Ult(r, Const(32, 0x80))) {
		return []*Expr{c.Trunc(r, 8)}
	}
	ext := func(sh uint64, mk uint64, lead uint64) *Expr {
		return c.Bin(OpBOr, c.Bin(OpBAnd, c.Trunc(c.Bin(OpLShr, r, Const(32, sh)), 8), Const(8, mk)), Const(8, lead))
	}
	if m.branch(c.Ult(r, Const(32, 0x800))) {
		return []*Expr{ext(6, 0x1F, 0xC0), ext(0, 0x3F, 0x80)}
	}
	bad := m.branch(c.Or(c.And(c.Ule(Const(32, 0xD800), r), c.Ule(r, Const(32, 0xDFFF))), c.Ult(Const(32, 0x10FFFF), r)))
	if bad {
		return S("\uFFFD").Bytes()
	}
	if m.branch(c.Ult(r, Const(32, 0x10000))) {
		return []*Expr{ext(12, 0x0F, 0xE0), ext(6, 0x3F, 0x80), ext(0, 0x3F, 0x80)}
	}
	return []*Expr{ext(18, 0x07, 0xF0), ext(12, 0x3F, 0x80), ext(6, 0x3F, 0x80), ext(0, 0x3F, 0x80)}
}

// ---------- indexing ----------

// inRange branches on 0 <= idx < n and panics like Go when it is not.
func (m *Machine) inRange(idx *Expr, it types.Type, n int) {
	w, sgn := intInfo(it)
	if idx.isConst() {
		if sgn {
			if v := signed(idx.val, w); v >= 0 && v < int64(n) {
				return
			}
		} else if idx.val < uint64(n) {
			return
		}
		panic(m.rtErr("index out of range"))
	}
	_ = w
	var ok *Expr
	if n == 0 {
		ok = eFalse
	} else if uint64(n) > mask(idx.w) {
		ok = eTrue
		if sgn {
			ok = m.ctx.Sle(Const(idx.w, 0), idx)
		}
	} else {
		ok = m.ctx.Ult(idx, Const(idx.w, uint64(n)))
	}
	if !m.branch(ok) {
		panic(m.rtErr("index out of range"))
	}
}

func (m *Machine) indexAddr(p Value, idx *Expr, it types.Type) Value {
	var cells []Value
	switch x := p.(type) {
	case Slice:
		cells = x
	case *Value:
		if x == nil {
			panic(m.rtErr("invalid memory address or nil pointer dereference"))
		}
		a, ok := (*x).(Array)
		if !ok {
			if bg, ok := (*x).(badGlobal); ok {
				panic(unsupported("global " + bg.name + " of a package that is not initialised"))
			}
			panic(unsupported(fmt.Sprintf("index of cell holding %T", *x)))
		}
		cells = a
	case *SymPtr:
		i := m.concretize(x.idx)
		return m.indexAddr(&x.cells[i], idx, it)
	default:
		panic(unsupported(fmt.Sprintf("index address of %T", p)))
	}
	m.inRange(idx, it, len(cells))
	if idx.isConst() {
		return &cells[idx.val]
	}
	return &SymPtr{cells: cells, idx: idx}
}

func (m *Machine) index(v Value, idx *Expr, it types.Type) Value {
	switch x := v.(type) {
	case Str:
		m.inRange(idx, it, x.Len())
		if idx.isConst() {
			return x.At(int(idx.val))
		}
		if c, ok := x.Conc(); ok {
			tab := make([]uint64, len(c))
			for i := range tab {
				tab[i] = uint64(c[i])
			}
			return m.ctx.Table(idx, 8, tab)
		}
		return x.At(int(m.concretize(idx)))
	case Array:
		m.inRange(idx, it, len(x))
		if idx.isConst() {
			return deepCopy(x[idx.val])
		}
		if r := m.symIndex(x, idx); r != nil {
			return r
		}
		return deepCopy(x[m.concretize(idx)])
	}
	panic(unsupported(fmt.Sprintf("index of %T", v)))
}

func (m *Machine) mapFind(mo *MapObj, kt types.Type, k Value) int {
	if mo == nil {
		return -1
	}
	for i := range mo.ents {
		e := m.eq(kt, mo.ents[i].k, k)
		if e.isConst() {
			if e.val == 1 {
				return i
			}
			continue
		}
		if m.branch(e) {
			return i
		}
	}
	return -1
}

func (m *Machine) lookup(in *ssa.Lookup, v, k Value) Value {
	if s, ok := v.(Str); ok {
		return m.index(s, k.(*Expr), in.Index.Type())
	}
	mo, ok := v.(*MapObj)
	if !ok {
		panic(unsupported(fmt.Sprintf("lookup in %T", v)))
	}
	mt := under(in.X.Type()).(*types.Map)
	if mo != nil && m.race != nil {
		m.raceMap(mo, false)
	}
	i := m.mapFind(mo, mt.Key(), k)
	var r Value
	if i >= 0 {
		r = deepCopy(mo.ents[i].v)
	} else {
		r = zero(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{r, Bool(i >= 0)}
	}
	return r
}

func (m *Machine) setEnts(mo *MapObj, e []mapEntry) {
	old := mo.ents
	m.undo(func() { mo.ents = old })
	mo.ents = e
}

func (m *Machine) mapSet(mo *MapObj, kt types.Type, k, v Value) {
	if ik, ok := k.(Iface); ok && ik.t != nil && !types.Comparable(ik.t) {
		panic(m.rtErr("hash of unhashable type " + ik.t.String()))
	}
	if m.race != nil {
		m.raceMap(mo, true)
	}
	i := m.mapFind(mo, kt, k)
	v = deepCopy(v)
	ne := make([]mapEntry, len(mo.ents), len(mo.ents)+1)
	copy(ne, mo.ents)
	if i >= 0 {
		ne[i].v = v
	} else {
		ne = append(ne, mapEntry{deepCopy(k), v})
	}
	m.setEnts(mo, ne)
}

func (m *Machine) mapDelete(mo *MapObj, kt types.Type, k Value) {
	if mo == nil {
		return
	}
	if m.race != nil {
		m.raceMap(mo, true)
	}
	i := m.mapFind(mo, kt, k)
	if i < 0 {
		return
	}
	ne := make([]mapEntry, 0, len(mo.ents))
	ne = append(ne, mo.ents[:i]...)
	ne = append(ne, mo.ents[i+1:]...)
	m.setEnts(mo, ne)
}

const absent = -1 << 60

func (m *Machine) slice(in *ssa.Slice, v Value, lo, hi, max int) Value {
	if lo == absent {
		lo = 0
	}
	switch x := v.(type) {
	case Str:
		n := x.Len()
		if hi == absent {
			hi = n
		}
		if hi < 0 || hi > n {
			panic(m.rtErr(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n)))
		}
		if lo < 0 || lo > hi {
			panic(m.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)))
		}
		return x.Sub(lo, hi)
	case Slice:
		if hi == absent {
			hi = len(x)
		}
		if max == absent {
			max = cap(x)
		}
		if max < 0 || max > cap(x) || hi < 0 || hi > max || lo < 0 || lo > hi {
			panic(m.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(x))))
		}
		if x == nil {
			return Slice(nil)
		}
		return x[lo:hi:max]
	case *Value:
		if x == nil {
			panic(m.rtErr("invalid memory address or nil pointer dereference"))
		}
		a, ok := (*x).(Array)
		if !ok {
			panic(unsupported(fmt.Sprintf("slice of cell holding %T", *x)))
		}
		if hi == absent {
			hi = len(a)
		}
		if max == absent {
			max = len(a)
		}
		if max < 0 || max > len(a) || hi < 0 || hi > max || lo < 0 || lo > hi {
			panic(m.rtErr("slice bounds out of range"))
		}
		return Slice(a[lo:hi:max])
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := m.impl[k]; ok {
		return r
	}
	m.eng.mu.Lock()
	r := types.Implements(t, it)
	m.eng.mu.Unlock()
	m.impl[k] = r
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assertion on %T", v)))
	}
	var res Value
	good := false
	if it, isI := under(in.AssertedType).(*types.Interface); isI {
		good = i.t != nil && m.implements(i.t, it)
		res = i
	} else {
		good = i.t != nil && types.Identical(i.t, in.AssertedType)
		res = i.v
	}
	if in.CommaOk {
		if !good {
			res = zero(in.AssertedType)
		}
		return Tuple{res, Bool(good)}
	}
	if !good {
		have := "nil"
		if i.t != nil {
			have = i.t.String()
		}
		panic(m.rtErr(fmt.Sprintf("interface conversion: interface is %s, not %s", have, in.AssertedType)))
	}
	return res
}

func (m *Machine) next(in *ssa.Next, it Value) Value {
	switch it := it.(type) {
	case *iterStr:
		p := int(it.pos.(*Expr).val)
		if p >= it.s.Len() {
			return Tuple{eFalse, Const(64, 0), Const(32, 0)}
		}
		r, n := m.decodeRune(it.s.Bytes(), p)
		m.set(&it.pos, Const(64, uint64(p+n)))
		return Tuple{eTrue, Const(64, uint64(p)), r}
	case *iterMap:
		tt := in.Type().(*types.Tuple)
		for {
			p := int(it.pos.(*Expr).val)
			if p >= len(it.ks) {
				z := func(i int) Value {
					if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
						return nil
					}
					return zero(tt.At(i).Type())
				}
				return Tuple{eFalse, z(1), z(2)}
			}
			m.set(&it.pos, Const(64, uint64(p+1)))
			if m.race != nil {
				m.raceMap(it.m, false)
			}
			k := it.ks[p]
			for _, e := range it.m.ents {
				if sameKey(e.k, k) {
					return Tuple{eTrue, deepCopy(k), deepCopy(e.v)}
				}
			}
		}
	}
	panic(unsupported(fmt.Sprintf("next on %T", it)))
}

// sameKey tells whether two stored keys are the very same entry key.
func sameKey(a, b Value) bool {
	switch x := a.(type) {
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			p, q := x.At(i), y.At(i)
			if p != q && !(p.isConst() && q.isConst() && p.val == q.val) {
				return false
			}
		}
		return true
	case *Expr:
		y, ok := b.(*Expr)
		return ok && (x == y || x.isConst() && y.isConst() && x.val == y.val)
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) && sameKey(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameKey(x[i], y[i]) {
				return false
			}
		}
		return true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameKey(x[i], y[i]) {
				return false
			}
		}
		return true
	case Float:
		y, ok := b.(Float)
		return ok && (x.bits == y.bits || x.bits.isConst() && y.bits.isConst() && x.bits.val == y.bits.val)
	case RT:
		y, ok := b.(RT)
		return ok && types.Identical(x.t, y.t)
	}
	return a == b
}

// ---------- constants ----------

func (m *Machine) ssaConst(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.Tuple); ok {
			return zero(t)
		}
		return zero(t)
	}
	if tp, ok := under(t).(*types.Interface); ok {
		_ = tp
		panic(unsupported("constant of interface type"))
	}
	if w, _ := intInfo(t); w != 255 {
		if w == 0 {
			return Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return Const(w, u)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return S(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return S(string(rune(i)))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		if under(t).(*types.Basic).Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return mkFloat(f)
	}
	return Native{} // complex
}

// ---------- builtins ----------

// slicePtr is the unsafe pointer to the data of a slice or string.
type slicePtr struct {
	s   Slice
	str Str
}

func (m *Machine) builtin(t *Thread, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return Const(64, uint64(x.Len()))
		case Slice:
			return Const(64, uint64(len(x)))
		case *MapObj:
			if x == nil {
				return Const(64, 0)
			}
			if m.race != nil {
				m.raceMap(x, false)
			}
			return Const(64, uint64(len(x.ents)))
		case Array:
			return Const(64, uint64(len(x)))
		case *Value:
			if x != nil {
				if a, ok := (*x).(Array); ok {
					return Const(64, uint64(len(a)))
				}
			}
			if pt, ok := under(cc.Args[0].Type()).(*types.Pointer); ok {
				return Const(64, uint64(under(pt.Elem()).(*types.Array).Len()))
			}
		case *ChanObj:
			if x == nil {
				return Const(64, 0)
			}
			return Const(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return Const(64, uint64(cap(x)))
		case Array:
			return Const(64, uint64(len(x)))
		case *Value:
			if x != nil {
				if a, ok := (*x).(Array); ok {
					return Const(64, uint64(len(a)))
				}
			}
		case *ChanObj:
			if x == nil {
				return Const(64, 0)
			}
			return Const(64, uint64(x.cap))
		}
	case "append":
		s, _ := args[0].(Slice)
		st := under(cc.Args[0].Type()).(*types.Slice)
		switch y := args[1].(type) {
		case Str:
			return m.appendVals(s, bytesToSlice(y.Bytes()), st.Elem(), false)
		case Slice:
			if y == nil || len(y) == 0 {
				return s
			}
			if m.race != nil {
				for i := range y {
					m.raceAccess(&y[i], false)
				}
			}
			return m.appendVals(s, y, st.Elem(), true)
		}
	case "copy":
		d := args[0].(Slice)
		var n int
		switch y := args[1].(type) {
		case Str:
			n = len(d)
			if y.Len() < n {
				n = y.Len()
			}
			for i := 0; i < n; i++ {
				m.storeCell(&d[i], y.At(i))
			}
		case Slice:
			n = len(d)
			if len(y) < n {
				n = len(y)
			}
			if n > 0 && &d[0] != &y[0] {
				tmp := make([]Value, n)
				for i := 0; i < n; i++ {
					if m.race != nil {
						m.raceAccess(&y[i], false)
					}
					tmp[i] = deepCopy(y[i])
				}
				for i := 0; i < n; i++ {
					m.storeCell(&d[i], tmp[i])
				}
			}
		}
		return Const(64, uint64(n))
	case "delete":
		mo := args[0].(*MapObj)
		m.mapDelete(mo, under(cc.Args[0].Type()).(*types.Map).Key(), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				if m.race != nil {
					m.raceMap(x, true)
				}
				m.setEnts(x, nil)
			}
		case Slice:
			et := under(cc.Args[0].Type()).(*types.Slice).Elem()
			for i := range x {
				m.storeCell(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "print", "println":
		return nil
	case "recover":
		return m.recover(t)
	case "close":
		ch := args[0].(*ChanObj)
		old := *ch
		m.undo(func() { *ch = old })
		ch.closed = true
		return nil
	case "min", "max":
		r := args[0]
		ty := cc.Args[0].Type()
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Expr:
				y := a.(*Expr)
				_, sgn := intInfo(ty)
				lt := m.ctx.Ult
				if sgn {
					lt = m.ctx.Slt
				}
				c := lt(x, y)
				if b.Name() == "max" {
					c = lt(y, x)
				}
				r = m.ctx.Ite(c, x, y)
			case Float:
				xf, o1 := x.conc()
				yf, o2 := a.(Float).conc()
				if !o1 || !o2 {
					panic(unsupported("min/max of symbolic floats"))
				}
				if b.Name() == "min" {
					r = mkFloat(math.Min(xf, yf))
				} else {
					r = mkFloat(math.Max(xf, yf))
				}
			case Str:
				y := a.(Str)
				if m.branch(m.strLess(y, x, false)) == (b.Name() == "min") {
					r = y
				}
			}
		}
		return r
	case "SliceData", "StringData":
		switch x := args[0].(type) {
		case Slice:
			return slicePtr{s: x}
		case Str:
			return slicePtr{str: x}
		}
	case "String":
		n := m.concInt(args[1])
		switch x := args[0].(type) {
		case slicePtr:
			if x.s == nil {
				return x.str.Sub(0, n)
			}
			bs := make([]*Expr, n)
			for i := range bs {
				bs[i] = x.s[i].(*Expr)
			}
			return mkStr(bs)
		case *Value:
			if x == nil || n == 0 {
				return Str{}
			}
		}
	case "Slice":
		n := m.concInt(args[1])
		switch x := args[0].(type) {
		case slicePtr:
			if x.s != nil {
				return x.s[:n:n]
			}
			return bytesToSlice(x.str.Sub(0, n).Bytes())
		case *Value:
			if x == nil {
				return Slice(nil)
			}
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(m.rtErr("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args[0])))
}

func (m *Machine) appendVals(s Slice, y Slice, et types.Type, cp bool) Slice {
	need := len(s) + len(y)
	var src []Value = y
	if cp {
		src = make([]Value, len(y))
		for i := range y {
			src[i] = deepCopy(y[i])
		}
	}
	if need <= cap(s) {
		r := s[:need]
		for i := range src {
			m.storeCell(&r[len(s)+i], src[i])
		}
		return r
	}
	c := growCap(cap(s), need, esizeOf(et))
	r := make(Slice, need, c)
	for i := range s {
		if m.race != nil {
			m.raceAccess(&s[i], false)
		}
		r[i] = deepCopy(s[i])
	}
	copy(r[len(s):], src)
	if c > need {
		fillZero(r[:c][need:], et)
	}
	return r
}

// recover implements the recover builtin called from the top frame of t.
func (m *Machine) recover(t *Thread) Value {
	n := len(t.frames)
	if n < 2 {
		return Iface{}
	}
	top := t.frames[n-1]
	if top.kind != frDefer {
		return Iface{}
	}
	c := t.frames[n-2]
	if !c.panicking || c.recovered {
		return Iface{}
	}
	if c.epoch != m.epoch {
		cc := *c
		cc.regs = append([]Value(nil), c.regs...)
		cc.epoch = m.epoch
		c = &cc
		t.frames[n-2] = c
	}
	c.recovered = true
	v := c.pval
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t: m.eng.runtimeError, v: S("?")}
}
