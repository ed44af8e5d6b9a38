package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Op is an expression operator. Booleans have width 0, bit-vectors width 8..64.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpTrunc
	OpTable // table lookup: tab[a], 0 outside
	OpFLt   // IEEE comparisons on 64-bit patterns
	OpFLe
	OpFEq
	OpU2F // 64-bit pattern of an integer as a float64
	OpS2F
	OpF32 // rounded to float32 precision
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
)

// Expr is a hash-consed expression node, private to one worker.
type Expr struct {
	op      Op
	w       uint8
	sup     int32 // -1: no variable; >=0: that variable only; -2: several
	id      uint32
	val     uint64
	a, b, c *Expr
	tab     []uint64
	tt      *[4]uint64 // truth table over the single 8-bit variable (bool nodes)
	vars    []int32    // sorted support when sup == -2
	gen     uint64
	ev      uint64
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func signed(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

// Constants are shared by all workers: they carry no mutable state.
var constTab = buildConsts()

func widx(w uint8) int {
	switch w {
	case 0:
		return 0
	case 8:
		return 1
	case 16:
		return 2
	case 32:
		return 3
	case 64:
		return 4
	}
	return 5
}

func buildConsts() (tab [6][1024]*Expr) {
	for i, w := range []uint8{0, 8, 16, 32, 64} {
		for v := range tab[i] {
			tab[i][v] = &Expr{op: OpConst, w: w, val: uint64(v), sup: -1}
		}
	}
	return
}

func Const(w uint8, v uint64) *Expr {
	v &= mask(w)
	if v < 1024 {
		if i := widx(w); i < 5 {
			return constTab[i][v]
		}
	}
	return &Expr{op: OpConst, w: w, val: v, sup: -1}
}

var (
	eTrue  = Const(0, 1)
	eFalse = Const(0, 0)
)

func Bool(b bool) *Expr {
	if b {
		return eTrue
	}
	return eFalse
}

func (e *Expr) isConst() bool { return e.op == OpConst }
func (e *Expr) isTrue() bool  { return e.op == OpConst && e.val == 1 && e.w == 0 }
func (e *Expr) isFalse() bool { return e.op == OpConst && e.val == 0 && e.w == 0 }

type ekey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Expr
	ac, bc  uint64 // constant operands by value
	tab     *uint64
}

// Ctx interns expressions.
type Ctx struct {
	m      map[ekey]*Expr
	nextID uint32
	gen    uint64
	varW   []uint8 // width of each variable
	tabs   map[string]*[]uint64
}

func NewCtx() *Ctx {
	return &Ctx{m: map[ekey]*Expr{}, nextID: 1, tabs: map[string]*[]uint64{}}
}

func (c *Ctx) mk(op Op, w uint8, val uint64, x, y, z *Expr, tab []uint64) *Expr {
	k := ekey{op: op, w: w, val: val, a: x, b: y, c: z}
	if x != nil && x.op == OpConst {
		k.a, k.ac = nil, x.val
		k.val |= 1 << 40
		if op == OpConst {
			panic("mk const")
		}
	}
	if y != nil && y.op == OpConst {
		k.b, k.bc = nil, y.val
		k.val |= 1 << 41
	}
	if z != nil && z.op == OpConst {
		// keep c by value through val high bits is not enough: intern pointer for small ones
		k.c = c.internConst(z)
	}
	if op == OpIte && y != nil && y.op == OpConst {
		k.b = c.internConst(y)
	}
	if tab != nil {
		k.tab = &tab[0]
	}
	if e, ok := c.m[k]; ok {
		return e
	}
	e := &Expr{op: op, w: w, val: val, a: x, b: y, c: z, tab: tab, id: c.nextID}
	c.nextID++
	e.sup = -1
	for _, s := range [3]*Expr{x, y, z} {
		if s == nil || s.sup == -1 {
			continue
		}
		switch {
		case e.sup == -1:
			e.sup = s.sup
			e.vars = s.vars
		case e.sup == -2 || s.sup == -2 || e.sup != s.sup:
			e.vars = mergeVars(e.support(), s.support())
			e.sup = -2
		}
	}
	c.m[k] = e
	return e
}

func (e *Expr) support() []int32 {
	if e.sup == -1 {
		return nil
	}
	if e.sup >= 0 {
		return []int32{e.sup}
	}
	return e.vars
}

func mergeVars(a, b []int32) []int32 {
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) internConst(z *Expr) *Expr {
	if z.val < 1024 {
		return z
	}
	k := ekey{op: OpConst, w: z.w, val: z.val}
	if e, ok := c.m[k]; ok {
		return e
	}
	c.m[k] = z
	return z
}

func (c *Ctx) Var(id int32, w uint8) *Expr {
	k := ekey{op: OpVar, w: w, val: uint64(id)}
	if e, ok := c.m[k]; ok {
		return e
	}
	e := &Expr{op: OpVar, w: w, val: uint64(id), sup: id, id: c.nextID}
	c.nextID++
	c.m[k] = e
	return e
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	switch a.op {
	case OpUlt:
		return c.Ule(a.b, a.a)
	case OpUle:
		return c.Ult(a.b, a.a)
	case OpSlt:
		return c.Sle(a.b, a.a)
	case OpSle:
		return c.Slt(a.b, a.a)
	case OpAnd:
		return c.Or(c.Not(a.a), c.Not(a.b))
	case OpOr:
		return c.And(c.Not(a.a), c.Not(a.b))
	}
	return c.mk(OpNot, 0, 0, a, nil, nil, nil)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isFalse() || b.isFalse() {
		return eFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	return c.mk(OpAnd, 0, 0, a, b, nil, nil)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isTrue() || b.isTrue() {
		return eTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	return c.mk(OpOr, 0, 0, a, b, nil, nil)
}

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.isConst() {
		if cond.val == 1 {
			return a
		}
		return b
	}
	if a == b || (a.isConst() && b.isConst() && a.val == b.val) {
		return a
	}
	if a.w == 0 {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	return c.mk(OpIte, a.w, 0, cond, a, b, nil)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return eTrue
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if b.isConst() {
		switch a.op {
		case OpZExt:
			if b.val > mask(a.a.w) {
				return eFalse
			}
			return c.Eq(a.a, Const(a.a.w, b.val))
		case OpSExt:
			if t := b.val & mask(a.a.w); uint64(signed(t, a.a.w))&mask(a.w) == b.val {
				return c.Eq(a.a, Const(a.a.w, t))
			}
			return eFalse
		case OpAdd:
			if a.b.isConst() {
				return c.Eq(a.a, Const(a.w, b.val-a.b.val))
			}
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return eTrue
				case x:
					return a.a
				case y:
					return c.Not(a.a)
				default:
					return eFalse
				}
			}
		}
	} else if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b, nil, nil)
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Bool(a.val < b.val)
	}
	if a == b || (b.isConst() && b.val == 0) {
		return eFalse
	}
	if b.isConst() && b.val > 0 && a.op == OpZExt {
		if b.val > mask(a.a.w) {
			return eTrue
		}
		return c.Ult(a.a, Const(a.a.w, b.val))
	}
	if a.isConst() && b.op == OpZExt {
		if a.val > mask(b.a.w) {
			return eFalse
		}
		return c.Ult(Const(b.a.w, a.val), b.a)
	}
	return c.mk(OpUlt, 0, 0, a, b, nil, nil)
}

func (c *Ctx) Ule(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Bool(a.val <= b.val)
	}
	if a == b || (a.isConst() && a.val == 0) {
		return eTrue
	}
	if b.isConst() && a.op == OpZExt {
		if b.val >= mask(a.a.w) {
			return eTrue
		}
		return c.Ule(a.a, Const(a.a.w, b.val))
	}
	if a.isConst() && b.op == OpZExt {
		if a.val > mask(b.a.w) {
			return eFalse
		}
		return c.Ule(Const(b.a.w, a.val), b.a)
	}
	return c.mk(OpUle, 0, 0, a, b, nil, nil)
}

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Bool(signed(a.val, a.w) < signed(b.val, b.w))
	}
	if a == b {
		return eFalse
	}
	if a.op == OpZExt && b.isConst() {
		if signed(b.val, b.w) <= 0 {
			return eFalse
		}
		return c.Ult(a, b)
	}
	if b.op == OpZExt && a.isConst() {
		if signed(a.val, a.w) < 0 {
			return eTrue
		}
		return c.Ult(a, b)
	}
	return c.mk(OpSlt, 0, 0, a, b, nil, nil)
}

func (c *Ctx) Sle(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Bool(signed(a.val, a.w) <= signed(b.val, b.w))
	}
	if a == b {
		return eTrue
	}
	if a.op == OpZExt && b.isConst() {
		if signed(b.val, b.w) < 0 {
			return eFalse
		}
		return c.Ule(a, b)
	}
	if b.op == OpZExt && a.isConst() {
		if signed(a.val, a.w) <= 0 {
			return eTrue
		}
		return c.Ule(a, b)
	}
	return c.mk(OpSle, 0, 0, a, b, nil, nil)
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return Const(w, a.val)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.mk(OpZExt, w, 0, a, nil, nil, nil)
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return Const(w, uint64(signed(a.val, a.w)))
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.mk(OpSExt, w, 0, a, nil, nil, nil)
}

func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return Const(w, a.val)
	}
	switch a.op {
	case OpZExt, OpSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OpZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	case OpTrunc:
		return c.Trunc(a.a, w)
	}
	return c.mk(OpTrunc, w, 0, a, nil, nil, nil)
}

// Conv converts between integer widths.
func (c *Ctx) Conv(a *Expr, w uint8, sgn bool) *Expr {
	switch {
	case a.w == w:
		return a
	case a.w > w:
		return c.Trunc(a, w)
	case sgn:
		return c.SExt(a, w)
	}
	return c.ZExt(a, w)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := signed(x, w), signed(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := signed(x, w), signed(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(signed(x, w)>>y) & m
	}
	panic("evalBin")
}

// Bin builds an arithmetic or bitwise operation on equal widths.
func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Const(a.w, evalBin(op, a.w, a.val, b.val))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OpAdd:
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return c.Bin(OpAdd, a.a, Const(a.w, a.b.val+b.val))
			}
		case OpSub:
			return c.Bin(OpAdd, a, Const(a.w, -b.val))
		case OpMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OpBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(a.w) {
				return a
			}
			if a.op == OpZExt && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OpZExt {
				return c.ZExt(c.Bin(OpBAnd, a.a, Const(a.a.w, b.val)), a.w)
			}
		case OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
			if b.val == 0 {
				return a
			}
			if op == OpShl || op == OpLShr {
				if b.val >= uint64(a.w) {
					return Const(a.w, 0)
				}
				if op == OpLShr && a.op == OpZExt {
					if b.val >= uint64(a.a.w) {
						return Const(a.w, 0)
					}
					return c.ZExt(c.Bin(OpLShr, a.a, Const(a.a.w, b.val)), a.w)
				}
			}
		case OpUDiv, OpSDiv:
			if b.val == 1 {
				return a
			}
			if op == OpUDiv && a.op == OpZExt && b.val != 0 {
				if b.val > mask(a.a.w) {
					return Const(a.w, 0)
				}
				return c.ZExt(c.Bin(OpUDiv, a.a, Const(a.a.w, b.val)), a.w)
			}
		case OpURem:
			if a.op == OpZExt && b.val != 0 && b.val <= mask(a.a.w) {
				return c.ZExt(c.Bin(OpURem, a.a, Const(a.a.w, b.val)), a.w)
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return Const(a.w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return c.mk(op, a.w, 0, a, b, nil, nil)
}

// Table builds a lookup of idx in a constant table; idx must be known in range.
func (c *Ctx) Table(idx *Expr, w uint8, tab []uint64) *Expr {
	if idx.isConst() {
		if idx.val < uint64(len(tab)) {
			return Const(w, tab[idx.val])
		}
		return Const(w, 0)
	}
	if idx.op == OpTable {
		comp := make([]uint64, len(idx.tab))
		for i, v := range idx.tab {
			if v < uint64(len(tab)) {
				comp[i] = tab[v]
			}
		}
		return c.Table(idx.a, w, comp)
	}
	key := fmt.Sprint(w, tab)
	t, ok := c.tabs[key]
	if !ok {
		tt := append([]uint64(nil), tab...)
		t = &tt
		c.tabs[key] = t
	}
	return c.mk(OpTable, w, 0, idx, nil, nil, *t)
}

// ConvF is a conversion to floating point, on 64-bit patterns.
func (c *Ctx) ConvF(op Op, a *Expr) *Expr {
	if a.isConst() {
		return Const(64, evalConvF(op, a.val))
	}
	return c.mk(op, 64, 0, a, nil, nil, nil)
}

func evalConvF(op Op, x uint64) uint64 {
	switch op {
	case OpU2F:
		return math.Float64bits(float64(x))
	case OpS2F:
		return math.Float64bits(float64(int64(x)))
	}
	return math.Float64bits(float64(float32(math.Float64frombits(x))))
}

// ArithF is floating-point arithmetic on 64-bit patterns.
func (c *Ctx) ArithF(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Const(64, evalArithF(op, a.val, b.val))
	}
	return c.mk(op, 64, 0, a, b, nil, nil)
}

func evalArithF(op Op, x, y uint64) uint64 {
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	switch op {
	case OpFAdd:
		a += b
	case OpFSub:
		a -= b
	case OpFMul:
		a *= b
	default:
		a /= b
	}
	return math.Float64bits(a)
}

func (c *Ctx) FCmp(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Bool(evalF(op, a.val, b.val))
	}
	return c.mk(op, 0, 0, a, b, nil, nil)
}

func evalF(op Op, x, y uint64) bool {
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	switch op {
	case OpFLt:
		return a < b
	case OpFLe:
		return a <= b
	}
	return a == b
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates e under the assignment.
func (c *Ctx) Eval(e *Expr, asg []uint64) uint64 {
	c.gen++
	return c.eval(e, asg)
}

func (c *Ctx) eval(e *Expr, asg []uint64) uint64 {
	if e.op == OpConst {
		return e.val
	}
	if e.op == OpVar {
		if int(e.val) < len(asg) {
			return asg[e.val] & mask(e.w)
		}
		return 0
	}
	if e.gen == c.gen {
		return e.ev
	}
	var r uint64
	switch e.op {
	case OpNot:
		r = 1 - c.eval(e.a, asg)
	case OpAnd:
		r = c.eval(e.a, asg)
		if r == 1 {
			r = c.eval(e.b, asg)
		}
	case OpOr:
		r = c.eval(e.a, asg)
		if r == 0 {
			r = c.eval(e.b, asg)
		}
	case OpEq:
		r = b2u(c.eval(e.a, asg) == c.eval(e.b, asg))
	case OpIte:
		if c.eval(e.a, asg) == 1 {
			r = c.eval(e.b, asg)
		} else {
			r = c.eval(e.c, asg)
		}
	case OpUlt:
		r = b2u(c.eval(e.a, asg) < c.eval(e.b, asg))
	case OpUle:
		r = b2u(c.eval(e.a, asg) <= c.eval(e.b, asg))
	case OpSlt:
		r = b2u(signed(c.eval(e.a, asg), e.a.w) < signed(c.eval(e.b, asg), e.a.w))
	case OpSle:
		r = b2u(signed(c.eval(e.a, asg), e.a.w) <= signed(c.eval(e.b, asg), e.a.w))
	case OpZExt:
		r = c.eval(e.a, asg)
	case OpSExt:
		r = uint64(signed(c.eval(e.a, asg), e.a.w)) & mask(e.w)
	case OpTrunc:
		r = c.eval(e.a, asg) & mask(e.w)
	case OpTable:
		i := c.eval(e.a, asg)
		if i < uint64(len(e.tab)) {
			r = e.tab[i]
		}
	case OpU2F, OpS2F, OpF32:
		r = evalConvF(e.op, c.eval(e.a, asg))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		r = evalArithF(e.op, c.eval(e.a, asg), c.eval(e.b, asg))
	case OpFLt, OpFLe, OpFEq:
		r = b2u(evalF(e.op, c.eval(e.a, asg), c.eval(e.b, asg)))
	default:
		r = evalBin(e.op, e.w, c.eval(e.a, asg), c.eval(e.b, asg))
	}
	e.gen = c.gen
	e.ev = r
	return r
}

// TT gives the truth table of a boolean expression over one 8-bit variable.
func (c *Ctx) TT(e *Expr) *[4]uint64 {
	if e.tt != nil {
		return e.tt
	}
	t := new([4]uint64)
	switch e.op {
	case OpNot:
		a := c.TT(e.a)
		for i := range t {
			t[i] = ^a[i]
		}
	case OpAnd:
		a, b := c.TT(e.a), c.TT(e.b)
		for i := range t {
			t[i] = a[i] & b[i]
		}
	case OpOr:
		a, b := c.TT(e.a), c.TT(e.b)
		for i := range t {
			t[i] = a[i] | b[i]
		}
	default:
		asg := make([]uint64, e.sup+1)
		for v := 0; v < 256; v++ {
			asg[e.sup] = uint64(v)
			if c.Eval(e, asg) == 1 {
				t[v>>6] |= 1 << (v & 63)
			}
		}
	}
	e.tt = t
	return t
}

func setEmpty(s *[4]uint64) bool { return s[0]|s[1]|s[2]|s[3] == 0 }

func setFirst(s *[4]uint64) uint64 {
	// prefer printable ASCII for readable models
	for _, r := range [3]int{1, 0, 2} {
		if s[r] != 0 {
			return uint64(r*64 + bits.TrailingZeros64(s[r]))
		}
	}
	return uint64(3*64 + bits.TrailingZeros64(s[3]))
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr"}
