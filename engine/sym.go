package main

import (
	"fmt"
	"go/types"
)

const symPkg = "verif/sym"

func (m *Machine) addInput(v *Expr) *Expr {
	m.inputs = append(m.inputs, input{kind: 'v', id: int32(v.val)})
	return v
}

func (m *Machine) constInput(x uint64) {
	m.inputs = append(m.inputs, input{kind: 'c', val: x})
}

func setOf(s string) *[4]uint64 {
	var d [4]uint64
	for i := 0; i < len(s); i++ {
		d[s[i]>>6] |= 1 << (s[i] & 63)
	}
	return &d
}

func mustConc(m *Machine, v Value, what string) string {
	s, ok := conc(v)
	if !ok {
		panic(unsupported("symbolic " + what))
	}
	return s
}

func (m *Machine) assume(c *Expr) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{endAssume, ""})
	}
	if m.ctx.Eval(c, m.model) != 1 {
		r, nm := m.feasible(c)
		if r == Unsat {
			panic(pathEnd{endAssume, ""})
		}
		if r == Unknown {
			panic(pathEnd{endUnknown, "assumption not decided"})
		}
		m.model = nm
	}
	m.addPC(c)
}

func initSym() {
	s := func(name string, f intrinsic) { intrinsics[symPkg+"."+name] = f }
	num := func(w uint8) intrinsic {
		return func(m *Machine, t *Thread, a []Value) Value { return m.addInput(m.newVar(w, nil)) }
	}
	s("Byte", num(8))
	s("U16", num(16))
	s("U32", num(32))
	s("U64", num(64))
	s("I64", num(64))
	s("Int", num(64))
	s("Float64", func(m *Machine, t *Thread, a []Value) Value {
		return Float{m.addInput(m.newVar(64, nil))}
	})
	s("Bool", func(m *Machine, t *Thread, a []Value) Value {
		v := m.addInput(m.newVar(8, setOf("\x00\x01")))
		return m.ctx.Eq(v, Const(8, 1))
	})
	s("ByteIn", func(m *Machine, t *Thread, a []Value) Value {
		set := mustConc(m, a[0], "byte set")
		if len(set) == 1 {
			m.constInput(uint64(set[0]))
			return Const(8, uint64(set[0]))
		}
		return m.addInput(m.newVar(8, setOf(set)))
	})
	str := func(m *Machine, n int, set *[4]uint64) []*Expr {
		b := make([]*Expr, n)
		for i := range b {
			b[i] = m.addInput(m.newVar(8, set))
		}
		return b
	}
	s("Str", func(m *Machine, t *Thread, a []Value) Value {
		n := m.concInt(a[0])
		return mkStr(str(m, n, nil))
	})
	s("Bytes", func(m *Machine, t *Thread, a []Value) Value {
		n := m.concInt(a[0])
		return bytesToSlice(str(m, n, nil))
	})
	s("StrIn", func(m *Machine, t *Thread, a []Value) Value {
		n := m.concInt(a[0])
		return mkStr(str(m, n, setOf(mustConc(m, a[1], "byte set"))))
	})
	s("Choose", func(m *Machine, t *Thread, a []Value) Value {
		n := m.concInt(a[0])
		k := m.choose(n)
		m.constInput(uint64(k))
		return i64(k)
	})
	s("Param", func(m *Machine, t *Thread, a []Value) Value {
		return i64(m.optDef(mustConc(m, a[0], "parameter name"), m.concInt(a[1])))
	})
	s("Assume", func(m *Machine, t *Thread, a []Value) Value {
		m.assume(a[0].(*Expr))
		return nil
	})
	s("Assert", func(m *Machine, t *Thread, a []Value) Value {
		c := a[0].(*Expr)
		m.st.Asserts++
		if c.isConst() {
			m.st.AssertsConst++
		}
		if !m.branch(c) {
			msg, ok := conc(a[1])
			if !ok {
				msg = "assertion"
			}
			panic(pathEnd{endViolation, msg})
		}
		return nil
	})
	s("Fail", func(m *Machine, t *Thread, a []Value) Value {
		msg, ok := conc(a[0])
		if !ok {
			msg = "failure"
		}
		panic(pathEnd{endViolation, msg})
	})
	intrinsics["verif/models.Unsupported"] = func(m *Machine, t *Thread, a []Value) Value {
		panic(unsupported("model: " + mustConc(m, a[0], "message")))
	}
	s("Known", func(m *Machine, t *Thread, a []Value) Value {
		id := mustConc(m, a[0], "finding id")
		if m.branch(a[1].(*Expr)) {
			panic(pathEnd{endKnown, id})
		}
		return nil
	})
	s("Stop", func(m *Machine, t *Thread, a []Value) Value { panic(pathEnd{endAssume, ""}) })
	s("Reach", func(m *Machine, t *Thread, a []Value) Value {
		m.reached = append(m.reached, mustConc(m, a[0], "label"))
		return nil
	})
	s("Observe", func(m *Machine, t *Thread, a []Value) Value {
		m.obs = append(m.obs, a[0])
		return nil
	})
	s("ObserveInt", func(m *Machine, t *Thread, a []Value) Value {
		m.obs = append(m.obs, a[0])
		return nil
	})
	s("And", func(m *Machine, t *Thread, a []Value) Value {
		r := eTrue
		for _, x := range a[0].(Slice) {
			r = m.ctx.And(r, x.(*Expr))
		}
		return r
	})
	s("Or", func(m *Machine, t *Thread, a []Value) Value {
		r := eFalse
		for _, x := range a[0].(Slice) {
			r = m.ctx.Or(r, x.(*Expr))
		}
		return r
	})
	s("Implies", func(m *Machine, t *Thread, a []Value) Value {
		return m.ctx.Or(m.ctx.Not(a[0].(*Expr)), a[1].(*Expr))
	})
	s("Par", par)
	s("Symbolic", func(m *Machine, t *Thread, a []Value) Value { return eTrue })
	s("Dir", func(m *Machine, t *Thread, a []Value) Value { return S("/vfs") })
	// IsIn: byte membership in a constant set without forking
	s("IsIn", func(m *Machine, t *Thread, a []Value) Value {
		return m.inSet(a[0].(*Expr), mustConc(m, a[1], "byte set"))
	})
	s("Ite", func(m *Machine, t *Thread, a []Value) Value {
		return m.ctx.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr))
	})
	s("Split", func(m *Machine, t *Thread, a []Value) Value {
		// force a fork on a condition, so that later code sees it decided
		return Bool(m.branch(a[0].(*Expr)))
	})
}

// obsText renders the observations of a finished path under its model.
func (m *Machine) obsText() string {
	var out []byte
	for _, v := range m.obs {
		switch v := v.(type) {
		case Str:
			for i := 0; i < v.Len(); i++ {
				out = append(out, byte(m.ctx.Eval(v.At(i), m.model)))
			}
			out = append(out, 0)
		case *Expr:
			out = append(out, fmt.Sprintf("%d\x00", int64(m.ctx.Eval(v, m.model)))...)
		default:
			out = append(out, fmt.Sprintf("?%T\x00", v)...)
		}
	}
	return string(out)
}

// inputValues gives the harness inputs of the current path, and the schedule choices.
func (m *Machine) inputValues() (in, sched []uint64) {
	for _, i := range m.inputs {
		switch i.kind {
		case 'v':
			in = append(in, m.model[i.id])
		case 'c':
			in = append(in, i.val)
		case 's':
			sched = append(sched, i.val)
		}
	}
	return
}

var _ types.Type
