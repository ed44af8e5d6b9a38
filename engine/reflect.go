package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// RT is a *reflect.rtype, RV a reflect.Value.
type RT struct{ t types.Type }

type RV struct {
	t  types.Type
	v  Value  // value when not addressable
	p  *Value // cell when addressable
	ro bool   // obtained through an unexported field
}

func (m *Machine) rvGet(r RV) Value {
	if r.p != nil {
		return m.load(r.p)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *Machine) rtIface(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{t: m.eng.rtypePtr, v: RT{types.Unalias(t)}}
}

func rtOf(v Value) types.Type {
	switch x := v.(type) {
	case RT:
		return x.t
	case Iface:
		return rtOf(x.v)
	}
	panic(unsupported(fmt.Sprintf("reflect.Type held as %T", v)))
}

func (m *Machine) rpanic(msg string) goPanic {
	return goPanic{Iface{t: types.Typ[types.String], v: S("reflect: " + msg)}}
}

func (m *Machine) mustKind(r RV, name string, ks ...reflect.Kind) {
	if r.t != nil {
		k := kindOf(r.t)
		for _, x := range ks {
			if x == k {
				return
			}
		}
		panic(m.rpanic("call of reflect.Value." + name + " on " + k.String() + " Value"))
	}
	panic(m.rpanic("call of reflect.Value." + name + " on zero Value"))
}

func (m *Machine) mustSet(r RV, name string) {
	if r.ro {
		panic(m.rpanic("reflect.Value." + name + " using value obtained using unexported field"))
	}
	if r.p == nil {
		panic(m.rpanic("reflect.Value." + name + " using unaddressable value"))
	}
}

var intKinds = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
var uintKinds = []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}

func (m *Machine) rvField(r RV, i int) RV {
	m.mustKind(r, "Field", reflect.Struct)
	st := under(r.t).(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		panic(m.rpanic("Field index out of range"))
	}
	f := st.Field(i)
	ro := r.ro || !f.Exported()
	if f.Embedded() && !f.Exported() {
		ro = true
	}
	n := RV{t: types.Unalias(f.Type()), ro: ro}
	if r.p != nil {
		n.p = &(*r.p).(Struct)[i]
	} else {
		n.v = r.v.(Struct)[i]
	}
	return n
}

// assign converts x for storage in a location of type dst, as reflect's assignTo.
func (m *Machine) assign(x RV, dst types.Type, name string) Value {
	if x.t == nil {
		panic(m.rpanic("call of " + name + " on zero Value"))
	}
	v := m.rvGet(x)
	if _, ok := under(dst).(*types.Interface); ok {
		if _, ok := under(x.t).(*types.Interface); ok {
			return v
		}
		if m.implements(x.t, under(dst).(*types.Interface)) {
			return Iface{t: x.t, v: v}
		}
	} else if types.Identical(x.t, dst) {
		return v
	} else {
		_, n1 := x.t.(*types.Named)
		_, n2 := dst.(*types.Named)
		_, b1 := x.t.(*types.Basic)
		_, b2 := dst.(*types.Basic)
		if (!n1 && !b1 || !n2 && !b2) && types.Identical(under(x.t), under(dst)) {
			return v
		}
	}
	panic(m.rpanic(name + ": value of type " + typeString(x.t) + " is not assignable to type " + typeString(dst)))
}

func (m *Machine) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	sf := m.eng.structFieldT
	v := zero(sf).(Struct)
	us := under(sf).(*types.Struct)
	for k := 0; k < us.NumFields(); k++ {
		switch us.Field(k).Name() {
		case "Name":
			v[k] = S(f.Name())
		case "PkgPath":
			v[k] = S(pkg)
		case "Type":
			v[k] = m.rtIface(f.Type())
		case "Tag":
			v[k] = S(st.Tag(i))
		case "Index":
			v[k] = Slice{i64(i)}
		case "Anonymous":
			v[k] = Bool(f.Embedded())
		}
	}
	return v
}

func initReflect() {
	kind := func(k reflect.Kind) Value { return Const(64, uint64(k)) }
	ty := func(name string, f func(m *Machine, t types.Type, a []Value) Value) {
		intrinsics["(*reflect.rtype)."+name] = func(m *Machine, t *Thread, a []Value) Value {
			return f(m, rtOf(a[0]), a)
		}
	}
	ty("Kind", func(m *Machine, t types.Type, a []Value) Value { return kind(kindOf(t)) })
	ty("Name", func(m *Machine, t types.Type, a []Value) Value {
		switch t := t.(type) {
		case *types.Named:
			return S(t.Obj().Name())
		case *types.Basic:
			return S(t.Name())
		}
		return Str{}
	})
	ty("PkgPath", func(m *Machine, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return S(n.Obj().Pkg().Path())
		}
		return Str{}
	})
	ty("String", func(m *Machine, t types.Type, a []Value) Value { return S(typeString(t)) })
	ty("Elem", func(m *Machine, t types.Type, a []Value) Value {
		switch u := under(t).(type) {
		case *types.Pointer:
			return m.rtIface(u.Elem())
		case *types.Slice:
			return m.rtIface(u.Elem())
		case *types.Array:
			return m.rtIface(u.Elem())
		case *types.Map:
			return m.rtIface(u.Elem())
		case *types.Chan:
			return m.rtIface(u.Elem())
		}
		panic(m.rpanic("Elem of invalid type " + typeString(t)))
	})
	ty("Key", func(m *Machine, t types.Type, a []Value) Value {
		if u, ok := under(t).(*types.Map); ok {
			return m.rtIface(u.Key())
		}
		panic(m.rpanic("Key of non-map type"))
	})
	ty("Len", func(m *Machine, t types.Type, a []Value) Value {
		if u, ok := under(t).(*types.Array); ok {
			return i64(int(u.Len()))
		}
		panic(m.rpanic("Len of non-array type"))
	})
	ty("NumField", func(m *Machine, t types.Type, a []Value) Value {
		u, ok := under(t).(*types.Struct)
		if !ok {
			panic(m.rpanic("NumField of non-struct type " + typeString(t)))
		}
		return i64(u.NumFields())
	})
	ty("Field", func(m *Machine, t types.Type, a []Value) Value {
		u, ok := under(t).(*types.Struct)
		if !ok {
			panic(m.rpanic("Field of non-struct type " + typeString(t)))
		}
		i := m.concInt(a[1])
		if i < 0 || i >= u.NumFields() {
			panic(m.rpanic("Field index out of bounds"))
		}
		return m.structField(u, i)
	})
	ty("Comparable", func(m *Machine, t types.Type, a []Value) Value { return Bool(types.Comparable(t)) })
	ty("Size", func(m *Machine, t types.Type, a []Value) Value { return i64(esizeOf(t)) })
	ty("Bits", func(m *Machine, t types.Type, a []Value) Value {
		return i64(esizeOf(t) * 8)
	})
	ty("NumMethod", func(m *Machine, t types.Type, a []Value) Value {
		return i64(types.NewMethodSet(t).Len())
	})
	ty("Implements", func(m *Machine, t types.Type, a []Value) Value {
		u, ok := under(rtOf(a[1])).(*types.Interface)
		if !ok {
			panic(m.rpanic("non-interface type passed to Type.Implements"))
		}
		return Bool(m.implements(t, u))
	})
	ty("AssignableTo", func(m *Machine, t types.Type, a []Value) Value {
		return Bool(types.AssignableTo(t, rtOf(a[1])))
	})
	ty("ConvertibleTo", func(m *Machine, t types.Type, a []Value) Value {
		return Bool(types.ConvertibleTo(t, rtOf(a[1])))
	})

	fn := func(name string, f intrinsic) { intrinsics["reflect."+name] = f }
	fn("TypeOf", func(m *Machine, t *Thread, a []Value) Value {
		return m.rtIface(a[0].(Iface).t)
	})
	intrinsics["internal/reflectlite.TypeOf"] = intrinsics["reflect.TypeOf"]
	fn("ValueOf", func(m *Machine, t *Thread, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RV{}
		}
		return RV{t: types.Unalias(i.t), v: i.v}
	})
	fn("New", func(m *Machine, t *Thread, a []Value) Value {
		ty := rtOf(a[0])
		return RV{t: types.NewPointer(ty), v: newCell(zero(ty))}
	})
	fn("Zero", func(m *Machine, t *Thread, a []Value) Value {
		ty := rtOf(a[0])
		return RV{t: ty, v: zero(ty)}
	})
	ptrTo := func(m *Machine, t *Thread, a []Value) Value { return m.rtIface(types.NewPointer(rtOf(a[0]))) }
	fn("PtrTo", ptrTo)
	fn("PointerTo", ptrTo)
	fn("SliceOf", func(m *Machine, t *Thread, a []Value) Value { return m.rtIface(types.NewSlice(rtOf(a[0]))) })
	fn("MakeSlice", func(m *Machine, t *Thread, a []Value) Value {
		ty := rtOf(a[0])
		st, ok := under(ty).(*types.Slice)
		if !ok {
			panic(m.rpanic("reflect.MakeSlice of non-slice type"))
		}
		n, c := m.concInt(a[1]), m.concInt(a[2])
		if n < 0 || c < n {
			panic(m.rpanic("reflect.MakeSlice: bad len or cap"))
		}
		s := make(Slice, c)
		fillZero(s, st.Elem())
		return RV{t: ty, v: s[:n]}
	})
	fn("Append", func(m *Machine, t *Thread, a []Value) Value {
		r := a[0].(RV)
		m.mustKind(r, "Append", reflect.Slice)
		et := under(r.t).(*types.Slice).Elem()
		s, _ := m.rvGet(r).(Slice)
		var add Slice
		for _, x := range a[1].(Slice) {
			add = append(add, m.assign(x.(RV), et, "reflect.Append"))
		}
		return RV{t: r.t, v: m.appendVals(s, add, et, true), ro: r.ro}
	})
	fn("Indirect", func(m *Machine, t *Thread, a []Value) Value {
		r := a[0].(RV)
		if r.t == nil || kindOf(r.t) != reflect.Pointer {
			return r
		}
		p := m.rvGet(r).(*Value)
		if p == nil {
			return RV{}
		}
		return RV{t: types.Unalias(under(r.t).(*types.Pointer).Elem()), p: p, ro: r.ro}
	})

	vm := func(name string, f func(m *Machine, r RV, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(m *Machine, t *Thread, a []Value) Value {
			r, ok := a[0].(RV)
			if !ok {
				panic(unsupported(fmt.Sprintf("reflect.Value held as %T", a[0])))
			}
			return f(m, r, a)
		}
	}
	vm("IsValid", func(m *Machine, r RV, a []Value) Value { return Bool(r.t != nil) })
	vm("Kind", func(m *Machine, r RV, a []Value) Value {
		if r.t == nil {
			return kind(reflect.Invalid)
		}
		return kind(kindOf(r.t))
	})
	vm("Type", func(m *Machine, r RV, a []Value) Value {
		if r.t == nil {
			panic(m.rpanic("call of reflect.Value.Type on zero Value"))
		}
		return m.rtIface(r.t)
	})
	vm("CanSet", func(m *Machine, r RV, a []Value) Value { return Bool(r.p != nil && !r.ro) })
	vm("CanAddr", func(m *Machine, r RV, a []Value) Value { return Bool(r.p != nil) })
	vm("CanInterface", func(m *Machine, r RV, a []Value) Value { return Bool(!r.ro) })
	vm("Addr", func(m *Machine, r RV, a []Value) Value {
		if r.p == nil {
			panic(m.rpanic("reflect.Value.Addr of unaddressable value"))
		}
		return RV{t: types.NewPointer(r.t), v: r.p, ro: r.ro}
	})
	vm("Elem", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Elem", reflect.Pointer, reflect.Interface)
		switch x := m.rvGet(r).(type) {
		case *Value:
			if x == nil {
				return RV{}
			}
			return RV{t: types.Unalias(under(r.t).(*types.Pointer).Elem()), p: x, ro: r.ro}
		case Iface:
			if x.t == nil {
				return RV{}
			}
			return RV{t: types.Unalias(x.t), v: x.v, ro: r.ro}
		}
		panic(unsupported("reflect Elem"))
	})
	vm("NumField", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "NumField", reflect.Struct)
		return i64(under(r.t).(*types.Struct).NumFields())
	})
	vm("Field", func(m *Machine, r RV, a []Value) Value { return m.rvField(r, m.concInt(a[1])) })
	vm("FieldByName", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "FieldByName", reflect.Struct)
		n, ok := conc(a[1])
		if !ok {
			panic(unsupported("symbolic field name"))
		}
		st := under(r.t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return m.rvField(r, i)
			}
		}
		return RV{}
	})
	vm("IsNil", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "IsNil", reflect.Pointer, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer)
		switch x := m.rvGet(r).(type) {
		case *Value:
			return Bool(x == nil)
		case Slice:
			return Bool(x == nil)
		case *MapObj:
			return Bool(x == nil)
		case *ChanObj:
			return Bool(x == nil)
		case *Closure:
			return Bool(x == nil)
		case Iface:
			return Bool(x.t == nil)
		}
		panic(unsupported("reflect IsNil"))
	})
	ptr := func(m *Machine, r RV, a []Value) Value {
		if x, ok := m.rvGet(r).(*Closure); ok {
			if x == nil {
				return Const(64, 0)
			}
			return Const(64, m.eng.codeAddr(x.fn))
		}
		panic(unsupported("reflect Pointer"))
	}
	vm("Pointer", ptr)
	vm("UnsafePointer", ptr)
	vm("IsZero", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "IsZero", append(append([]reflect.Kind{reflect.Bool, reflect.String, reflect.Float32, reflect.Float64, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Func, reflect.Interface, reflect.Struct, reflect.Array}, intKinds...), uintKinds...)...)
		v := m.rvGet(r)
		if f, ok := v.(Float); ok {
			return m.ctx.Eq(f.bits, Const(64, 0))
		}
		return m.eq(r.t, v, zero(r.t))
	})
	vm("Len", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Len", reflect.Slice, reflect.Array, reflect.String, reflect.Map, reflect.Chan)
		switch x := m.rvGet(r).(type) {
		case Slice:
			return i64(len(x))
		case Array:
			return i64(len(x))
		case Str:
			return i64(x.Len())
		case *MapObj:
			if x == nil {
				return i64(0)
			}
			return i64(len(x.ents))
		}
		panic(unsupported("reflect Len"))
	})
	vm("Cap", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Cap", reflect.Slice)
		return i64(cap(m.rvGet(r).(Slice)))
	})
	vm("Index", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Index", reflect.Slice, reflect.Array, reflect.String)
		i := m.concInt(a[1])
		switch u := under(r.t).(type) {
		case *types.Slice:
			s := m.rvGet(r).(Slice)
			if i < 0 || i >= len(s) {
				panic(m.rpanic("slice index out of range"))
			}
			return RV{t: types.Unalias(u.Elem()), p: &s[i], ro: r.ro}
		case *types.Array:
			if i < 0 || i >= int(u.Len()) {
				panic(m.rpanic("array index out of range"))
			}
			if r.p != nil {
				return RV{t: types.Unalias(u.Elem()), p: &(*r.p).(Array)[i], ro: r.ro}
			}
			return RV{t: types.Unalias(u.Elem()), v: r.v.(Array)[i], ro: r.ro}
		}
		s := m.rvGet(r).(Str)
		if i < 0 || i >= s.Len() {
			panic(m.rpanic("string index out of range"))
		}
		return RV{t: types.Typ[types.Uint8], v: s.At(i), ro: r.ro}
	})
	vm("Slice", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Slice", reflect.Slice, reflect.String)
		i, j := m.concInt(a[1]), m.concInt(a[2])
		switch x := m.rvGet(r).(type) {
		case Slice:
			if i < 0 || j < i || j > cap(x) {
				panic(m.rpanic("slice index out of bounds"))
			}
			if x == nil {
				return RV{t: r.t, v: x, ro: r.ro}
			}
			return RV{t: r.t, v: x[i:j], ro: r.ro}
		case Str:
			if i < 0 || j < i || j > x.Len() {
				panic(m.rpanic("string slice index out of bounds"))
			}
			return RV{t: r.t, v: x.Sub(i, j), ro: r.ro}
		}
		panic(unsupported("reflect Slice"))
	})
	vm("Interface", func(m *Machine, r RV, a []Value) Value {
		if r.t == nil {
			panic(m.rpanic("call of reflect.Value.Interface on zero Value"))
		}
		if r.ro {
			panic(m.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method"))
		}
		v := m.rvGet(r)
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{t: r.t, v: deepCopy(v)}
	})
	vm("String", func(m *Machine, r RV, a []Value) Value {
		if r.t == nil {
			return S("<invalid Value>")
		}
		if kindOf(r.t) == reflect.String {
			return m.rvGet(r)
		}
		return S("<" + typeString(r.t) + " Value>")
	})
	vm("Bool", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Bool", reflect.Bool)
		return m.rvGet(r)
	})
	vm("Int", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Int", intKinds...)
		return m.ctx.Conv(m.rvGet(r).(*Expr), 64, true)
	})
	vm("Uint", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Uint", uintKinds...)
		return m.ctx.Conv(m.rvGet(r).(*Expr), 64, false)
	})
	vm("Float", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Float", reflect.Float32, reflect.Float64)
		return m.rvGet(r)
	})
	vm("Bytes", func(m *Machine, r RV, a []Value) Value {
		m.mustKind(r, "Bytes", reflect.Slice)
		return m.rvGet(r)
	})
	set := func(name string, ks []reflect.Kind, f func(m *Machine, r RV, v Value) Value) {
		vm(name, func(m *Machine, r RV, a []Value) Value {
			m.mustSet(r, name)
			m.mustKind(r, name, ks...)
			m.storeCell(r.p, f(m, r, a[1]))
			return nil
		})
	}
	set("SetString", []reflect.Kind{reflect.String}, func(m *Machine, r RV, v Value) Value { return v })
	set("SetBool", []reflect.Kind{reflect.Bool}, func(m *Machine, r RV, v Value) Value { return v })
	conv := func(m *Machine, r RV, v Value) Value {
		w, _ := intInfo(r.t)
		return m.ctx.Conv(v.(*Expr), w, true)
	}
	set("SetInt", intKinds, conv)
	set("SetUint", uintKinds, conv)
	set("SetFloat", []reflect.Kind{reflect.Float32, reflect.Float64}, func(m *Machine, r RV, v Value) Value {
		return m.convert(types.Typ[types.Float64], r.t, v)
	})
	set("SetLen", []reflect.Kind{reflect.Slice}, func(m *Machine, r RV, v Value) Value {
		s := m.rvGet(r).(Slice)
		n := m.concInt(v)
		if n < 0 || n > cap(s) {
			panic(m.rpanic("slice length out of range in SetLen"))
		}
		return s[:n]
	})
	vm("SetZero", func(m *Machine, r RV, a []Value) Value {
		m.mustSet(r, "SetZero")
		m.storeCell(r.p, zero(r.t))
		return nil
	})
	vm("Set", func(m *Machine, r RV, a []Value) Value {
		m.mustSet(r, "Set")
		x := a[1].(RV)
		if x.ro {
			panic(m.rpanic("reflect.Set using value obtained using unexported field"))
		}
		m.storeCell(r.p, deepCopy(m.assign(x, r.t, "reflect.Set")))
		return nil
	})
	vm("Convert", func(m *Machine, r RV, a []Value) Value {
		to := rtOf(a[1])
		if !types.ConvertibleTo(r.t, to) {
			panic(m.rpanic("reflect.Value.Convert: value of type " + typeString(r.t) + " cannot be converted to type " + typeString(to)))
		}
		v := m.rvGet(r)
		if _, ok := under(to).(*types.Interface); ok {
			return RV{t: to, v: Iface{t: r.t, v: v}, ro: r.ro}
		}
		if types.Identical(under(r.t), under(to)) {
			return RV{t: to, v: v, ro: r.ro}
		}
		return RV{t: to, v: m.convert(r.t, to, v), ro: r.ro}
	})
	vm("NumMethod", func(m *Machine, r RV, a []Value) Value { return i64(types.NewMethodSet(r.t).Len()) })
	vm("CanInt", func(m *Machine, r RV, a []Value) Value { w, s := intInfo(r.t); return Bool(w != 255 && w > 0 && s) })
	vm("CanUint", func(m *Machine, r RV, a []Value) Value { w, s := intInfo(r.t); return Bool(w != 255 && w > 0 && !s) })
	vm("CanFloat", func(m *Machine, r RV, a []Value) Value { return Bool(isFloat(r.t)) })
	ov := func(name string, sgn bool) {
		vm(name, func(m *Machine, r RV, a []Value) Value {
			w, _ := intInfo(r.t)
			x := a[1].(*Expr)
			return m.ctx.Not(m.ctx.Eq(m.ctx.Conv(m.ctx.Conv(x, w, sgn), 64, sgn), x))
		})
	}
	ov("OverflowInt", true)
	ov("OverflowUint", false)
	vm("OverflowFloat", func(m *Machine, r RV, a []Value) Value {
		if kindOf(r.t) == reflect.Float64 {
			return eFalse
		}
		f, ok := a[1].(Float).conc()
		if !ok {
			panic(unsupported("symbolic OverflowFloat"))
		}
		return Bool(reflect.ValueOf(float32(0)).OverflowFloat(f))
	})
	intrinsics["(reflect.Kind).String"] = func(m *Machine, t *Thread, a []Value) Value {
		return S(reflect.Kind(m.concretize(a[0].(*Expr))).String())
	}
	intrinsics["reflect.DeepEqual"] = func(m *Machine, t *Thread, a []Value) Value {
		return m.deepEq(a[0], a[1])
	}
}

func (m *Machine) deepEq(a, b Value) *Expr {
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return eFalse
		}
		return m.deepEq(x.v, y.v)
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return eFalse
		}
		r := eTrue
		for i := range x {
			r = m.ctx.And(r, m.deepEq(x[i], y[i]))
		}
		return r
	case Struct:
		y := b.(Struct)
		r := eTrue
		for i := range x {
			r = m.ctx.And(r, m.deepEq(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		r := eTrue
		for i := range x {
			r = m.ctx.And(r, m.deepEq(x[i], y[i]))
		}
		return r
	case *Value:
		y := b.(*Value)
		if x == nil || y == nil || x == y {
			return Bool(x == y)
		}
		return m.deepEq(*x, *y)
	case *MapObj:
		y := b.(*MapObj)
		if x == nil || y == nil || x == y {
			return Bool(x == y)
		}
		if len(x.ents) != len(y.ents) {
			return eFalse
		}
		r := eTrue
		for _, e := range x.ents {
			j := m.mapFind(y, nil, e.k)
			if j < 0 {
				return eFalse
			}
			r = m.ctx.And(r, m.deepEq(e.v, y.ents[j].v))
		}
		return r
	}
	return m.eq(nil, a, b)
}
