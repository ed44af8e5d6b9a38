package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	idx int32 // register, or -1
	c   Value
}

type inst struct {
	in  ssa.Instruction
	dst int32
	a   [3]operand
	ops []operand // phi edges, call args, results, bindings
	x   any       // per-instruction cache
}

// Code is a function compiled for one machine.
type Code struct {
	fn     *ssa.Function
	ins    []inst
	start  []int // block index -> first instruction
	nregs  int
	calls  int
	intrin intrinsic
	body   *Code // the function's own body, when an intrinsic declines
}

type deferRec struct {
	t    target
	next *deferRec
}

type target struct {
	code *Code
	env  []Value
	args []Value
	bi   *ssa.Builtin
	nat  func(m *Machine, args []Value) Value
	call *ssa.CallCommon
}

const (
	frCall  = iota // result goes to the caller's current instruction
	frDefer        // deferred call: result dropped, caller's pc unchanged
	frRoot         // thread entry
)

type Frame struct {
	code      *Code
	regs      []Value
	pc        int
	prev      int
	defers    *deferRec
	panicking bool
	pval      Value
	recovered bool
	kind      int
	epoch     int
}

type Thread struct {
	id      int
	frames  []*Frame
	done    bool
	blocked func(m *Machine) bool // nil: runnable; else becomes runnable when true
	why     string
	vc      vclock
	yielded bool
	par     int
}

type decision struct {
	v      uint64
	forced bool
}

type alt struct {
	v     uint64
	model []uint64
}

type marks struct {
	cells, doms, ents, funcs   int
	pc, inputs, path, oblig    int
	nvars, steps, obs, reached int
}

type choicePoint struct {
	threads []*Thread
	cur     int
	mk      marks
	dec     []decision
	alts    []alt
}

type cellUndo struct {
	p   *Value
	old Value
}
type domUndo struct {
	v   int32
	old [4]uint64
}

type input struct {
	kind byte // 'v' variable, 'c' constant choice
	id   int32
	val  uint64
}

type endKind int

const (
	endDone endKind = iota
	endAssume
	endViolation
	endUnsupported
	endLimit
	endUnknown
	endStop
	endKnown
)

type pathEnd struct {
	kind endKind
	msg  string
}

type goPanic struct{ v Value }

type obligation struct {
	v    int32
	pcn  int
	cond *Expr
	done *bool
}

// Machine executes one harness symbolically; each worker has its own.
type Machine struct {
	eng     *Engine
	prog    *ssa.Program
	ctx     *Ctx
	solver  *Solver
	globals map[*ssa.Global]*Value
	codes   map[*ssa.Function]*Code

	threads []*Thread
	cur     int
	epoch   int

	cells []cellUndo
	doms  []domUndo
	entsT []int32
	funcs []func()

	choices []*choicePoint
	pc      []*Expr
	pcVar   []int32 // single variable of pc[i], or -2
	dom     [][4]uint64
	ent     []int32
	model   []uint64
	nvars   int
	inputs  []input
	obs     []Value
	reached []string
	path    []decision
	oblig   []obligation
	oblSeen map[oblKey]bool

	i0     marks
	dec    []decision
	decIdx int
	script []decision
	scrIdx int
	smodel []uint64

	steps     int
	stepLimit int
	base      marks

	qcache map[string]qres
	meth   map[methKey]*ssa.Function
	lockID int
	race   *raceState
	unkn   bool

	fnUsed map[*ssa.Function]bool
	st     *Stats
	opts   map[string]int

	panicMsg string
	side     map[any]any
	runeSrc  map[*Expr][]*Expr
	impl     map[implKey]bool
	locks    map[*Value]*lockState
	preLeft  *Value
	widths   *widths
	floats   []Float
	rootCode *Code
}

type qres struct {
	r Result
	m map[int32]uint64
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type oblKey struct {
	d    [4]uint64
	cond *Expr
}

func NewMachine(eng *Engine) *Machine {
	m := &Machine{eng: eng, prog: eng.prog, globals: map[*ssa.Global]*Value{}, codes: map[*ssa.Function]*Code{},
		qcache: map[string]qres{}, meth: map[methKey]*ssa.Function{}, oblSeen: map[oblKey]bool{},
		fnUsed: map[*ssa.Function]bool{}, st: &Stats{}, stepLimit: 4000000, side: map[any]any{},
		runeSrc: map[*Expr][]*Expr{}, impl: map[implKey]bool{}, locks: map[*Value]*lockState{}, preLeft: newCell(Const(64, 0))}
	m.ctx = NewCtx()
	m.solver = NewSolver(m.ctx, eng.solverTimeout)
	return m
}

// ---------- memory ----------

func (m *Machine) set(p *Value, v Value) {
	m.cells = append(m.cells, cellUndo{p, *p})
	*p = v
}

// SymPtr is a pointer to one of several cells, selected by a symbolic in-range index.
type SymPtr struct {
	cells []Value
	idx   *Expr
}

func (m *Machine) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			panic(m.rtErr("invalid memory address or nil pointer dereference"))
		}
		if m.race != nil {
			m.raceAccess(p, false)
		}
		switch v := (*p).(type) {
		case Struct, Array:
			return deepCopy(v)
		default:
			return v
		}
	case *SymPtr:
		if v := m.symIndex(p.cells, p.idx); v != nil {
			return v
		}
		i := m.concretize(p.idx)
		return deepCopy(p.cells[i])
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

// symIndex reads cells[idx] when all cells are constant scalars.
func (m *Machine) symIndex(cells []Value, idx *Expr) Value {
	if len(cells) == 0 || len(cells) > 65536 {
		return nil
	}
	var w uint8
	n := len(cells)
	if idx.op == OpZExt && idx.a.w == 8 && n > 256 {
		n = 256
	}
	tab := make([]uint64, n)
	for i := 0; i < n; i++ {
		e, ok := cells[i].(*Expr)
		if !ok || !e.isConst() {
			return nil
		}
		w = e.w
		tab[i] = e.val
	}
	if w == 0 {
		return nil
	}
	return m.ctx.Table(idx, w, tab)
}

func (m *Machine) store(p Value, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			panic(m.rtErr("invalid memory address or nil pointer dereference"))
		}
		m.storeCell(p, v)
		return
	case *SymPtr:
		i := m.concretize(p.idx)
		m.storeCell(&p.cells[i], v)
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (m *Machine) storeCell(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			if m.race != nil {
				m.raceAccess(p, true)
			}
			for i := range v {
				m.storeCell(&d[i], v[i])
			}
			return
		}
		m.set(p, deepCopy(v))
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				m.storeCell(&d[i], v[i])
			}
			return
		}
		m.set(p, deepCopy(v))
		return
	}
	if m.race != nil {
		m.raceAccess(p, true)
	}
	m.set(p, v)
}

func newCell(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

func (m *Machine) rtErr(msg string) goPanic {
	return goPanic{Iface{t: m.eng.runtimeError, v: S("runtime error: " + msg)}}
}

// ---------- forking ----------

func (m *Machine) mark() marks {
	return marks{len(m.cells), len(m.doms), len(m.entsT), len(m.funcs), len(m.pc), len(m.inputs), len(m.path), len(m.oblig), m.nvars, m.steps, len(m.obs), len(m.reached)}
}

func (m *Machine) undoTo(k marks) {
	for i := len(m.cells) - 1; i >= k.cells; i-- {
		*m.cells[i].p = m.cells[i].old
		m.cells[i] = cellUndo{}
	}
	m.cells = m.cells[:k.cells]
	for i := len(m.doms) - 1; i >= k.doms; i-- {
		m.dom[m.doms[i].v] = m.doms[i].old
	}
	m.doms = m.doms[:k.doms]
	for i := len(m.entsT) - 1; i >= k.ents; i-- {
		m.ent[m.entsT[i]]--
	}
	m.entsT = m.entsT[:k.ents]
	for i := len(m.funcs) - 1; i >= k.funcs; i-- {
		m.funcs[i]()
		m.funcs[i] = nil
	}
	m.funcs = m.funcs[:k.funcs]
	m.pc = m.pc[:k.pc]
	m.pcVar = m.pcVar[:k.pc]
	m.inputs = m.inputs[:k.inputs]
	m.path = m.path[:k.path]
	m.oblig = m.oblig[:k.oblig]
	m.nvars = k.nvars
	m.dom = m.dom[:k.nvars]
	m.ent = m.ent[:k.nvars]
	m.steps = k.steps
	m.obs = m.obs[:k.obs]
	m.reached = m.reached[:k.reached]
}

// undo registers an action to be run on backtracking.
func (m *Machine) undo(f func()) { m.funcs = append(m.funcs, f) }

// widths is the width of every variable index.
type widths struct {
	mu sync.Mutex
	w  []uint8
}

func (s *widths) index(first int32, w uint8) int32 {
	s.mu.Lock()
	defer s.mu.Unlock()
	id := int(first)
	for id < len(s.w) && s.w[id] != w {
		id++
	}
	if id == len(s.w) {
		s.w = append(s.w, w)
	}
	return int32(id)
}

func (s *widths) upTo(have []uint8, id int32) []uint8 {
	s.mu.Lock()
	defer s.mu.Unlock()
	for len(have) <= int(id) {
		have = append(have, s.w[len(have)])
	}
	return have
}

func (m *Machine) newVar(w uint8, set *[4]uint64) *Expr {
	// An index that another path has used with another width is skipped. The table is shared by the workers so that
	// the same path has the same indices everywhere.
	first := int32(m.nvars)
	id := m.widths.index(first, w)
	for i := first; i < id; i++ {
		m.dom = append(m.dom, [4]uint64{})
		m.ent = append(m.ent, 0)
		m.model = append(m.model[:i:i], m.scriptVal(i, 0))
	}
	m.nvars = int(id) + 1
	m.ctx.varW = m.widths.upTo(m.ctx.varW, id)
	d := [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	v := m.ctx.Var(id, w)
	init := uint64(0)
	if set != nil {
		d = *set
		init = setFirst(set)
	}
	m.dom = append(m.dom, d)
	m.ent = append(m.ent, 0)
	m.model = append(m.model[:id:id], m.scriptVal(id, init))
	if set != nil {
		tab := make([]uint64, 256)
		for i := range tab {
			if set[i>>6]>>(uint(i)&63)&1 == 1 {
				tab[i] = 1
			}
		}
		m.pc = append(m.pc, m.ctx.Eq(m.ctx.Table(v, 8, tab), Const(8, 1)))
		m.pcVar = append(m.pcVar, id)
	}
	if w != 8 {
		m.ent[id] = 1 << 20 // never handled by domains
	}
	return v
}

func (m *Machine) scriptVal(id int32, def uint64) uint64 {
	if int(id) < len(m.smodel) {
		return m.smodel[id]
	}
	return def
}

func (m *Machine) addPC(e *Expr) {
	if e.isConst() {
		return
	}
	if e.op == OpAnd {
		m.addPC(e.a)
		m.addPC(e.b)
		return
	}
	m.pc = append(m.pc, e)
	m.pcVar = append(m.pcVar, e.sup)
	if e.sup >= 0 && m.ctx.varW[e.sup] == 8 {
		t := m.ctx.TT(e)
		m.doms = append(m.doms, domUndo{e.sup, m.dom[e.sup]})
		d := &m.dom[e.sup]
		for i := range d {
			d[i] &= t[i]
		}
		return
	}
	for _, v := range e.support() {
		m.ent[v]++
		m.entsT = append(m.entsT, v)
	}
}

func (m *Machine) isSingleByte(e *Expr) bool {
	return e.sup >= 0 && m.ctx.varW[e.sup] == 8
}

// feasible decides whether the path condition admits e.
func (m *Machine) feasible(e *Expr) (Result, []uint64) {
	if m.isSingleByte(e) && m.ent[e.sup] == 0 {
		m.st.DomainChecks++
		t := m.ctx.TT(e)
		d := m.dom[e.sup]
		x := [4]uint64{d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]}
		if setEmpty(&x) {
			m.obligation(e)
			return Unsat, nil
		}
		nm := append([]uint64(nil), m.model...)
		nm[e.sup] = setFirst(&x)
		return Sat, nm
	}
	if m.isSingleByte(e) {
		t := m.ctx.TT(e)
		d := m.dom[e.sup]
		x := [4]uint64{d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]}
		if setEmpty(&x) {
			m.st.DomainChecks++
			m.obligation(e)
			return Unsat, nil
		}
		if nm := m.quickModel(e.sup, &x); nm != nil {
			m.st.QuickModels++
			return Sat, nm
		}
	}
	// conjunction of single-byte facts over untangled variables
	if e.op == OpAnd {
		if ok, nm, bad := m.conjDomain(e); ok {
			m.st.DomainChecks++
			if bad != nil {
				m.obligation(bad)
				return Unsat, nil
			}
			return Sat, nm
		}
	}
	if e.sup < 0 {
		sup := e.support()
		if len(sup) <= 8 {
			for _, v := range sup {
				if m.ctx.varW[v] != 8 {
					continue
				}
				if nm := m.quickMulti(e, v); nm != nil {
					m.st.QuickModels++
					return Sat, nm
				}
			}
		}
	}
	return m.solve(e)
}

// quickMulti looks for a value of v that, with the other variables unchanged, satisfies e and the path condition.
func (m *Machine) quickMulti(e *Expr, v int32) []uint64 {
	var cs []*Expr
	if m.ent[v] > 0 {
		for i, c := range m.pc {
			if m.pcVar[i] < 0 {
				for _, u := range c.support() {
					if u == v {
						cs = append(cs, c)
						break
					}
				}
				if len(cs) > 40 {
					return nil
				}
			}
		}
	}
	d := &m.dom[v]
	nm := append([]uint64(nil), m.model...)
	for k := uint64(0); k < 256; k++ {
		if d[k>>6]>>(k&63)&1 == 0 {
			continue
		}
		nm[v] = k
		ok := m.ctx.Eval(e, nm) == 1
		for _, c := range cs {
			if !ok {
				break
			}
			ok = m.ctx.Eval(c, nm) == 1
		}
		if ok {
			return nm
		}
	}
	return nil
}

// quickModel looks for a value of v in set that, with the other variables unchanged, satisfies the path condition.
func (m *Machine) quickModel(v int32, set *[4]uint64) []uint64 {
	var cs []*Expr
	for i, c := range m.pc {
		if m.pcVar[i] < 0 {
			for _, u := range c.support() {
				if u == v {
					cs = append(cs, c)
					break
				}
			}
			if len(cs) > 40 {
				return nil
			}
		}
	}
	nm := append([]uint64(nil), m.model...)
	n := 0
	for k := 0; k < 256 && n < 12; k++ {
		if set[k>>6]>>(uint(k)&63)&1 == 0 {
			continue
		}
		n++
		nm[v] = uint64(k)
		ok := true
		for _, c := range cs {
			if m.ctx.Eval(c, nm) != 1 {
				ok = false
				break
			}
		}
		if ok {
			return nm
		}
	}
	return nil
}

// conjDomain handles a conjunction whose conjuncts each concern one untangled byte variable.
func (m *Machine) conjDomain(e *Expr) (ok bool, model []uint64, bad *Expr) {
	var cs []*Expr
	var flat func(e *Expr) bool
	flat = func(e *Expr) bool {
		if e.op == OpAnd {
			return flat(e.a) && flat(e.b)
		}
		if !m.isSingleByte(e) || m.ent[e.sup] != 0 {
			return false
		}
		cs = append(cs, e)
		return len(cs) <= 64
	}
	if !flat(e) {
		return false, nil, nil
	}
	nm := append([]uint64(nil), m.model...)
	for i, x := range cs {
		d := m.dom[x.sup]
		for j, y := range cs {
			if y.sup == x.sup && j <= i {
				t := m.ctx.TT(y)
				for k := range d {
					d[k] &= t[k]
				}
			}
		}
		if setEmpty(&d) {
			all := x
			for j := 0; j < i; j++ {
				if cs[j].sup == x.sup {
					all = m.ctx.And(all, cs[j])
				}
			}
			return true, nil, all
		}
		if v := nm[x.sup]; d[v>>6]>>(v&63)&1 == 0 {
			nm[x.sup] = setFirst(&d)
		}
	}
	return true, nm, nil
}

// obligation remembers a verdict of the domain procedure so that z3 re-proves it at the end of the path.
func (m *Machine) obligation(e *Expr) {
	k := oblKey{m.dom[e.sup], e}
	if m.oblSeen[k] {
		return
	}
	m.oblSeen[k] = true
	var cs []*Expr
	for i, v := range m.pcVar {
		if v == e.sup {
			cs = append(cs, m.pc[i])
		}
	}
	m.st.pend = append(m.st.pend, pendObl{cs: cs, cond: e})
	if len(m.st.pend) >= 24 {
		m.flushObl()
	}
}

type pendObl struct {
	cs   []*Expr
	cond *Expr
}

// flushObl asks z3 to confirm that none of the alternatives cut by the domain procedure is feasible.
func (m *Machine) flushObl() {
	if len(m.st.pend) == 0 {
		return
	}
	any := eFalse
	for _, p := range m.st.pend {
		c := p.cond
		for _, x := range p.cs {
			c = m.ctx.And(c, x)
		}
		any = m.ctx.Or(any, c)
	}
	n := len(m.st.pend)
	m.st.pend = m.st.pend[:0]
	if any.isFalse() {
		m.st.Obligations += n
		return
	}
	r, _ := m.solver.Check([]*Expr{any})
	switch r {
	case Unsat:
		m.st.Obligations += n
	case Sat:
		m.st.OblFailed += n
	default:
		m.st.OblUnknown += n
	}
}

// solve asks z3, giving it only the constraints connected with e.
func (m *Machine) solve(e *Expr) (Result, []uint64) {
	rel := map[int32]bool{}
	for _, v := range e.support() {
		rel[v] = true
	}
	used := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.support() {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range c.support() {
					if !rel[v] {
						rel[v] = true
						changed = true
					}
				}
			}
		}
	}
	cs := []*Expr{e}
	// the single-byte constraints enter the key through the domains they leave
	kb := binary.LittleEndian.AppendUint32(nil, uint32(e.id))
	for i, c := range m.pc {
		if used[i] {
			cs = append(cs, c)
			if !m.isSingleByte(c) {
				kb = binary.LittleEndian.AppendUint32(kb, uint32(c.id))
			}
		}
	}
	var vs []int32
	for v := range rel {
		if m.ctx.varW[v] == 8 {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	for _, v := range vs {
		kb = binary.LittleEndian.AppendUint32(kb, uint32(v)|1<<31)
		for _, x := range m.dom[v] {
			kb = binary.LittleEndian.AppendUint64(kb, x)
		}
	}
	key := string(kb)
	q, ok := m.qcache[key]
	if !ok {
		r, mod := m.solver.Check(cs)
		q = qres{r, mod}
		if len(m.qcache) < 200000 {
			m.qcache[key] = q
		}
	} else {
		m.st.CacheHits++
	}
	if q.r != Sat {
		return q.r, nil
	}
	nm := append([]uint64(nil), m.model...)
	for v, x := range q.m {
		nm[v] = x
	}
	return Sat, nm
}

// branch takes a side of cond, forking when both are feasible.
func (m *Machine) branch(cond *Expr) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	if m.decIdx < len(m.dec) {
		d := m.dec[m.decIdx]
		m.decIdx++
		m.take(cond, d)
		return d.v == 1
	}
	if m.scrIdx < len(m.script) {
		d := m.script[m.scrIdx]
		m.scrIdx++
		m.dec = append(m.dec, d)
		m.decIdx++
		m.take(cond, d)
		return d.v == 1
	}
	cur := m.ctx.Eval(cond, m.model) == 1
	other := cond
	if cur {
		other = m.ctx.Not(cond)
	}
	res, nm := m.feasible(other)
	d := decision{v: b2u(cur)}
	if res != Sat {
		if res == Unknown {
			m.st.UnknownBranches++
			m.unkn = true
		}
		d.forced = true
	} else {
		m.pushChoice([]alt{{b2u(!cur), nm}})
	}
	m.dec = append(m.dec, d)
	m.decIdx++
	m.take(cond, d)
	return cur
}

func (m *Machine) take(cond *Expr, d decision) {
	m.path = append(m.path, d)
	if d.forced {
		return
	}
	if d.v == 1 {
		m.addPC(cond)
	} else {
		m.addPC(m.ctx.Not(cond))
	}
}

// choose forks n ways.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.decIdx < len(m.dec) {
		d := m.dec[m.decIdx]
		m.decIdx++
		m.path = append(m.path, d)
		return int(d.v)
	}
	if m.scrIdx < len(m.script) {
		d := m.script[m.scrIdx]
		m.scrIdx++
		m.dec = append(m.dec, d)
		m.decIdx++
		m.path = append(m.path, d)
		return int(d.v)
	}
	alts := make([]alt, 0, n-1)
	for i := n - 1; i >= 1; i-- {
		alts = append(alts, alt{uint64(i), m.model})
	}
	m.pushChoice(alts)
	d := decision{v: 0}
	m.dec = append(m.dec, d)
	m.decIdx++
	m.path = append(m.path, d)
	return 0
}

func (m *Machine) pushChoice(alts []alt) {
	cp := &choicePoint{cur: m.cur, mk: m.i0, alts: alts, dec: append([]decision(nil), m.dec...)}
	cp.threads = make([]*Thread, len(m.threads))
	for i, t := range m.threads {
		c := *t
		c.frames = append([]*Frame(nil), t.frames...)
		c.vc = append(vclock(nil), t.vc...)
		cp.threads[i] = &c
	}
	m.epoch++
	m.choices = append(m.choices, cp)
	m.st.Forks++
}

// backtrack resumes the most recent open alternative; false when none is left.
func (m *Machine) backtrack() bool {
	if len(m.choices) == 0 {
		return false
	}
	cp := m.choices[len(m.choices)-1]
	a := cp.alts[len(cp.alts)-1]
	cp.alts = cp.alts[:len(cp.alts)-1]
	last := len(cp.alts) == 0
	if last {
		m.choices[len(m.choices)-1] = nil
		m.choices = m.choices[:len(m.choices)-1]
	}
	m.undoTo(cp.mk)
	m.threads = m.threads[:0:0]
	for _, t := range cp.threads {
		if last {
			m.threads = append(m.threads, t)
			continue
		}
		c := *t
		c.frames = append([]*Frame(nil), t.frames...)
		c.vc = append(vclock(nil), t.vc...)
		m.threads = append(m.threads, &c)
	}
	m.cur = cp.cur
	m.epoch++
	m.model = a.model
	m.dec = append(append(m.dec[:0], cp.dec...), decision{v: a.v})
	m.decIdx = 0
	m.unkn = false
	return true
}

// donate removes the oldest open alternative and returns it as a job.
func (m *Machine) donate() *job {
	for i, cp := range m.choices {
		if len(cp.alts) == 0 {
			continue
		}
		a := cp.alts[0]
		cp.alts = cp.alts[1:]
		j := &job{model: a.model}
		j.script = append(j.script, m.path[:cp.mk.path]...)
		j.script = append(j.script, cp.dec...)
		j.script = append(j.script, decision{v: a.v})
		if len(cp.alts) == 0 {
			m.choices = append(m.choices[:i:i], m.choices[i+1:]...)
		}
		return j
	}
	return nil
}

// concretize returns a concrete value of e, forking over all feasible ones.
func (m *Machine) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.val
	}
	for {
		var v uint64
		if m.decIdx < len(m.dec) || m.scrIdx < len(m.script) {
			v = m.ctx.Eval(e, m.model)
			// The recorded decisions were made for particular values: read the value from the record.
			var d decision
			if m.decIdx < len(m.dec) {
				d = m.dec[m.decIdx]
			} else {
				d = m.script[m.scrIdx]
			}
			v = d.v
			m.choose(2) // consume the value record
		} else {
			v = m.ctx.Eval(e, m.model)
			d := decision{v: v, forced: true}
			m.dec = append(m.dec, d)
			m.decIdx++
			m.path = append(m.path, d)
		}
		if m.branch(m.ctx.Eq(e, Const(e.w, v))) {
			return v
		}
	}
}

func (m *Machine) concInt(v Value) int {
	e := v.(*Expr)
	return int(signed(m.concretize(e), e.w))
}

func (m *Machine) stop(kind endKind, msg string) {
	panic(pathEnd{kind, msg})
}

// ---------- execution ----------

func (m *Machine) get(fr *Frame, o *operand) Value {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	return o.c
}

func (m *Machine) own(t *Thread) *Frame {
	fr := t.frames[len(t.frames)-1]
	if fr.epoch != m.epoch {
		c := *fr
		c.regs = append([]Value(nil), fr.regs...)
		c.epoch = m.epoch
		fr = &c
		t.frames[len(t.frames)-1] = fr
	}
	return fr
}

func (m *Machine) setReg(t *Thread, dst int32, v Value) {
	fr := m.own(t)
	if dst >= 0 {
		fr.regs[dst] = v
	}
	fr.pc++
}

func (m *Machine) pushFrame(t *Thread, code *Code, env, args []Value, kind int) {
	if len(t.frames) > 400 {
		panic(pathEnd{endLimit, "call depth"})
	}
	fr := &Frame{code: code, regs: make([]Value, code.nregs), prev: -1, kind: kind, epoch: m.epoch}
	copy(fr.regs, args)
	copy(fr.regs[len(code.fn.Params):], env)
	if len(args) != len(code.fn.Params) {
		panic(unsupported(fmt.Sprintf("%s: %d args for %d params", code.fn, len(args), len(code.fn.Params))))
	}
	m.fnUsed[code.fn] = true
	t.frames = append(t.frames, fr)
}

// runPath executes until the current path ends.
func (m *Machine) runPath() (end pathEnd) {
	for {
		again, e := m.runSome()
		if !again {
			return e
		}
	}
}

func (m *Machine) runSome() (again bool, end pathEnd) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case pathEnd:
			again, end = false, r
		case unsupportedErr:
			again, end = false, pathEnd{endUnsupported, r.msg + " in " + m.where()}
		case goPanic:
			again = true
			func() {
				defer func() {
					if x := recover(); x != nil {
						if pe, ok := x.(pathEnd); ok {
							again, end = false, pe
							return
						}
						panic(x)
					}
				}()
				m.startPanic(r.v)
			}()
		default:
			msg := fmt.Sprintf("engine: %v in %s", r, m.where())
			if m.eng.verbose {
				msg += "\n" + string(debug.Stack())
			}
			again, end = false, pathEnd{endUnsupported, msg}
		}
	}()
	for {
		m.steps++
		m.st.Steps++
		if m.steps > m.stepLimit {
			panic(pathEnd{endLimit, "step limit in " + m.where()})
		}
		if m.st.Steps&0x3ff == 0 && m.eng.stopFlag.Load() {
			panic(pathEnd{endStop, ""})
		}
		t := m.threads[m.cur]
		m.i0 = m.mark()
		if len(m.dec) > 0 && m.decIdx == len(m.dec) {
			m.dec = m.dec[:0]
			m.decIdx = 0
		}
		if len(m.threads) > 1 && m.needSwitch(t) {
			m.schedule()
			continue
		}
		m.step(t)
		if m.decIdx != len(m.dec) {
			panic(unsupported("internal: decisions left over"))
		}
	}
}

func (m *Machine) where() string {
	if m.cur >= len(m.threads) {
		return "?"
	}
	t := m.threads[m.cur]
	var s []string
	for i := len(t.frames) - 1; i >= 0 && len(s) < 4; i-- {
		f := t.frames[i]
		pos := ""
		if f.pc < len(f.code.ins) {
			p := m.prog.Fset.Position(f.code.ins[f.pc].in.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf("@%d", p.Line)
			}
		}
		s = append(s, f.code.fn.String()+pos)
	}
	return strings.Join(s, " < ")
}

// startPanic begins unwinding with value v in the current thread.
func (m *Machine) startPanic(v Value) {
	t := m.threads[m.cur]
	fr := m.own(t)
	fr.panicking = true
	fr.recovered = false
	fr.pval = v
	m.unwind(t)
}

// unwind continues a panic in the top frame: next deferred call, or propagate to the caller.
func (m *Machine) unwind(t *Thread) {
	for {
		fr := m.own(t)
		if fr.recovered {
			fr.panicking = false
			if fr.defers != nil {
				d := fr.defers
				fr.defers = d.next
				fr.recovered = true
				fr.panicking = true // keep unwinding mode; recovered stays set
				fr.pval = nil
				if m.invokeTarget(t, &d.t, frDefer) {
					return
				}
				continue
			}
			fr.recovered = false
			fr.panicking = false
			if fr.code.fn.Recover != nil {
				fr.pc = fr.code.start[fr.code.fn.Recover.Index]
				fr.prev = -1
				return
			}
			m.doReturn(t, zero(fr.code.fn.Signature.Results()))
			return
		}
		if fr.defers != nil {
			d := fr.defers
			fr.defers = d.next
			if m.invokeTarget(t, &d.t, frDefer) {
				return
			}
			continue
		}
		v := fr.pval
		if fr.kind == frRoot || len(t.frames) == 1 {
			m.panicMsg = m.panicText(v)
			panic(pathEnd{endViolation, "panic: " + m.panicMsg})
		}
		t.frames[len(t.frames)-1] = nil
		t.frames = t.frames[:len(t.frames)-1]
		// a panic in a deferred call replaces the one in progress below
		fr = m.own(t)
		fr.panicking = true
		fr.recovered = false
		fr.pval = v
	}
}

func (m *Machine) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(Str); ok {
			if c, ok := s.Conc(); ok {
				return c
			}
			return "(text with symbolic bytes)"
		}
		return fmt.Sprintf("%v", i.t)
	}
	return fmt.Sprintf("%T", v)
}

// doReturn pops the top frame and delivers its result.
func (m *Machine) doReturn(t *Thread, res Value) {
	fr := t.frames[len(t.frames)-1]
	t.frames[len(t.frames)-1] = nil
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 || fr.kind == frRoot {
		t.done = true
		m.threadDone(t)
		return
	}
	if tp, ok := res.(Tuple); ok {
		switch len(tp) {
		case 0:
			res = nil
		case 1:
			res = tp[0]
		}
	}
	if fr.kind == frDefer {
		c := m.own(t)
		if c.panicking {
			m.unwind(t)
		}
		return
	}
	c := m.own(t)
	in := &c.code.ins[c.pc]
	if in.dst >= 0 {
		c.regs[in.dst] = res
	}
	c.pc++
}

// invokeTarget calls a target; it reports whether a frame was pushed.
func (m *Machine) invokeTarget(t *Thread, tg *target, kind int) bool {
	if tg.bi != nil {
		m.builtin(t, tg.bi, tg.args, tg.call)
		return false
	}
	if tg.nat != nil {
		tg.nat(m, tg.args)
		return false
	}
	if tg.code == nil {
		panic(m.rtErr("invalid memory address or nil pointer dereference"))
	}
	if tg.code.intrin != nil {
		r := tg.code.intrin(m, t, tg.args)
		switch r := r.(type) {
		case pushed:
			r.fr.kind = kind
			return true
		case callBody:
			m.pushFrame(t, m.ownBody(tg.code), tg.env, tg.args, kind)
			return true
		}
		return false
	}
	if tg.code.fn.Blocks == nil {
		panic(unsupported("no body: " + tg.code.fn.String()))
	}
	m.pushFrame(t, tg.code, tg.env, tg.args, kind)
	return true
}

// pushed is returned by an intrinsic that has pushed a frame whose result replaces the call's.
type pushed struct{ fr *Frame }

func (m *Machine) code(fn *ssa.Function) *Code {
	c, ok := m.codes[fn]
	if ok {
		return c
	}
	c = m.compile(fn)
	return c
}

func (m *Machine) compile(fn *ssa.Function) *Code {
	c := &Code{fn: fn}
	m.codes[fn] = c
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		c.intrin = in
		return c
	}
	if fn.Synthetic == "package initializer" || (fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init")) {
		if !m.eng.initAllowed(fn.Pkg.Pkg.Path()) {
			c.intrin = func(*Machine, *Thread, []Value) Value { return nil }
			return c
		}
	}
	if mf := m.eng.models[name]; mf != nil && mf != fn {
		mc := m.code(mf)
		*c = *mc
		return c
	}
	if fn.Blocks == nil {
		return c
	}
	m.compileBody(c)
	return c
}

// ownBody gives the code of the function body behind an intrinsic.
func (m *Machine) ownBody(c *Code) *Code {
	if c.body == nil {
		if c.fn.Blocks == nil {
			panic(unsupported("no body: " + c.fn.String()))
		}
		c.body = &Code{fn: c.fn}
		m.compileBody(c.body)
	}
	return c.body
}

func (m *Machine) compileBody(c *Code) {
	fn := c.fn
	idx := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		idx[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		idx[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				idx[v] = n
				n++
			}
		}
	}
	c.nregs = int(n)
	opd := func(v ssa.Value) operand {
		if v == nil {
			return operand{idx: -1}
		}
		if i, ok := idx[v]; ok {
			return operand{idx: i}
		}
		return operand{idx: -1, c: m.constVal(v)}
	}
	c.start = make([]int, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		c.start[bi] = len(c.ins)
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			x := inst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = idx[v]
			}
			switch in := in.(type) {
			case *ssa.Alloc:
			case *ssa.Phi:
				for _, e := range in.Edges {
					x.ops = append(x.ops, opd(e))
				}
			case *ssa.Call:
				m.callOps(&x, &in.Call, opd)
			case *ssa.Go:
				m.callOps(&x, &in.Call, opd)
			case *ssa.Defer:
				m.callOps(&x, &in.Call, opd)
			case *ssa.BinOp:
				x.a[0], x.a[1] = opd(in.X), opd(in.Y)
			case *ssa.UnOp:
				x.a[0] = opd(in.X)
			case *ssa.ChangeType:
				x.a[0] = opd(in.X)
			case *ssa.Convert:
				x.a[0] = opd(in.X)
			case *ssa.MultiConvert:
				x.a[0] = opd(in.X)
			case *ssa.ChangeInterface:
				x.a[0] = opd(in.X)
			case *ssa.SliceToArrayPointer:
				x.a[0] = opd(in.X)
			case *ssa.MakeInterface:
				x.a[0] = opd(in.X)
			case *ssa.MakeClosure:
				for _, b := range in.Bindings {
					x.ops = append(x.ops, opd(b))
				}
			case *ssa.MakeMap, *ssa.RunDefers, *ssa.Jump:
			case *ssa.MakeChan:
				x.a[0] = opd(in.Size)
			case *ssa.MakeSlice:
				x.a[0], x.a[1] = opd(in.Len), opd(in.Cap)
			case *ssa.Slice:
				x.a[0] = opd(in.X)
				x.ops = []operand{opd(in.Low), opd(in.High), opd(in.Max)}
			case *ssa.FieldAddr:
				x.a[0] = opd(in.X)
			case *ssa.Field:
				x.a[0] = opd(in.X)
			case *ssa.IndexAddr:
				x.a[0], x.a[1] = opd(in.X), opd(in.Index)
			case *ssa.Index:
				x.a[0], x.a[1] = opd(in.X), opd(in.Index)
			case *ssa.Lookup:
				x.a[0], x.a[1] = opd(in.X), opd(in.Index)
			case *ssa.Range:
				x.a[0] = opd(in.X)
			case *ssa.Next:
				x.a[0] = opd(in.Iter)
			case *ssa.TypeAssert:
				x.a[0] = opd(in.X)
			case *ssa.Extract:
				x.a[0] = opd(in.Tuple)
			case *ssa.If:
				x.a[0] = opd(in.Cond)
			case *ssa.Return:
				for _, r := range in.Results {
					x.ops = append(x.ops, opd(r))
				}
			case *ssa.Panic:
				x.a[0] = opd(in.X)
			case *ssa.Send:
				x.a[0], x.a[1] = opd(in.Chan), opd(in.X)
			case *ssa.Store:
				x.a[0], x.a[1] = opd(in.Addr), opd(in.Val)
			case *ssa.MapUpdate:
				x.a[0], x.a[1], x.a[2] = opd(in.Map), opd(in.Key), opd(in.Value)
			case *ssa.Select:
				for _, s := range in.States {
					x.ops = append(x.ops, opd(s.Chan), opd(s.Send))
				}
			default:
				x.x = unsupported(fmt.Sprintf("instruction %T", in))
			}
			c.ins = append(c.ins, x)
		}
	}
}

func (m *Machine) callOps(x *inst, cc *ssa.CallCommon, opd func(ssa.Value) operand) {
	if cc.IsInvoke() {
		x.a[0] = opd(cc.Value)
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Function:
			x.x = f
		case *ssa.Builtin:
			x.x = f
		default:
			x.a[0] = opd(cc.Value)
		}
	}
	for _, a := range cc.Args {
		x.ops = append(x.ops, opd(a))
	}
}

func (m *Machine) constVal(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return m.ssaConst(v)
	case *ssa.Global:
		return m.global(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return v
	}
	panic(unsupported(fmt.Sprintf("operand %T", v)))
}

func (m *Machine) global(g *ssa.Global) *Value {
	p, ok := m.globals[g]
	if !ok {
		if al, ok := globalAlias[g.String()]; ok {
			if pk := m.prog.ImportedPackage(al[0]); pk != nil {
				if tg := pk.Var(al[1]); tg != nil {
					p = m.global(tg)
					m.globals[g] = p
					return p
				}
			}
		}
		p = newCell(zero(g.Type().(*types.Pointer).Elem()))
		m.globals[g] = p
		if f, ok := globalInits[g.String()]; ok {
			*p = f(m)
		} else if !m.eng.initAllowed(g.Pkg.Pkg.Path()) && m.eng.hasInit(g) {
			*p = badGlobal{g.String()}
		}
	}
	return p
}

type badGlobal struct{ name string }

// target resolution for a call instruction.
func (m *Machine) resolve(fr *Frame, x *inst, cc *ssa.CallCommon) target {
	args := make([]Value, 0, len(x.ops)+1)
	if cc.IsInvoke() {
		iv := m.get(fr, &x.a[0])
		i, ok := iv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", iv)))
		}
		if i.t == nil {
			panic(m.rtErr("invalid memory address or nil pointer dereference"))
		}
		fn := m.method(i.t, cc.Method)
		args = append(args, i.v)
		for k := range x.ops {
			args = append(args, m.get(fr, &x.ops[k]))
		}
		return target{code: m.code(fn), args: args, call: cc}
	}
	for k := range x.ops {
		args = append(args, m.get(fr, &x.ops[k]))
	}
	switch f := x.x.(type) {
	case *ssa.Function:
		return target{code: m.code(f), args: args, call: cc}
	case *ssa.Builtin:
		return target{bi: f, args: args, call: cc}
	}
	cv := m.get(fr, &x.a[0])
	cl, ok := cv.(*Closure)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", cv)))
	}
	if cl == nil {
		return target{args: args, call: cc}
	}
	if cl.nat != nil {
		return target{nat: cl.nat, args: args, call: cc}
	}
	return target{code: m.code(cl.fn), env: cl.env, args: args, call: cc}
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Name(), meth.Pkg()}
	if meth.Exported() {
		k.pkg = nil
	}
	if f, ok := m.meth[k]; ok {
		return f
	}
	m.eng.mu.Lock()
	f := m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.eng.mu.Unlock()
	if f == nil {
		panic(unsupported(fmt.Sprintf("method %s of %s", meth.Name(), t)))
	}
	m.meth[k] = f
	return f
}

func (m *Machine) jump(fr *Frame, succ int) {
	blk := fr.code.ins[fr.pc].in.Block()
	to := blk.Succs[succ]
	pi := -1
	for i, p := range to.Preds {
		if p == blk {
			pi = i
			// an If whose two edges go to the same block
			if len(blk.Succs) == 2 && blk.Succs[0] == blk.Succs[1] && succ == 1 {
				continue
			}
			break
		}
	}
	pc := fr.code.start[to.Index]
	// evaluate phis in parallel
	n := 0
	for {
		if _, ok := fr.code.ins[pc+n].in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	if n == 1 {
		x := &fr.code.ins[pc]
		fr.regs[x.dst] = m.get(fr, &x.ops[pi])
	} else if n > 1 {
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = m.get(fr, &fr.code.ins[pc+i].ops[pi])
		}
		for i := 0; i < n; i++ {
			fr.regs[fr.code.ins[pc+i].dst] = tmp[i]
		}
	}
	fr.pc = pc + n
}

func (m *Machine) step(t *Thread) {
	fr := t.frames[len(t.frames)-1]
	x := &fr.code.ins[fr.pc]
	switch in := x.in.(type) {
	case *ssa.BinOp:
		m.setReg(t, x.dst, m.binop(in.Op, in.X.Type(), in.Y.Type(), m.get(fr, &x.a[0]), m.get(fr, &x.a[1])))
	case *ssa.UnOp:
		m.stepUnOp(t, fr, x, in)
	case *ssa.If:
		c := m.get(fr, &x.a[0]).(*Expr)
		b := m.branch(c)
		fr = m.own(t)
		if b {
			m.jump(fr, 0)
		} else {
			m.jump(fr, 1)
		}
	case *ssa.Jump:
		m.jump(m.own(t), 0)
	case *ssa.Phi:
		panic("phi")
	case *ssa.Call:
		tg := m.resolve(fr, x, &in.Call)
		m.stepCall(t, x, &tg)
	case *ssa.FieldAddr:
		p := m.get(fr, &x.a[0])
		m.setReg(t, x.dst, m.fieldAddr(p, in.Field))
	case *ssa.Store:
		m.store(m.get(fr, &x.a[0]), m.get(fr, &x.a[1]))
		m.own(t).pc++
	case *ssa.IndexAddr:
		m.setReg(t, x.dst, m.indexAddr(m.get(fr, &x.a[0]), m.get(fr, &x.a[1]).(*Expr), in.Index.Type()))
	case *ssa.Index:
		m.setReg(t, x.dst, m.index(m.get(fr, &x.a[0]), m.get(fr, &x.a[1]).(*Expr), in.Index.Type()))
	case *ssa.Lookup:
		m.setReg(t, x.dst, m.lookup(in, m.get(fr, &x.a[0]), m.get(fr, &x.a[1])))
	case *ssa.Slice:
		m.setReg(t, x.dst, m.slice(in, m.get(fr, &x.a[0]), m.optInt(fr, in.Low, &x.ops[0]), m.optInt(fr, in.High, &x.ops[1]), m.optInt(fr, in.Max, &x.ops[2])))
	case *ssa.Alloc:
		m.setReg(t, x.dst, newCell(zero(in.Type().(*types.Pointer).Elem())))
	case *ssa.MakeInterface:
		m.setReg(t, x.dst, Iface{t: in.X.Type(), v: m.get(fr, &x.a[0])})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		m.setReg(t, x.dst, m.get(fr, &x.a[0]))
	case *ssa.Convert:
		m.setReg(t, x.dst, m.convert(in.X.Type(), in.Type(), m.get(fr, &x.a[0])))
	case *ssa.MultiConvert:
		m.setReg(t, x.dst, m.convert(in.X.Type(), in.Type(), m.get(fr, &x.a[0])))
	case *ssa.Extract:
		m.setReg(t, x.dst, m.get(fr, &x.a[0]).(Tuple)[in.Index])
	case *ssa.Return:
		res := make(Tuple, len(x.ops))
		for i := range x.ops {
			res[i] = m.get(fr, &x.ops[i])
		}
		m.doReturn(t, res)
	case *ssa.RunDefers:
		if fr.defers == nil {
			m.own(t).pc++
			return
		}
		fr = m.own(t)
		d := fr.defers
		fr.defers = d.next
		m.invokeTarget(t, &d.t, frDefer)
	case *ssa.Defer:
		tg := m.resolve(fr, x, &in.Call)
		fr = m.own(t)
		fr.defers = &deferRec{tg, fr.defers}
		fr.pc++
	case *ssa.MakeClosure:
		env := make([]Value, len(x.ops))
		for i := range x.ops {
			env[i] = m.get(fr, &x.ops[i])
		}
		m.setReg(t, x.dst, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.MakeSlice:
		n := m.concInt(m.get(fr, &x.a[0]))
		c := m.concInt(m.get(fr, &x.a[1]))
		if n < 0 || n > 1<<24 {
			panic(m.rtErr("makeslice: len out of range"))
		}
		if c < n || c > 1<<24 {
			panic(m.rtErr("makeslice: cap out of range"))
		}
		a := make(Slice, c)
		fillZero(a, under(in.Type()).(*types.Slice).Elem())
		m.setReg(t, x.dst, a[:n])
	case *ssa.MakeMap:
		m.setReg(t, x.dst, &MapObj{})
	case *ssa.MakeChan:
		m.setReg(t, x.dst, &ChanObj{cap: m.concInt(m.get(fr, &x.a[0])), et: under(in.Type()).(*types.Chan).Elem()})
	case *ssa.MapUpdate:
		mo := m.get(fr, &x.a[0]).(*MapObj)
		if mo == nil {
			panic(goPanic{Iface{t: m.eng.runtimeError, v: S("assignment to entry in nil map")}})
		}
		m.mapSet(mo, under(in.Map.Type()).(*types.Map).Key(), m.get(fr, &x.a[1]), m.get(fr, &x.a[2]))
		m.own(t).pc++
	case *ssa.Field:
		m.setReg(t, x.dst, m.get(fr, &x.a[0]).(Struct)[in.Field])
	case *ssa.TypeAssert:
		m.setReg(t, x.dst, m.typeAssert(in, m.get(fr, &x.a[0])))
	case *ssa.Range:
		switch v := m.get(fr, &x.a[0]).(type) {
		case Str:
			m.setReg(t, x.dst, &iterStr{s: v, pos: Const(64, 0)})
		case *MapObj:
			it := &iterMap{m: v, pos: Const(64, 0)}
			if v != nil {
				if m.race != nil {
					m.raceMap(v, false)
				}
				for _, e := range v.ents {
					it.ks = append(it.ks, e.k)
				}
				if len(it.ks) > 1 && m.opts["mapRev"] != 0 {
					// Go's map iteration order is arbitrary: explore first-to-last and last-to-first
					if m.choose(2) == 1 {
						for i, j := 0, len(it.ks)-1; i < j; i, j = i+1, j-1 {
							it.ks[i], it.ks[j] = it.ks[j], it.ks[i]
						}
					}
				}
			}
			m.setReg(t, x.dst, it)
		default:
			panic(unsupported(fmt.Sprintf("range over %T", v)))
		}
	case *ssa.Next:
		m.setReg(t, x.dst, m.next(in, m.get(fr, &x.a[0])))
	case *ssa.Panic:
		v := m.get(fr, &x.a[0])
		panic(goPanic{v})
	case *ssa.Go:
		tg := m.resolve(fr, x, &in.Call)
		m.spawn(t, &tg)
	case *ssa.Send:
		m.chanSend(t, m.get(fr, &x.a[0]).(*ChanObj), m.get(fr, &x.a[1]))
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, &x.a[0]).(Slice)
		n := int(under(in.Type().(*types.Pointer).Elem()).(*types.Array).Len())
		if len(s) < n {
			panic(m.rtErr("cannot convert slice to array pointer"))
		}
		m.setReg(t, x.dst, newCell(Array(s[:n:n])))
	default:
		if u, ok := x.x.(unsupportedErr); ok {
			panic(u)
		}
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (m *Machine) stepCall(t *Thread, x *inst, tg *target) {
	switch {
	case tg.bi != nil:
		r := m.builtin(t, tg.bi, tg.args, tg.call)
		m.setReg(t, x.dst, r)
	case tg.nat != nil:
		r := tg.nat(m, tg.args)
		m.setReg(t, x.dst, r)
	case tg.code == nil:
		panic(m.rtErr("invalid memory address or nil pointer dereference"))
	case tg.code.intrin != nil:
		r := tg.code.intrin(m, t, tg.args)
		switch r.(type) {
		case pushed, noAdvance:
			return
		case callBody:
			m.own(t)
			m.pushFrame(t, m.ownBody(tg.code), tg.env, tg.args, frCall)
			return
		}
		m.setReg(t, x.dst, r)
	default:
		if tg.code.fn.Blocks == nil {
			panic(unsupported("no body: " + tg.code.fn.String()))
		}
		m.own(t)
		m.pushFrame(t, tg.code, tg.env, tg.args, frCall)
	}
}

// noAdvance is returned by an intrinsic that leaves the program counter alone (blocked, or it moved it itself).
type noAdvance struct{}

func (m *Machine) stepUnOp(t *Thread, fr *Frame, x *inst, in *ssa.UnOp) {
	v := m.get(fr, &x.a[0])
	switch in.Op {
	case token.MUL:
		r := m.load(v)
		if b, ok := r.(badGlobal); ok {
			panic(unsupported("global " + b.name + " of a package that is not initialised"))
		}
		m.setReg(t, x.dst, r)
	case token.NOT:
		m.setReg(t, x.dst, m.ctx.Not(v.(*Expr)))
	case token.SUB:
		switch v := v.(type) {
		case *Expr:
			m.setReg(t, x.dst, m.ctx.Bin(OpSub, Const(v.w, 0), v))
		case Float:
			m.setReg(t, x.dst, m.floatBin(token.MUL, v, mkFloat(-1), in.Type()))
		default:
			panic(unsupported("negation"))
		}
	case token.XOR:
		e := v.(*Expr)
		m.setReg(t, x.dst, m.ctx.Bin(OpBXor, e, Const(e.w, ^uint64(0))))
	case token.ARROW:
		m.chanRecv(t, x, v.(*ChanObj), in.CommaOk)
	default:
		panic(unsupported("unary " + in.Op.String()))
	}
}

func (m *Machine) fieldAddr(p Value, f int) Value {
	pp, ok := p.(*Value)
	if !ok {
		if sp, ok := p.(*SymPtr); ok {
			i := m.concretize(sp.idx)
			return m.fieldAddr(&sp.cells[i], f)
		}
		panic(unsupported(fmt.Sprintf("field of %T", p)))
	}
	if pp == nil {
		panic(m.rtErr("invalid memory address or nil pointer dereference"))
	}
	s, ok := (*pp).(Struct)
	if !ok {
		panic(unsupported(fmt.Sprintf("field of cell holding %T", *pp)))
	}
	return &s[f]
}

func (m *Machine) optInt(fr *Frame, v ssa.Value, o *operand) int {
	if v == nil {
		return -1 << 60
	}
	e := m.get(fr, o).(*Expr)
	c := m.concretize(e)
	w, sgn := intInfo(v.Type())
	if sgn {
		n := int(signed(c, w))
		if n < 0 {
			return -1
		}
		return n
	}
	if c > 1<<50 {
		return 1 << 50
	}
	return int(c)
}
