package main

import "fmt"

// Threads are switched at lock acquisitions, joins and thread ends. Accesses to shared memory in between are
// checked for data races by vector clocks, so that finer switching adds nothing for race-free executions.

type vclock []int

func (v *vclock) at(i int) int {
	if i < len(*v) {
		return (*v)[i]
	}
	return 0
}

func (v *vclock) put(i, x int) {
	n := append(vclock(nil), *v...)
	for len(n) <= i {
		n = append(n, 0)
	}
	n[i] = x
	*v = n
}

func (v *vclock) join(o vclock) {
	n := append(vclock(nil), *v...)
	for i, x := range o {
		for len(n) <= i {
			n = append(n, 0)
		}
		if x > n[i] {
			n[i] = x
		}
	}
	*v = n
}

type raceState struct {
	cells map[any]*raceInfo
}

type raceInfo struct {
	wt, wc int // last write: thread, clock
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

func (m *Machine) raceAccess(p *Value, write bool) { m.raceOn(p, write) }
func (m *Machine) raceMap(o *MapObj, write bool)   { m.raceOn(o, write) }

func (m *Machine) raceOn(k any, write bool) {
	if len(m.threads) < 2 {
		return
	}
	t := m.threads[m.cur]
	if p := t.frames[len(t.frames)-1].code.fn.Pkg; p != nil && p.Pkg.Path() == "verif/models" {
		// the models stand for code that is safe by itself
		return
	}
	old := m.race.cells[k]
	me := t.vc.at(t.id)
	if old != nil {
		if old.wt >= 0 && old.wt != t.id && t.vc.at(old.wt) < old.wc {
			panic(pathEnd{endViolation, fmt.Sprintf("data race: %s after write by another goroutine (%s | %s)", rw(write), m.where(), old.wpos)})
		}
		if write {
			for u, c := range old.reads {
				if u != t.id && t.vc.at(u) < c {
					panic(pathEnd{endViolation, fmt.Sprintf("data race: write after read by another goroutine (%s | %s)", m.where(), old.rpos[u])})
				}
			}
		}
		if write && old.wt == t.id && old.wc == me && len(old.reads) == 0 {
			return
		}
		if !write && old.reads[t.id] == me {
			return
		}
	}
	n := &raceInfo{wt: -1}
	if write {
		n.wt, n.wc, n.wpos = t.id, me, m.where()
	} else {
		if old != nil {
			n.wt, n.wc, n.wpos = old.wt, old.wc, old.wpos
		}
		n.reads = map[int]int{t.id: me}
		n.rpos = map[int]string{t.id: m.where()}
		if old != nil {
			for u, c := range old.reads {
				if u != t.id {
					n.reads[u] = c
					n.rpos[u] = old.rpos[u]
				}
			}
		}
	}
	rs := m.race
	rs.cells[k] = n
	m.undo(func() {
		if old == nil {
			delete(rs.cells, k)
		} else {
			rs.cells[k] = old
		}
	})
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

// ---------- scheduling ----------

func (m *Machine) runnable(t *Thread) bool {
	if t.done {
		return false
	}
	if t.blocked != nil {
		return t.blocked(m)
	}
	return true
}

func (m *Machine) needSwitch(t *Thread) bool {
	return !m.runnable(t)
}

func (m *Machine) others() []int {
	var r []int
	for i, t := range m.threads {
		if i != m.cur && m.runnable(t) {
			r = append(r, i)
		}
	}
	return r
}

// schedule picks the next thread when the current one cannot go on.
func (m *Machine) schedule() {
	r := m.others()
	if len(r) == 0 {
		why := ""
		for _, t := range m.threads {
			if !t.done {
				why += fmt.Sprintf(" thread %d: %s;", t.id, t.why)
			}
		}
		panic(pathEnd{endViolation, "deadlock:" + why})
	}
	k := m.choose(len(r))
	if len(r) > 1 {
		m.inputs = append(m.inputs, input{kind: 's', val: uint64(k)})
	}
	m.cur = r[k]
	m.threads[m.cur].blocked = nil
}

// yieldPoint offers a switch before a lock acquisition; it reports true when another thread was chosen.
func (m *Machine) yieldPoint(t *Thread) bool {
	if len(m.threads) < 2 {
		return false
	}
	if t.yielded {
		t.yielded = false
		return false
	}
	r := m.others()
	left := int((*m.preLeft).(*Expr).val)
	if len(r) == 0 || left == 0 {
		return false
	}
	k := m.choose(len(r) + 1)
	m.inputs = append(m.inputs, input{kind: 's', val: uint64(k)})
	if k == 0 {
		return false
	}
	m.set(m.preLeft, Const(64, uint64(left-1)))
	t = m.threads[m.cur]
	t.yielded = true
	m.cur = r[k-1]
	m.threads[m.cur].blocked = nil
	return true
}

func (m *Machine) startRace() {
	if m.race == nil {
		m.race = &raceState{cells: map[any]*raceInfo{}}
		m.undo(func() { m.race = nil })
	}
}

func (m *Machine) spawn(t *Thread, tg *target) {
	nt := m.newThread(t, tg)
	_ = nt
	m.own(t).pc++
}

func (m *Machine) newThread(t *Thread, tg *target) *Thread {
	m.startRace()
	nt := &Thread{id: len(m.threads)}
	nt.vc.join(t.vc)
	nt.vc.put(nt.id, 1)
	t.vc.put(t.id, t.vc.at(t.id)+1)
	if tg.code == nil || tg.code.intrin != nil || tg.code.fn.Blocks == nil {
		panic(unsupported("go statement on a function without a body"))
	}
	m.threads = append(m.threads[:len(m.threads):len(m.threads)], nt)
	m.pushFrame(nt, tg.code, tg.env, tg.args, frRoot)
	return nt
}

func (m *Machine) threadDone(t *Thread) {
	if t.id == 0 {
		panic(pathEnd{endDone, ""})
	}
	t.vc.put(t.id, t.vc.at(t.id)+1)
}

// par runs closures concurrently and waits for all of them.
func par(m *Machine, t *Thread, args []Value) Value {
	if t.par == 0 {
		fs := args[0].(Slice)
		if len(fs) == 0 {
			return nil
		}
		first := len(m.threads)
		m.set(m.preLeft, Const(64, uint64(m.optDef("preempt", 3))))
		for _, f := range fs {
			cl := f.(*Closure)
			m.newThread(t, &target{code: m.code(cl.fn), env: cl.env})
		}
		t.par = first
		t.why = "waiting for goroutines"
		t.blocked = func(m *Machine) bool {
			for _, u := range m.threads[first:] {
				if !u.done {
					return false
				}
			}
			return true
		}
		return noAdvance{}
	}
	for _, u := range m.threads[t.par:] {
		t.vc.join(u.vc)
	}
	t.par = 0
	// single-threaded again: forget the finished threads
	m.threads = m.threads[:1:1]
	old := m.race
	m.undo(func() { m.race = old })
	m.race = nil
	return nil
}

func (m *Machine) optDef(name string, def int) int {
	if v, ok := m.opts[name]; ok {
		return v
	}
	return def
}

// ---------- locks ----------

type lockState struct {
	writer  int // thread id+1, 0 when free
	readers []int
	waitW   []int
	wvc     vclock // released by writers
	rvc     vclock // released by readers
}

func (m *Machine) lock(p *Value) *lockState {
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
	}
	return l
}

func (m *Machine) setLock(p *Value, n lockState) {
	old := m.locks[p]
	m.locks[p] = &n
	m.undo(func() {
		if old == nil {
			delete(m.locks, p)
		} else {
			m.locks[p] = old
		}
	})
}

func without(a []int, x int) []int {
	var r []int
	gone := false
	for _, y := range a {
		if y == x && !gone {
			gone = true
			continue
		}
		r = append(r, y)
	}
	return r
}

func has(a []int, x int) bool {
	for _, y := range a {
		if y == x {
			return true
		}
	}
	return false
}

func lockPtr(m *Machine, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(unsupported("lock through a symbolic pointer"))
	}
	if p == nil {
		panic(m.rtErr("invalid memory address or nil pointer dereference"))
	}
	return p
}

func canLock(m *Machine, p *Value) bool {
	l := m.lock(p)
	return l.writer == 0 && len(l.readers) == 0
}

func canRLock(m *Machine, p *Value, id int) bool {
	l := m.lock(p)
	return l.writer == 0 && len(without(l.waitW, id)) == 0
}

func doLock(m *Machine, t *Thread, args []Value) Value {
	p := lockPtr(m, args[0])
	if m.yieldPoint(t) {
		return noAdvance{}
	}
	l := *m.lock(p)
	if !canLock(m, p) {
		if len(m.threads) < 2 {
			panic(pathEnd{endViolation, "deadlock: Lock of a held mutex in " + m.where()})
		}
		if !has(l.waitW, t.id) {
			l.waitW = append(l.waitW[:len(l.waitW):len(l.waitW)], t.id)
			m.setLock(p, l)
		}
		t.why = "Lock in " + m.where()
		t.blocked = func(m *Machine) bool { return canLock(m, p) }
		t.yielded = true
		return noAdvance{}
	}
	l.waitW = without(l.waitW, t.id)
	l.writer = t.id + 1
	t.vc.join(l.wvc)
	t.vc.join(l.rvc)
	m.setLock(p, l)
	return nil
}

func doUnlock(m *Machine, t *Thread, args []Value) Value {
	p := lockPtr(m, args[0])
	l := *m.lock(p)
	if l.writer == 0 {
		panic(pathEnd{endViolation, "fatal error: unlock of unlocked mutex in " + m.where()})
	}
	l.writer = 0
	l.wvc = append(vclock(nil), t.vc...)
	t.vc.put(t.id, t.vc.at(t.id)+1)
	m.setLock(p, l)
	return nil
}

func doRLock(m *Machine, t *Thread, args []Value) Value {
	p := lockPtr(m, args[0])
	if m.yieldPoint(t) {
		return noAdvance{}
	}
	l := *m.lock(p)
	if !canRLock(m, p, t.id) {
		if len(m.threads) < 2 {
			panic(pathEnd{endViolation, "deadlock: RLock of a locked mutex in " + m.where()})
		}
		t.why = "RLock in " + m.where()
		id := t.id
		t.blocked = func(m *Machine) bool { return canRLock(m, p, id) }
		t.yielded = true
		return noAdvance{}
	}
	l.readers = append(l.readers[:len(l.readers):len(l.readers)], t.id)
	t.vc.join(l.wvc)
	m.setLock(p, l)
	return nil
}

func doRUnlock(m *Machine, t *Thread, args []Value) Value {
	p := lockPtr(m, args[0])
	l := *m.lock(p)
	if len(l.readers) == 0 {
		panic(pathEnd{endViolation, "fatal error: RUnlock of unlocked RWMutex in " + m.where()})
	}
	if has(l.readers, t.id) {
		l.readers = without(l.readers, t.id)
	} else {
		l.readers = l.readers[1:]
	}
	l.rvc = append(vclock(nil), l.rvc...)
	l.rvc.join(t.vc)
	t.vc.put(t.id, t.vc.at(t.id)+1)
	m.setLock(p, l)
	return nil
}

func doTryLock(m *Machine, t *Thread, args []Value) Value {
	p := lockPtr(m, args[0])
	if !canLock(m, p) {
		return eFalse
	}
	l := *m.lock(p)
	l.writer = t.id + 1
	t.vc.join(l.wvc)
	t.vc.join(l.rvc)
	m.setLock(p, l)
	return eTrue
}

func doTryRLock(m *Machine, t *Thread, args []Value) Value {
	p := lockPtr(m, args[0])
	if !canRLock(m, p, t.id) {
		return eFalse
	}
	l := *m.lock(p)
	l.readers = append(l.readers[:len(l.readers):len(l.readers)], t.id)
	t.vc.join(l.wvc)
	m.setLock(p, l)
	return eTrue
}

// atomicSync orders accesses to an atomic cell.
func (m *Machine) atomicSync(t *Thread, p *Value) {
	if len(m.threads) < 2 {
		return
	}
	l := *m.lock(p)
	t.vc.join(l.wvc)
	l.wvc = append(vclock(nil), t.vc...)
	t.vc.put(t.id, t.vc.at(t.id)+1)
	m.setLock(p, l)
}

func (m *Machine) chanSend(t *Thread, c *ChanObj, v Value) { panic(unsupported("channel send")) }
func (m *Machine) chanRecv(t *Thread, x *inst, c *ChanObj, ok bool) {
	panic(unsupported("channel receive"))
}
