// Package vsync stands in for sync in the code under test when a schedule is to be replayed exactly: one
// goroutine runs at a time, and they are switched where and as the symbolic executor switched them.
package vsync

import (
	"fmt"
	"sync"

	"verif/sym"
)

type (
	Locker    = sync.Locker
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
)

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool
	yielded bool
	why     string
}

var (
	threads []*thread // 0 is the one that waits for the others
	cur     int
	preLeft int
	failure any
	pos     int
	posRun  *sym.Run
)

func choice(n int) int {
	if posRun != sym.Cur {
		posRun, pos = sym.Cur, 0
	}
	if pos >= len(sym.Cur.Sched) {
		return 0
	}
	k := int(sym.Cur.Sched[pos])
	pos++
	if k >= n {
		sym.Cur.Over = true
		return 0
	}
	return k
}

func others() []int {
	var r []int
	for i, t := range threads {
		if i != cur && !t.done && (t.blocked == nil || t.blocked()) {
			r = append(r, i)
		}
	}
	return r
}

// pass hands the turn to thread i; the caller waits for its own turn unless it has ended.
func pass(i int) {
	me := threads[cur]
	cur = i
	threads[i].blocked = nil
	threads[i].wake <- struct{}{}
	if !me.done {
		<-me.wake
	}
}

// away gives up the turn because the current thread cannot go on.
func away() {
	if failure == nil {
		r := others()
		if len(r) > 0 {
			k := 0
			if len(r) > 1 {
				k = choice(len(r))
			}
			pass(r[k])
			return
		}
		msg := "deadlock:"
		for _, t := range threads {
			if !t.done {
				msg += fmt.Sprintf(" goroutine %d: %s;", t.id, t.why)
			}
		}
		failure = sym.End{Kind: "fail", Msg: msg}
	}
	// The run is over; whoever else waits is left behind.
	if cur != 0 {
		pass(0)
	}
}

func yield() {
	r := others()
	if len(r) == 0 || preLeft == 0 {
		return
	}
	k := choice(len(r) + 1)
	if k == 0 {
		return
	}
	preLeft--
	pass(r[k-1])
}

func par(fs []func()) {
	main := &thread{wake: make(chan struct{}, 1), why: "waiting for goroutines"}
	threads, cur, failure = []*thread{main}, 0, nil
	preLeft = sym.Param("preempt", 3)
	for i, f := range fs {
		t := &thread{id: i + 1, wake: make(chan struct{}, 1)}
		threads = append(threads, t)
		go func() {
			<-t.wake
			defer func() {
				if r := recover(); r != nil && failure == nil {
					failure = r
				}
				t.done = true
				away()
			}()
			f()
		}()
	}
	main.blocked = func() bool {
		for _, t := range threads[1:] {
			if !t.done {
				return false
			}
		}
		return true
	}
	away()
	threads = nil
	if failure != nil {
		panic(failure)
	}
}

func init() { sym.ParHook = par }

// RWMutex has the behaviour of sync.RWMutex, waiting writers keeping new readers out.
type RWMutex struct {
	writer  bool
	readers int
	waiting []*thread
}

func (l *RWMutex) others(t *thread) bool {
	for _, w := range l.waiting {
		if w != t {
			return true
		}
	}
	return false
}

func (l *RWMutex) gone(t *thread) {
	for i, w := range l.waiting {
		if w == t {
			l.waiting = append(l.waiting[:i:i], l.waiting[i+1:]...)
			return
		}
	}
}

func stuck(what string) { panic(sym.End{Kind: "fail", Msg: "deadlock: " + what}) }

func (l *RWMutex) Lock() {
	can := func() bool { return !l.writer && l.readers == 0 }
	if threads == nil {
		if !can() {
			stuck("Lock of a held mutex")
		}
		l.writer = true
		return
	}
	t := threads[cur]
	yield()
	if !can() {
		l.waiting = append(l.waiting, t)
		t.why = "Lock"
		t.blocked = can
		away()
		l.gone(t)
	}
	l.writer = true
}

func (l *RWMutex) Unlock() {
	if !l.writer {
		panic(sym.End{Kind: "fail", Msg: "fatal error: unlock of unlocked mutex"})
	}
	l.writer = false
}

func (l *RWMutex) RLock() {
	if threads == nil {
		if l.writer {
			stuck("RLock of a locked mutex")
		}
		l.readers++
		return
	}
	t := threads[cur]
	can := func() bool { return !l.writer && !l.others(t) }
	yield()
	if !can() {
		t.why = "RLock"
		t.blocked = can
		away()
	}
	l.readers++
}

func (l *RWMutex) RUnlock() {
	if l.readers == 0 {
		panic(sym.End{Kind: "fail", Msg: "fatal error: RUnlock of unlocked RWMutex"})
	}
	l.readers--
}

func (l *RWMutex) TryLock() bool {
	if l.writer || l.readers > 0 {
		return false
	}
	l.writer = true
	return true
}

func (l *RWMutex) TryRLock() bool {
	if l.writer || len(l.waiting) > 0 {
		return false
	}
	l.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the reading side as a Locker.
func (l *RWMutex) RLocker() Locker { return (*rlocker)(l) }

// Mutex is an RWMutex without readers.
type Mutex struct{ l RWMutex }

func (m *Mutex) Lock()         { m.l.Lock() }
func (m *Mutex) Unlock()       { m.l.Unlock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }
