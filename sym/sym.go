// Package sym is the interface between harnesses and the checker. The symbolic executor intercepts these
// functions; the bodies here replay one concrete run natively.
package sym

import (
	"fmt"
	"math"
	"os"
	"strings"
	"sync"
)

// Run is one native execution of a harness.
type Run struct {
	In      []uint64
	Sched   []uint64
	Opts    map[string]int
	pos     int
	Obs     []byte
	Reached []string
	dir     string
	Over    bool
}

// Cur is the run in progress.
var Cur = &Run{}

// End is the panic value that ends a run.
type End struct{ Kind, Msg string }

func next() uint64 {
	if Cur.pos >= len(Cur.In) {
		Cur.Over = true
		return 0
	}
	v := Cur.In[Cur.pos]
	Cur.pos++
	return v
}

func Byte() byte       { return byte(next()) }
func U16() uint16      { return uint16(next()) }
func U32() uint32      { return uint32(next()) }
func U64() uint64      { return next() }
func I64() int64       { return int64(next()) }
func Int() int         { return int(next()) }
func Float64() float64 { return math.Float64frombits(next()) }

// Bool is an arbitrary boolean.
func Bool() bool { return next() == 1 }

// ByteIn is an arbitrary byte of set.
func ByteIn(set string) byte { return byte(next()) }

// Str is an arbitrary string of exactly n bytes.
func Str(n int) string { return string(Bytes(n)) }

// Bytes is an arbitrary byte slice of length n.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// StrIn is an arbitrary string of n bytes of set.
func StrIn(n int, set string) string { return string(Bytes(n)) }

// Choose explores 0..n-1 one by one.
func Choose(n int) int { return int(next()) }

// Param is a bound set by the case being checked.
func Param(name string, def int) int {
	if v, ok := Cur.Opts[name]; ok {
		return v
	}
	return def
}

func Assume(c bool) {
	if !c {
		panic(End{"assume", ""})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(End{"fail", msg})
	}
}

func Fail(msg string) { panic(End{"fail", msg}) }

// Stop ends the path quietly.
func Stop() { panic(End{"assume", ""}) }

// Known ends the run as the known finding id when c holds.
func Known(id string, c bool) {
	if c {
		panic(End{"known", id})
	}
}

func Reach(label string) { Cur.Reached = append(Cur.Reached, label) }

func Observe(s string)  { Cur.Obs = append(append(Cur.Obs, s...), 0) }
func ObserveInt(n int)  { Cur.Obs = append(Cur.Obs, fmt.Sprintf("%d\x00", n)...) }
func Symbolic() bool    { return false }
func Split(c bool) bool { return c }

// And, Or, Implies and Ite combine conditions without forking.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Ite(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// IsIn tells whether b is in set, without forking.
func IsIn(b byte, set string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == b {
			return true
		}
	}
	return false
}

// Dir is an empty scratch directory.
func Dir() string {
	if Cur.dir == "" {
		d, err := os.MkdirTemp("", "verif-replay-")
		if err != nil {
			panic(err)
		}
		Cur.dir = d
	}
	return Cur.dir
}

// OpenFiles is the number of files the program holds open.
func OpenFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	n := 0
	for _, e := range d {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && Cur.dir != "" && strings.HasPrefix(t, Cur.dir+"/") {
			n++
		}
	}
	return n
}

// Clean removes the scratch directory of the run.
func (r *Run) Clean() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
		r.dir = ""
	}
}

// ParHook, when set, runs the functions of Par under a controlled schedule.
var ParHook func(fs []func())

// Par runs the functions concurrently and waits for all.
func Par(fs ...func()) {
	if ParHook != nil {
		ParHook(fs)
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first any
	start := make(chan struct{})
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if first == nil {
						first = r
					}
					mu.Unlock()
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	if first != nil {
		panic(first)
	}
}
