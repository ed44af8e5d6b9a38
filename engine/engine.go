package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const iniPkg = "github.com/go-ini/ini"

// Engine holds what all machines share.
type Engine struct {
	prog          *ssa.Program
	harness       *ssa.Package
	models        map[string]*ssa.Function
	addrMu        sync.Mutex
	addrs         map[*ssa.Function]uint64
	verbose       bool
	stopFlag      atomic.Bool
	mu            sync.Mutex
	solverTimeout int

	runtimeError                      types.Type
	errorString                       types.Type
	numError                          types.Type
	rtypePtr                          types.Type
	structFieldT                      types.Type
	strconvErrSyntax, strconvErrRange *ssa.Global
	inited                            map[*ssa.Global]bool
	cases                             []*Case
	reach                             map[string][]string // harness -> labels that must be reached
}

// Stats are one worker's counters.
type Stats struct {
	Steps, Forks, DomainChecks, CacheHits, UnknownBranches int
	Obligations, OblFailed, OblUnknown                     int
	Asserts, AssertsConst                                  int
	QuickModels                                            int
	pend                                                   []pendObl
}

// Case is one harness with its bounds.
type Case struct {
	Prop    string
	Harness string
	Tier    string
	Opts    map[string]int
	fn      *ssa.Function
	Time    int
}

func (c *Case) Name() string {
	var ks []string
	for k, v := range c.Opts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return c.Harness + "(" + strings.Join(ks, ",") + ")"
}

var initPkgs = map[string]bool{"errors": true, "io": true, "io/fs": true, "bytes": true, "strings": true, "bufio": true,
	"unicode": true, "unicode/utf8": true, "strconv": true, "math": true, "math/bits": true, "sort": true, "slices": true,
	"internal/oserror": true, "time": true, "iter": true, "cmp": true, "maps": true, "internal/bytealg": false,
	"container/list": true, "internal/stringslite": true, "internal/strconv": true, "unicode/utf16": true,
	iniPkg: true, "verif/harness": true, "verif/models": true, symPkg: true, "io/ioutil": true, "internal/itoa": true,
	"path/filepath": true, "path": true, "internal/filepathlite": true}

func (e *Engine) initAllowed(p string) bool { return initPkgs[p] || strings.HasPrefix(p, iniPkg) }

// codeAddr is where the code of a function would be.
func (e *Engine) codeAddr(fn *ssa.Function) uint64 {
	e.addrMu.Lock()
	defer e.addrMu.Unlock()
	if e.addrs == nil {
		e.addrs = map[*ssa.Function]uint64{}
	}
	if e.addrs[fn] == 0 {
		e.addrs[fn] = 0x400000 + 16*uint64(len(e.addrs))
	}
	return e.addrs[fn]
}

func (e *Engine) hasInit(g *ssa.Global) bool { return e.inited[g] }

var modelTable = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Errorf": "Errorf",
	"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln", "fmt.Printf": "Printf",
	"fmt.Print": "Print", "fmt.Println": "Println", "fmt.Appendf": "Appendf",
	"errors.Is": "Is", "(*sync.Pool).Get": "PoolGet", "(*sync.Pool).Put": "PoolPut", "(*sync.Once).Do": "OnceDo",
	"(*sync.Map).Load": "MapLoad", "(*sync.Map).Store": "MapStore", "(*sync.Map).Swap": "MapSwap", "(*sync.Map).LoadOrStore": "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete": "MapLoadAndDelete", "(*sync.Map).Delete": "MapDelete", "(*sync.Map).CompareAndSwap": "MapCompareAndSwap",
	"(*sync.Map).CompareAndDelete": "MapCompareAndDelete", "(*sync.Map).Clear": "MapClear", "(*sync.Map).Range": "MapRange",
	"(*sync/atomic.Value).Load": "ValueLoad", "(*sync/atomic.Value).Store": "ValueStore", "(*sync/atomic.Value).Swap": "ValueSwap",
	"(*sync/atomic.Value).CompareAndSwap": "ValueCompareAndSwap",
	"verif/sym.OpenFiles":                 "OpenFiles", "os.OpenFile": "OpenFile", "os.Open": "Open", "os.Create": "Create", "(*os.File).Read": "FileRead",
	"(*os.File).Write": "FileWrite", "(*os.File).WriteString": "FileWriteString", "(*os.File).Close": "FileClose",
	"(*os.File).Sync": "FileSync", "(*os.File).Name": "FileName", "(*os.File).Truncate": "FileTruncate",
	"(*os.File).Stat": "FileStat", "os.ReadFile": "ReadFile", "os.WriteFile": "WriteFile", "os.Stat": "Stat", "os.Lstat": "Stat",
	"os.Remove": "Remove", "os.Rename": "Rename", "os.MkdirAll": "MkdirAll", "os.Mkdir": "Mkdir", "os.CreateTemp": "CreateTemp", "os.Chmod": "Chmod", "(*os.File).Chmod": "FileChmod", "(syscall.Errno).Error": "ErrnoError",
	"os.Getenv": "Getenv", "os.LookupEnv": "LookupEnv",
	"(*regexp.Regexp).ReplaceAllStringFunc":    "ReplaceAllStringFunc",
	"(*regexp.Regexp).ReplaceAllLiteralString": "ReplaceAllLiteralString",
	"(*regexp.Regexp).ReplaceAllString":        "ReplaceAllString",
}

// Load builds the SSA form of the harness and of everything it uses, from the current source.
func Load(dir string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, "verif/harness", "verif/models", "reflect", "errors", "strconv")
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad += e.Error() + "\n"
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("cannot load: %s", bad)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, models: map[string]*ssa.Function{}, solverTimeout: 4000, inited: map[*ssa.Global]bool{}, reach: map[string][]string{}}
	var hp *packages.Package
	for _, p := range pkgs {
		if p.PkgPath == "verif/harness" {
			hp = p
		}
	}
	e.harness = prog.ImportedPackage("verif/harness")
	mp := prog.ImportedPackage("verif/models")
	for k, v := range modelTable {
		f := mp.Func(v)
		if f == nil {
			return nil, fmt.Errorf("no model %s", v)
		}
		e.models[k] = f
	}
	named := func(pkg, name string) types.Type {
		p := prog.ImportedPackage(pkg)
		if p == nil {
			return nil
		}
		t := p.Type(name)
		if t == nil {
			return nil
		}
		return t.Type()
	}
	e.runtimeError = named("runtime", "errorString")
	e.errorString = types.NewPointer(named("errors", "errorString"))
	e.numError = named("strconv", "NumError")
	e.rtypePtr = types.NewPointer(named("reflect", "rtype"))
	e.structFieldT = named("reflect", "StructField")
	sc := prog.ImportedPackage("strconv")
	e.strconvErrSyntax, e.strconvErrRange = sc.Var("ErrSyntax"), sc.Var("ErrRange")
	if e.runtimeError == nil || e.numError == nil || e.structFieldT == nil {
		return nil, fmt.Errorf("library types not found")
	}
	// globals with an initialiser
	for _, p := range prog.AllPackages() {
		f := p.Func("init")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						e.inited[g] = true
					}
				}
			}
		}
	}
	for _, f := range hp.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			if err := e.addCases(fd); err != nil {
				return nil, err
			}
		}
	}
	return e, nil
}

// addCases reads the //sym: directives of a harness.
func (e *Engine) addCases(fd *ast.FuncDecl) error {
	name := fd.Name.Name
	for _, c := range fd.Doc.List {
		if !strings.HasPrefix(c.Text, "//sym:") {
			continue
		}
		w := strings.Fields(strings.TrimPrefix(c.Text, "//sym:"))
		if w[0] == "reach" {
			for _, l := range w[1:] {
				e.reach[name] = append(e.reach[name], strings.ReplaceAll(l, "&", " "))
			}
			continue
		}
		cs := &Case{Prop: name[:3], Harness: name, Tier: w[0], Opts: map[string]int{}, fn: e.harness.Func(name)}
		if cs.Tier != "quick" && cs.Tier != "thorough" && cs.Tier != "both" {
			return fmt.Errorf("%s: bad directive %q", name, c.Text)
		}
		for _, kv := range w[1:] {
			var v int
			k, x, ok := strings.Cut(kv, "=")
			if _, err := fmt.Sscanf(x, "%d", &v); !ok || err != nil {
				return fmt.Errorf("%s: bad directive %q", name, c.Text)
			}
			if k == "time" {
				cs.Time = v
				continue
			}
			cs.Opts[k] = v
		}
		e.cases = append(e.cases, cs)
	}
	return nil
}

// ---------- exploration ----------

type job struct {
	script []decision
	model  []uint64
}

// Leaf is a finished path, with concrete inputs that follow it.
type Leaf struct {
	Kind    endKind
	Msg     string
	In      []uint64
	Sched   []uint64
	Obs     string
	ObsOK   bool
	Reached []string
	Unkn    bool
}

type explorer struct {
	widths   widths
	e        *Engine
	c        *Case
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*job
	idle     int
	workers  int
	over     bool
	hungry   atomic.Bool
	deadline time.Time

	paths                       [8]int // by end kind
	leaves                      []Leaf // sampled finished paths
	seen                        int
	bad                         map[string][]Leaf // unsupported/limit/unknown, by message
	badN                        map[string]int
	viol                        map[string]Leaf
	violOrder                   []string
	known                       map[string]Leaf
	reached                     map[string]int
	funcs                       map[string]bool
	st                          Stats
	queries, qsat, qunsat, qunk int
	qtime, qmax                 time.Duration
	unknPaths                   int
	timedOut                    bool
	sampleMax                   int
	fatal                       string
	onViolation                 func(l Leaf) bool // returns true to stop
}

func (x *explorer) take() *job {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.idle++
	for {
		if x.over {
			return nil
		}
		if n := len(x.queue); n > 0 {
			j := x.queue[0]
			x.queue = x.queue[1:]
			x.idle--
			x.hungry.Store(x.idle > 0 && len(x.queue) == 0)
			return j
		}
		if x.idle == x.workers {
			x.over = true
			x.cond.Broadcast()
			return nil
		}
		x.hungry.Store(true)
		x.cond.Wait()
	}
}

func (x *explorer) give(j *job) {
	x.mu.Lock()
	x.queue = append(x.queue, j)
	x.hungry.Store(x.idle > len(x.queue))
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *explorer) halt() {
	x.mu.Lock()
	x.over = true
	x.mu.Unlock()
	x.e.stopFlag.Store(true)
	x.cond.Broadcast()
}

func (x *explorer) worker(id int) {
	m := NewMachine(x.e)
	m.widths = &x.widths
	m.opts = x.c.Opts
	if v := x.c.Opts["steps"]; v > 0 {
		m.stepLimit = v * 1000
	}
	defer m.solver.Close()
	defer func() {
		if r := recover(); r != nil {
			x.mu.Lock()
			x.fatal = fmt.Sprintf("worker: %v", r)
			x.mu.Unlock()
			x.halt()
			if x.e.verbose {
				panic(r)
			}
		}
	}()
	if err := m.start(x.c.fn); err != "" {
		if x.e.stopFlag.Load() {
			return // stopped by another worker
		}
		x.mu.Lock()
		x.fatal = err
		x.mu.Unlock()
		x.halt()
		return
	}
	for {
		j := x.take()
		if j == nil {
			break
		}
		m.reset(j)
		for {
			end := m.runPath()
			if end.kind == endStop {
				break
			}
			x.finish(m, end)
			if x.e.stopFlag.Load() {
				break
			}
			if time.Now().After(x.deadline) {
				x.mu.Lock()
				x.timedOut = true
				x.mu.Unlock()
				x.halt()
				break
			}
			for x.hungry.Load() {
				d := m.donate()
				if d == nil {
					break
				}
				x.give(d)
			}
			if !m.backtrack() {
				break
			}
		}
		m.choices = nil
	}
	m.flushObl()
	x.mu.Lock()
	defer x.mu.Unlock()
	x.st.Steps += m.st.Steps
	x.st.Forks += m.st.Forks
	x.st.DomainChecks += m.st.DomainChecks
	x.st.CacheHits += m.st.CacheHits
	x.st.UnknownBranches += m.st.UnknownBranches
	x.st.Obligations += m.st.Obligations
	x.st.OblFailed += m.st.OblFailed
	x.st.OblUnknown += m.st.OblUnknown
	x.st.Asserts += m.st.Asserts
	x.st.AssertsConst += m.st.AssertsConst
	x.st.QuickModels += m.st.QuickModels
	x.queries += m.solver.Queries
	x.qsat += m.solver.Sat
	x.qunsat += m.solver.Unsat
	x.qunk += m.solver.Unknown
	x.qtime += m.solver.Time
	if m.solver.MaxTime > x.qmax {
		x.qmax = m.solver.MaxTime
	}
	for f := range m.fnUsed {
		x.funcs[f.String()] = true
	}
}

func (x *explorer) finish(m *Machine, end pathEnd) {
	l := Leaf{Kind: end.kind, Msg: end.msg, Unkn: m.unkn}
	l.In, l.Sched = m.inputValues()
	l.Reached = append([]string(nil), m.reached...)
	if end.kind == endDone && len(m.floats) == 0 {
		l.Obs, l.ObsOK = m.obsText(), true
	}
	x.mu.Lock()
	x.paths[end.kind]++
	if m.unkn {
		x.unknPaths++
	}
	for _, r := range m.reached {
		x.reached[r]++
	}
	stop := false
	switch end.kind {
	case endDone:
		x.seen++
		if len(x.leaves) < x.sampleMax {
			x.leaves = append(x.leaves, l)
		} else {
			// reservoir, deterministic pseudo-random
			k := int(uint64(x.seen)*0x9E3779B97F4A7C15>>33) % x.seen
			if k < x.sampleMax {
				x.leaves[k] = l
			}
		}
	case endUnsupported, endLimit, endUnknown:
		x.badN[end.msg]++
		if len(x.bad[end.msg]) < 5 {
			x.bad[end.msg] = append(x.bad[end.msg], l)
		}
	case endKnown:
		if _, ok := x.known[end.msg]; !ok {
			x.known[end.msg] = l
		}
	case endViolation:
		if _, ok := x.viol[end.msg]; !ok {
			x.viol[end.msg] = l
			x.violOrder = append(x.violOrder, end.msg)
			if x.onViolation != nil {
				stop = x.onViolation(l)
			}
			if len(x.viol) > 25 {
				stop = true
			}
		}
	}
	x.mu.Unlock()
	if stop {
		x.halt()
	}
}

// Explore runs one case to the end of its bounds or its time.
func (e *Engine) Explore(c *Case, workers int, budget time.Duration, onViol func(l Leaf) bool) *explorer {
	x := &explorer{e: e, c: c, workers: workers, deadline: time.Now().Add(budget), bad: map[string][]Leaf{}, badN: map[string]int{},
		viol: map[string]Leaf{}, known: map[string]Leaf{}, reached: map[string]int{}, funcs: map[string]bool{}, sampleMax: 40, onViolation: onViol}
	x.cond = sync.NewCond(&x.mu)
	e.stopFlag.Store(false)
	x.queue = []*job{{}}
	timer := time.AfterFunc(budget+2*time.Second, func() {
		x.mu.Lock()
		if !x.over {
			x.timedOut = true
		}
		x.mu.Unlock()
		x.halt()
	})
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.worker(i)
		}()
	}
	wg.Wait()
	timer.Stop()
	return x
}

// start initialises the packages and prepares the harness call.
func (m *Machine) start(fn *ssa.Function) string {
	run := func(f *ssa.Function) string {
		m.threads = []*Thread{{id: 0}}
		m.cur = 0
		m.pushFrame(m.threads[0], m.code(f), nil, nil, frRoot)
		end := m.runPath()
		if end.kind != endDone {
			return fmt.Sprintf("init of %s: %s", f.Pkg.Pkg.Path(), end.msg)
		}
		return ""
	}
	for _, p := range []string{"verif/models", "verif/harness"} {
		pk := m.prog.ImportedPackage(p)
		if err := run(pk.Func("init")); err != "" {
			return err
		}
	}
	m.cells = nil
	m.funcs = nil
	m.path = nil
	m.dec = nil
	m.decIdx = 0
	m.fnUsed = map[*ssa.Function]bool{}
	m.steps = 0
	m.st = &Stats{}
	m.base = m.mark()
	m.threads = []*Thread{{id: 0}}
	m.pushFrame(m.threads[0], m.code(fn), nil, nil, frRoot)
	return ""
}

// reset returns to the start of the harness and follows the script of j.
func (m *Machine) reset(j *job) {
	root := m.codes
	_ = root
	fr := m.rootCode
	if fr == nil {
		m.rootCode = m.threads[0].frames[0].code
		fr = m.rootCode
	}
	m.undoTo(m.base)
	m.choices = nil
	m.epoch++
	m.threads = []*Thread{{id: 0}}
	m.cur = 0
	m.pushFrame(m.threads[0], fr, nil, nil, frRoot)
	m.dec = nil
	m.decIdx = 0
	m.script = j.script
	m.scrIdx = 0
	m.smodel = j.model
	m.model = nil
	m.unkn = false
	m.race = nil
}
