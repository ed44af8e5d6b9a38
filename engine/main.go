package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type request struct {
	H     string         `json:"h"`
	Opts  map[string]int `json:"opts"`
	In    []uint64       `json:"in"`
	Sched []uint64       `json:"sched"`
	Loops int            `json:"loops,omitempty"`
	Show  bool           `json:"show,omitempty"`
	MS    int            `json:"ms,omitempty"`
}

type response struct {
	Out   string   `json:"out"`
	Msg   string   `json:"msg"`
	Obs   uint64   `json:"obs"`
	Reach []string `json:"reach"`
	Over  bool     `json:"over"`
	Text  string   `json:"text,omitempty"`
}

// Runner drives the replay program.
type Runner struct {
	bin  string
	env  []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *strings.Builder
	Runs int
}

func (n *Runner) start() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Env = append(append(os.Environ(), "TZ=UTC"), n.env...)
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.errb = &strings.Builder{}
	n.cmd.Stderr = n.errb
	n.in, n.out = in, bufio.NewReaderSize(out, 1<<20)
	return n.cmd.Start()
}

// Run executes one request; a crash of the process is an outcome of its own.
func (n *Runner) Run(q request) response {
	n.Runs++
	for try := 0; ; try++ {
		if n.cmd == nil {
			if err := n.start(); err != nil {
				return response{Out: "error", Msg: err.Error()}
			}
		}
		b, _ := json.Marshal(q)
		n.in.Write(append(b, '\n'))
		line, err := n.out.ReadBytes('\n')
		if err != nil {
			n.in.Close()
			werr := n.cmd.Wait()
			n.cmd = nil
			msg := n.errb.String()
			if len(msg) == 0 && try == 0 && werr == nil {
				continue
			}
			if len(msg) > 3000 {
				msg = msg[:3000]
			}
			return response{Out: "crash", Msg: fmt.Sprintf("%v: %s", werr, msg)}
		}
		var r response
		if err := json.Unmarshal(line, &r); err != nil {
			return response{Out: "error", Msg: err.Error()}
		}
		if r.Out == "timeout" {
			n.in.Close()
			n.cmd.Wait()
			n.cmd = nil
		}
		return r
	}
}

func (n *Runner) Close() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Wait()
		n.cmd = nil
	}
}

// broken tells whether a native outcome shows the property violated.
func (r response) broken() bool {
	switch r.Out {
	case "fail", "panic", "timeout", "crash":
		return true
	}
	return false
}

var (
	root    string
	verbose = flag.Bool("v", false, "print details")
	tier    = flag.String("tier", "", "quick or thorough")
	caseRe  = flag.String("case", "", "only harnesses matching this")
	workers = flag.Int("j", runtime.NumCPU(), "workers")
	opts    = flag.String("opts", "", "override bounds, k=v,k=v")
	limit   = flag.Int("limit", 0, "seconds per property")
	dbg     = flag.Bool("dbg", false, "stack traces of engine faults")
)

func obsHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func goBuild(out, pkg string, extra ...string) error {
	args := append([]string{"build", "-o", out}, extra...)
	args = append(args, pkg)
	c := exec.Command("go", args...)
	c.Dir = root
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go build %s: %v\n%s", pkg, err, b)
	}
	return nil
}

type caseReport struct {
	Case           string         `json:"case"`
	Bounds         map[string]int `json:"bounds"`
	Exhausted      bool           `json:"bounds_exhausted"`
	Paths          int            `json:"paths_completed"`
	AssumedAway    int            `json:"paths_ended_by_assumption"`
	Outside        int            `json:"paths_not_decided"`
	OutsideWhy     map[string]int `json:"not_decided_reasons,omitempty"`
	UnknownBranch  int            `json:"branches_solver_unknown"`
	Asserts        int            `json:"assertions_evaluated"`
	Instructions   int            `json:"ssa_instructions"`
	Forks          int            `json:"forks"`
	DomainChecks   int            `json:"byte_domain_decisions"`
	Obligations    int            `json:"cut_branches_reproved_by_z3"`
	OblUnknown     int            `json:"cut_branches_z3_unknown"`
	Queries        int            `json:"z3_queries"`
	Unsat          int            `json:"z3_unsat"`
	Sat            int            `json:"z3_sat"`
	UnknownQueries int            `json:"z3_unknown"`
	SolverS        float64        `json:"solver_s"`
	MaxQueryS      float64        `json:"slowest_query_s"`
	WallS          float64        `json:"wall_s"`
	Reached        map[string]int `json:"reached"`
	Validated      int            `json:"paths_replayed_natively"`
	Mismatches     int            `json:"replay_mismatches"`
	MismatchWhat   []string       `json:"mismatches,omitempty"`
}

func loadKnown(prop string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		// KNOWN property=C01 id=KF-1 text...
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		r[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return r
}

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) < 1 {
		fmt.Println("usage: engine [flags] check PROP | list | replay FILE")
		os.Exit(2)
	}
	root = os.Getenv("VERIF_ROOT")
	if root == "" {
		root, _ = os.Getwd()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	switch args[0] {
	case "check":
		os.Exit(check(args[1]))
	case "list":
		e, err := Load(root)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, c := range e.cases {
			fmt.Println(c.Tier, c.Name())
		}
	case "replay":
		os.Exit(replayFile(args[1]))
	}
}

type replayDoc struct {
	Property string  `json:"property"`
	What     string  `json:"what"`
	Request  request `json:"request"`
	Race     bool    `json:"race"`
	Observed string  `json:"observed"`
	How      string  `json:"how"`
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "verif-")
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	var extra []string
	if d.Race {
		extra = []string{"-race"}
	} else if len(d.Request.Sched) > 0 {
		ov, err := scheduledOverlay(tmp)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		extra = []string{"-overlay", ov}
	}
	if err := goBuild(bin, "./replay", extra...); err != nil {
		fmt.Println(err)
		return 2
	}
	n := &Runner{bin: bin, env: []string{"GORACE=halt_on_error=1 exitcode=66"}}
	defer n.Close()
	d.Request.Show = true
	r := n.Run(d.Request)
	fmt.Printf("%s: %s\n%s\n", r.Out, r.Msg, strings.ReplaceAll(r.Text, "\x00", "\n"))
	if r.broken() {
		return 1
	}
	return 0
}

func check(prop string) int {
	t0 := time.Now()
	e, err := Load(root)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	e.verbose = *dbg
	var cases []*Case
	hasThorough := false
	var re *regexp.Regexp
	if *caseRe != "" {
		re = regexp.MustCompile(*caseRe)
	}
	for _, c := range e.cases {
		if c.Prop == prop && c.Tier == "thorough" {
			hasThorough = true
		}
	}
	_ = hasThorough
	for _, c := range e.cases {
		if c.Prop != prop || re != nil && !re.MatchString(c.Name()) {
			continue
		}
		if c.Tier == "both" || c.Tier == *tier {
			cases = append(cases, c)
		}
	}
	if len(cases) == 0 {
		fmt.Println("error: no case for", prop)
		return 2
	}
	if *opts != "" {
		cases = cases[:1]
		for _, kv := range strings.Split(*opts, ",") {
			k, v, _ := strings.Cut(kv, "=")
			n, _ := strconv.Atoi(v)
			cases[0].Opts[k] = n
		}
	}
	tmp, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	tb := time.Now()
	if err := goBuild(bin, "./replay"); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	buildS := time.Since(tb).Seconds()
	nat := &Runner{bin: bin}
	defer nat.Close()
	raceBin := ""
	raceNative := func() *Runner {
		if raceBin == "" {
			raceBin = filepath.Join(tmp, "replay-race")
			if err := goBuild(raceBin, "./replay", "-race"); err != nil {
				fmt.Println("note:", err)
			}
		}
		return &Runner{bin: raceBin, env: []string{"GORACE=halt_on_error=1 exitcode=66"}}
	}
	ctl := newControlled(tmp)
	defer ctl.Close()

	budget := 110 * time.Second
	if *tier == "thorough" {
		budget = 780 * time.Second
	}
	if *limit > 0 {
		budget = time.Duration(*limit) * time.Second
	}
	end := t0.Add(budget)
	crossMax = 40

	known := loadKnown(prop)
	knownSeen := map[string]string{}
	type found struct {
		c    *Case
		l    Leaf
		r    response
		race bool
		q    request
	}
	var violations []found
	var spurious []string
	var reports []caseReport
	funcs := map[string]bool{}
	reached := map[string]map[string]int{}
	var samples []any

	confirm := func(c *Case, l Leaf) bool {
		q := request{H: c.Harness, Opts: c.Opts, In: l.In, Sched: l.Sched, Show: true}
		if len(l.Sched) > 0 || strings.HasPrefix(l.Msg, "data race") || strings.HasPrefix(l.Msg, "deadlock") {
			if strings.HasPrefix(l.Msg, "data race") {
				rn := raceNative()
				q.Loops = 3000
				q.MS = 60000
				r := rn.Run(q)
				rn.Close()
				if r.broken() {
					violations = append(violations, found{c, l, r, true, q})
					return true
				}
				spurious = append(spurious, c.Name()+": "+l.Msg)
				return false
			}
			if cn := ctl.get(); cn != nil {
				q.MS = 5000
				r := cn.Run(q)
				if r.broken() {
					violations = append(violations, found{c, l, r, false, q})
					return true
				}
			}
			q.Loops = 3000
			q.MS = 30000
		}
		r := nat.Run(q)
		if r.Out == "known" {
			if knownSeen[r.Msg] == "" {
				knownSeen[r.Msg] = c.Name()
			}
			return false
		}
		if r.broken() {
			violations = append(violations, found{c, l, r, false, q})
			return true
		}
		spurious = append(spurious, fmt.Sprintf("%s: engine says %q, native run says %s %s (input %v)", c.Name(), l.Msg, r.Out, r.Msg, l.In))
		return false
	}

	totalW := 0
	for _, c := range cases {
		w := c.Time
		if w == 0 {
			w = 10
		}
		totalW += w
	}
	for ci, c := range cases {
		left := time.Until(end)
		w := c.Time
		if w == 0 {
			w = 10
		}
		b := left
		if ci < len(cases)-1 {
			// a share of what is left, by weight, and what earlier cases did not use
			b = time.Duration(float64(left) * 1.5 * float64(w) / float64(totalW))
			if b > left*9/10 {
				b = left * 9 / 10
			}
		}
		totalW -= w
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		t1 := time.Now()
		x := e.Explore(c, *workers, b, func(l Leaf) bool { return confirm(c, l) })
		if x.fatal != "" {
			fmt.Println("error:", c.Name(), x.fatal)
			spurious = append(spurious, x.fatal)
		}
		rep := caseReport{Case: c.Name(), Bounds: c.Opts, Paths: x.paths[endDone], AssumedAway: x.paths[endAssume],
			Outside: x.paths[endUnsupported] + x.paths[endLimit] + x.paths[endUnknown], OutsideWhy: x.badN, UnknownBranch: x.st.UnknownBranches,
			Asserts: x.st.Asserts, Instructions: x.st.Steps, Forks: x.st.Forks, DomainChecks: x.st.DomainChecks,
			Obligations: x.st.Obligations, OblUnknown: x.st.OblUnknown, Queries: x.queries, Unsat: x.qunsat, Sat: x.qsat, UnknownQueries: x.qunk,
			SolverS: x.qtime.Seconds(), MaxQueryS: x.qmax.Seconds(), Reached: x.reached}
		if x.st.OblFailed > 0 {
			spurious = append(spurious, fmt.Sprintf("%s: %d cut branches are feasible according to z3", c.Name(), x.st.OblFailed))
		}
		for id := range x.known {
			if knownSeen[id] == "" {
				// shown to be real by replaying it
				l := x.known[id]
				r := nat.Run(request{H: c.Harness, Opts: c.Opts, In: l.In, Show: true})
				if r.Out == "known" && r.Msg == id {
					knownSeen[id] = c.Name()
				}
			}
		}
		// native validation of sampled paths, and native runs of the paths that were not decided
		if len(violations) == 0 {
			for _, l := range x.leaves {
				on := nat
				if len(l.Sched) > 0 {
					if on = ctl.get(); on == nil {
						continue // another schedule natively
					}
				}
				r := on.Run(request{H: c.Harness, Opts: c.Opts, In: l.In, Sched: l.Sched})
				rep.Validated++
				switch {
				case r.broken():
					l.Msg = r.Msg
					violations = append(violations, found{c, l, r, false, request{H: c.Harness, Opts: c.Opts, In: l.In, Sched: l.Sched, Show: true}})
				case r.Out != "ok" || r.Over:
					rep.Mismatches++
					rep.MismatchWhat = append(rep.MismatchWhat, fmt.Sprintf("native %s %s over=%v input %v", r.Out, r.Msg, r.Over, l.In))
				case l.ObsOK && obsHash(l.Obs) != r.Obs:
					rep.Mismatches++
					rr := on.Run(request{H: c.Harness, Opts: c.Opts, In: l.In, Sched: l.Sched, Show: true})
					rep.MismatchWhat = append(rep.MismatchWhat, fmt.Sprintf("observations differ: engine %q native %q input %v", l.Obs, rr.Text, l.In))
				}
				if len(violations) > 0 {
					break
				}
			}
			nb := 0
			for _, ls := range x.bad {
				for _, l := range ls {
					if nb > 60 || len(violations) > 0 {
						break
					}
					nb++
					q := request{H: c.Harness, Opts: c.Opts, In: l.In, Show: true}
					r := nat.Run(q)
					if r.broken() && !(r.Out == "timeout" && l.Kind != endLimit) {
						violations = append(violations, found{c, l, r, false, q})
					}
				}
			}
		}
		if rep.Mismatches > 5 {
			rep.MismatchWhat = rep.MismatchWhat[:5]
		}
		rep.Exhausted = !x.timedOut && x.fatal == "" && rep.Outside == 0 && x.st.UnknownBranches == 0 && len(violations) == 0
		rep.WallS = time.Since(t1).Seconds()
		reports = append(reports, rep)
		for f := range x.funcs {
			funcs[f] = true
		}
		if reached[c.Harness] == nil {
			reached[c.Harness] = map[string]int{}
		}
		for k, v := range x.reached {
			reached[c.Harness][k] += v
		}
		for i, l := range x.leaves {
			if i >= 2 || len(samples) > 12 {
				break
			}
			samples = append(samples, map[string]any{"case": c.Name(), "inputs": l.In, "reached": l.Reached})
		}
		if *verbose {
			fmt.Printf("%-60s paths %d assumed %d outside %d unk %d | steps %dk forks %d dom %d obl %d z3 %d (%.1fs) | valid %d mism %d | exh %v %.1fs\n", c.Name(), rep.Paths, rep.AssumedAway, rep.Outside, rep.UnknownBranch,
				rep.Instructions/1000, rep.Forks, rep.DomainChecks, rep.Obligations, rep.Queries, rep.SolverS, rep.Validated, rep.Mismatches, rep.Exhausted, rep.WallS)
			for k, v := range x.badN {
				fmt.Printf("    outside: %d x %s\n", v, k)
				if len(x.bad[k]) > 0 {
					fmt.Printf("       e.g. %v\n", x.bad[k][0].In)
				}
			}
			for _, s := range rep.MismatchWhat {
				fmt.Println("    mismatch:", s)
			}
			fmt.Println("    reached:", x.reached)
		}
		if len(violations) > 0 {
			break
		}
		if time.Until(end) < 0 {
			break
		}
	}
	var vacuous []string
	for _, c := range cases {
		for _, l := range e.reach[c.Harness] {
			if reached[c.Harness] != nil && reached[c.Harness][l] == 0 {
				vacuous = append(vacuous, c.Harness+":"+l)
			}
		}
	}
	asked, agree, disagree, other := 0, 0, 0, 0
	if len(violations) == 0 {
		asked, agree, disagree, other = runCross()
	}

	var fnames []string
	repoFns := 0
	for f := range funcs {
		fnames = append(fnames, f)
		if strings.Contains(f, iniPkg) {
			repoFns++
		}
	}
	sort.Strings(fnames)
	tot := caseReport{}
	exhausted := len(reports) == len(cases)
	for _, r := range reports {
		tot.Paths += r.Paths
		tot.Instructions += r.Instructions
		tot.Queries += r.Queries
		tot.Sat += r.Sat
		tot.Unsat += r.Unsat
		tot.UnknownQueries += r.UnknownQueries
		tot.SolverS += r.SolverS
		tot.Obligations += r.Obligations
		tot.Asserts += r.Asserts
		tot.Validated += r.Validated
		tot.Mismatches += r.Mismatches
		tot.Forks += r.Forks
		tot.DomainChecks += r.DomainChecks
		tot.Outside += r.Outside
		if !r.Exhausted {
			exhausted = false
		}
	}
	var kf []string
	for id := range knownSeen {
		kf = append(kf, id)
	}
	sort.Strings(kf)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": *tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": len(violations),
		"coverage": map[string]any{
			"states": tot.Paths + tot.Forks, "transitions": tot.Instructions, "traces_validated_against_impl": tot.Validated, "samples": samples,
			"evaluations": tot.Asserts, "exhaustive": exhausted,
			"rule":                     "states: completed symbolic paths plus fork points; transitions: SSA instructions executed symbolically; evaluations: assertions decided symbolically",
			"symbolic_paths":           tot.Paths,
			"paths_not_decided":        tot.Outside,
			"cases":                    reports,
			"functions_encoded":        fnames,
			"repo_functions_encoded":   repoFns,
			"z3_queries":               map[string]any{"total": tot.Queries, "sat": tot.Sat, "unsat": tot.Unsat, "unknown": tot.UnknownQueries, "solver_s": tot.SolverS},
			"byte_domain_decisions":    tot.DomainChecks,
			"cut_branches_reproved":    tot.Obligations,
			"cross_check_cvc5":         map[string]int{"asked": asked, "agree": agree, "disagree": disagree, "no_answer": other},
			"labels_not_reached":       vacuous,
			"engine_disagreements":     spurious,
			"native_replay_mismatches": tot.Mismatches,
			"known_findings_seen":      kf,
			"load_s":                   loadS, "build_s": buildS,
		},
		"assumptions": []string{
			"bounds: the sizes and alphabets listed per case; nothing is claimed outside them",
			"the SSA-to-SMT executor in /verif/engine and its models of the library (bytealg, regexp, reflect, fmt, os files in memory, sync) are trusted; sampled paths are replayed natively to test that",
			"paths listed as not decided are outside the claim",
		},
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	for _, s := range spurious {
		fmt.Println("note: not reproduced natively:", s)
	}
	for _, s := range vacuous {
		fmt.Println("note: label not reached:", s)
	}
	if disagree > 0 {
		fmt.Println("note: cvc5 disagrees on", disagree, "queries")
	}
	fmt.Printf("%s %s: %d cases, %d paths, %d assertions, %d z3 queries (%.1f s), %d replayed, %d mismatches, %d not decided, exhausted=%v, %.1f s\n",
		prop, *tier, len(reports), tot.Paths, tot.Asserts, tot.Queries, tot.SolverS, tot.Validated, tot.Mismatches, tot.Outside, exhausted, time.Since(t0).Seconds())
	rc := 0
	for _, id := range kf {
		if txt, ok := known[id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, id, txt)
		} else {
			// a finding the file does not list is a violation
			dir := filepath.Join(root, "replays")
			os.MkdirAll(dir, 0755)
			p := filepath.Join(dir, prop+"-"+id+".json")
			os.WriteFile(p, []byte("{}\n"), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			rc = 1
		}
	}
	for i, v := range violations {
		if i >= 3 {
			break
		}
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
		d := replayDoc{Property: prop, What: v.l.Msg, Request: v.q, Race: v.race, Observed: v.r.Out + ": " + v.r.Msg, How: "cd /verif && ./check.sh replay " + p}
		b, _ := json.MarshalIndent(d, "", " ")
		os.WriteFile(p, append(b, '\n'), 0644)
		fmt.Printf("violated: %s: %s\n  native run: %s %s\n", v.c.Name(), v.l.Msg, v.r.Out, firstLine(v.r.Msg))
		if *verbose {
			fmt.Println(strings.ReplaceAll(v.r.Text, "\x00", "\n"), v.r.Msg)
			fmt.Println("input:", v.l.In, showBytes(v.l.In))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		rc = 1
	}
	return rc
}

func showBytes(in []uint64) string {
	s := ""
	for _, v := range in {
		if v >= 32 && v < 127 {
			s += string(rune(v))
		} else {
			s += fmt.Sprintf("<%d>", v)
		}
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

const repoDir = "/repo"

// controlled is the replay program with the locks of the code under test replaced by scheduled ones.
type controlled struct {
	tmp  string
	n    *Runner
	done bool
}

func newControlled(tmp string) *controlled { return &controlled{tmp: tmp} }

// get builds the program the first time; it is nil when that is not possible.
func (c *controlled) get() *Runner {
	if c.done {
		return c.n
	}
	c.done = true
	bin := filepath.Join(c.tmp, "replay-scheduled")
	ov, err := scheduledOverlay(c.tmp)
	if err == nil {
		err = goBuild(bin, "./replay", "-overlay", ov)
	}
	if err != nil {
		fmt.Println("note: no scheduled replay:", err)
		return nil
	}
	c.n = &Runner{bin: bin}
	return c.n
}

func (c *controlled) Close() {
	if c.n != nil {
		c.n.Close()
	}
}

// scheduledOverlay replaces the import of sync in the code under test.
func scheduledOverlay(tmp string) (string, error) {
	files, err := filepath.Glob(filepath.Join(repoDir, "*.go"))
	if err != nil {
		return "", err
	}
	repl := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		tree, err := parser.ParseFile(token.NewFileSet(), f, src, parser.ImportsOnly)
		if err != nil {
			return "", err
		}
		for _, im := range tree.Imports {
			if im.Path.Value != `"sync"` {
				continue
			}
			// positions start at 1
			a, b := int(im.Path.Pos())-1, int(im.Path.End())-1
			path := `"verif/vsync"`
			if im.Name == nil {
				path = "sync " + path
			}
			out := filepath.Join(tmp, "sched-"+filepath.Base(f))
			if err := os.WriteFile(out, []byte(string(src[:a])+path+string(src[b:])), 0644); err != nil {
				return "", err
			}
			repl[f] = out
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	name := filepath.Join(tmp, "overlay.json")
	return name, os.WriteFile(name, b, 0644)
}
