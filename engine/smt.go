package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver drives one z3 process over a pipe.
type Solver struct {
	path    string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	decl    map[int32]bool
	timeout int // ms
	ctx     *Ctx
	sb      strings.Builder

	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	MaxTime time.Duration
}

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func NewSolver(ctx *Ctx, timeoutMS int) *Solver {
	return &Solver{path: "z3", args: []string{"-in", "-smt2"}, ctx: ctx, timeout: timeoutMS}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.path, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err = s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.decl = map[int32]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic ALL)\n", s.timeout)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// crossDump, when set, receives a copy of some queries so that a second solver can be asked the same.
var crossMu sync.Mutex
var crossQ []crossQuery
var crossMax int

type crossQuery struct {
	text string
	res  Result
}

// Check decides the conjunction of the given boolean expressions. On Sat it returns values for the variables
// they mention.
func (s *Solver) Check(cs []*Expr) (Result, map[int32]uint64) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Unknown++
			return Unknown, nil
		}
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	s.Queries++
	var vars []int32
	for _, c := range cs {
		vars = mergeVars(vars, c.support())
	}
	sb := &s.sb
	sb.Reset()
	for _, v := range vars {
		if !s.decl[v] {
			s.decl[v] = true
			fmt.Fprintf(sb, "(declare-const v%d (_ BitVec %d))\n", v, s.ctx.varW[v])
		}
	}
	sb.WriteString("(push 1)\n")
	body := printAsserts(cs)
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.Close()
		s.Unknown++
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	res := Unknown
	var model map[int32]uint64
	switch line {
	case "sat":
		res = Sat
		s.Sat++
		model = map[int32]uint64{}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(s.in, "v%d ", v)
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := readSexp(s.out)
			if err != nil {
				s.Close()
				s.Unknown++
				return Unknown, nil
			}
			parseModel(txt, model)
		}
	case "unsat":
		res = Unsat
		s.Unsat++
	default:
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			s.Close()
			return Unknown, nil
		}
	}
	s.in.WriteString("(pop 1)\n")
	if crossMax > 0 && res != Unknown && s.Queries%37 == 0 {
		crossMu.Lock()
		if len(crossQ) < crossMax {
			var d strings.Builder
			for _, v := range vars {
				fmt.Fprintf(&d, "(declare-const v%d (_ BitVec %d))\n", v, s.ctx.varW[v])
			}
			crossQ = append(crossQ, crossQuery{d.String() + body, res})
		}
		crossMu.Unlock()
	}
	return res, model
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				r.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

func parseModel(txt string, m map[int32]uint64) {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		id, err := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
		if err != nil {
			continue
		}
		v := f[i+1]
		var x uint64
		if strings.HasPrefix(v, "#x") {
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		} else if strings.HasPrefix(v, "#b") {
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		}
		m[int32(id)] = x
	}
}

// printAsserts prints the constraints with shared nodes bound by let.
func printAsserts(cs []*Expr) string {
	refs := map[*Expr]int{}
	var order []*Expr
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e.op == OpConst || e.op == OpVar {
			return
		}
		refs[e]++
		if refs[e] > 1 {
			return
		}
		for _, x := range [3]*Expr{e.a, e.b, e.c} {
			if x != nil {
				walk(x)
			}
		}
		order = append(order, e)
	}
	for _, c := range cs {
		walk(c)
	}
	var sb strings.Builder
	names := map[*Expr]string{}
	depth := 0
	sb.WriteString("(assert ")
	for _, e := range order {
		if refs[e] > 1 || e.op == OpTable {
			n := "t" + strconv.Itoa(len(names))
			if e.op == OpTable {
				in := "i" + strconv.Itoa(len(names))
				sb.WriteString("(let ((" + in + " ")
				printExpr(&sb, e.a, names)
				sb.WriteString(")) ")
				depth++
				sb.WriteString("(let ((" + n + " ")
				printTable(&sb, e, in)
				sb.WriteString(")) ")
				depth++
				names[e] = n
				continue
			}
			sb.WriteString("(let ((" + n + " ")
			printExpr(&sb, e, names)
			sb.WriteString(")) ")
			depth++
			names[e] = n
		}
	}
	sb.WriteString("(and true")
	for _, c := range cs {
		sb.WriteByte(' ')
		printExpr(&sb, c, names)
	}
	sb.WriteString(")")
	for ; depth > 0; depth-- {
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
	return sb.String()
}

func bvConst(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("#x%0*x", int(w)/4, v)
}

// printTable writes a lookup as a chain of ranges on which the result is constant or follows the index.
func printTable(sb *strings.Builder, e *Expr, idx string) {
	lim := len(e.tab)
	if e.a.w == 8 && lim > 256 {
		lim = 256
	}
	n := 0
	for i := 0; i < lim; {
		j := i
		for j+1 < lim && e.tab[j+1] == e.tab[i] {
			j++
		}
		k := i
		if e.w == e.a.w {
			for k+1 < lim && (e.tab[k+1]-e.tab[k])&mask(e.w) == 1 {
				k++
			}
		}
		val := bvConst(e.w, e.tab[i])
		if k > j {
			j = k
			if d := (e.tab[i] - uint64(i)) & mask(e.w); d == 0 {
				val = idx
			} else {
				val = fmt.Sprintf("(bvadd %s %s)", idx, bvConst(e.w, d))
			}
		}
		if j == lim-1 && uint64(lim) > mask(e.a.w) {
			sb.WriteString(val)
			i = lim
			for ; n > 0; n-- {
				sb.WriteByte(')')
			}
			return
		}
		fmt.Fprintf(sb, "(ite (bvule %s %s) %s ", idx, bvConst(e.a.w, uint64(j)), val)
		n++
		i = j + 1
	}
	sb.WriteString(bvConst(e.w, 0))
	for ; n > 0; n-- {
		sb.WriteByte(')')
	}
}

func printExpr(sb *strings.Builder, e *Expr, names map[*Expr]string) {
	if n, ok := names[e]; ok {
		sb.WriteString(n)
		return
	}
	switch e.op {
	case OpConst:
		sb.WriteString(bvConst(e.w, e.val))
		return
	case OpVar:
		sb.WriteString("v" + strconv.Itoa(int(e.val)))
		return
	case OpZExt, OpSExt:
		n := "zero_extend"
		if e.op == OpSExt {
			n = "sign_extend"
		}
		fmt.Fprintf(sb, "((_ %s %d) ", n, e.w-e.a.w)
		printExpr(sb, e.a, names)
		sb.WriteByte(')')
		return
	case OpTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", e.w-1)
		printExpr(sb, e.a, names)
		sb.WriteByte(')')
		return
	case OpU2F, OpS2F:
		n := map[Op]string{OpU2F: "to_fp_unsigned", OpS2F: "to_fp"}[e.op]
		sb.WriteString("(fp.to_ieee_bv ((_ " + n + " 11 53) RNE ")
		printExpr(sb, e.a, names)
		sb.WriteString("))")
		return
	case OpF32:
		sb.WriteString("(fp.to_ieee_bv ((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE ((_ to_fp 11 53) ")
		printExpr(sb, e.a, names)
		sb.WriteString("))))")
		return
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[e.op]
		sb.WriteString("(fp.to_ieee_bv (" + n + " RNE ((_ to_fp 11 53) ")
		printExpr(sb, e.a, names)
		sb.WriteString(") ((_ to_fp 11 53) ")
		printExpr(sb, e.b, names)
		sb.WriteString(")))")
		return
	case OpFLt, OpFLe, OpFEq:
		n := map[Op]string{OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq"}[e.op]
		sb.WriteString("(" + n + " ((_ to_fp 11 53) ")
		printExpr(sb, e.a, names)
		sb.WriteString(") ((_ to_fp 11 53) ")
		printExpr(sb, e.b, names)
		sb.WriteString("))")
		return
	case OpTable:
		// normally let-bound; kept for completeness
		var t strings.Builder
		printExpr(&t, e.a, names)
		printTable(sb, e, t.String())
		return
	}
	sb.WriteString("(" + opNames[e.op])
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			sb.WriteByte(' ')
			printExpr(sb, x, names)
		}
	}
	sb.WriteByte(')')
}

// runCross asks a second solver the recorded queries.
func runCross() (asked, agree, disagree, other int) {
	if len(crossQ) == 0 {
		return
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, q := range crossQ {
		sb.WriteString("(push 1)\n" + q.text + "(check-sat)\n(pop 1)\n")
	}
	cmd := exec.Command("cvc5", "--incremental", "--lang=smt2", "--tlimit-per=5000", "-")
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.StdoutPipe()
	if cmd.Start() != nil {
		return
	}
	tm := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	data, _ := io.ReadAll(out)
	cmd.Wait()
	tm.Stop()
	lines := strings.Fields(string(data))
	for i, q := range crossQ {
		asked++
		r := ""
		if i < len(lines) {
			r = lines[i]
		}
		switch {
		case r == "sat" && q.res == Sat, r == "unsat" && q.res == Unsat:
			agree++
		case r == "sat" || r == "unsat":
			disagree++
		default:
			other++
		}
	}
	return
}
