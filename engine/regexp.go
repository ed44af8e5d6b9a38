package main

import (
	"regexp/syntax"
	"unicode/utf8"
)

// Regular expressions are executed over symbolic bytes with the prioritised backtracking search that defines
// Go's leftmost-first semantics, on the program compiled by regexp/syntax.

type reProg struct {
	src   string
	prog  *syntax.Prog
	bytew []int // per instruction: 0 decode runes, 1 only ASCII, 2 consume single bytes (class holds all non-ASCII)
}

func compileRe(src string) (*reProg, error) {
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	r := &reProg{src: src, prog: p, bytew: make([]int, len(p.Inst))}
	ascii := func(i *syntax.Inst) bool {
		if i.Op == syntax.InstRuneAny || i.Op == syntax.InstRuneAnyNotNL {
			return false
		}
		for _, x := range i.Rune {
			if x >= 0x80 {
				return false
			}
		}
		return syntax.Flags(i.Arg)&syntax.FoldCase == 0
	}
	high := func(i *syntax.Inst) bool {
		if i.Op == syntax.InstRuneAny || i.Op == syntax.InstRuneAnyNotNL {
			return true
		}
		if i.Op != syntax.InstRune || syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			return false
		}
		n := len(i.Rune)
		return n >= 2 && i.Rune[n-1] == utf8.MaxRune && i.Rune[n-2] <= 0x80
	}
	isRune := func(op syntax.InstOp) bool {
		return op == syntax.InstRune || op == syntax.InstRune1 || op == syntax.InstRuneAny || op == syntax.InstRuneAnyNotNL
	}
	for pc := range p.Inst {
		in := &p.Inst[pc]
		if !isRune(in.Op) {
			continue
		}
		if ascii(in) {
			r.bytew[pc] = 1
			continue
		}
		if !high(in) {
			continue
		}
		// what can follow, in priority order
		ok, self, exitFirst := true, false, false
		seen := map[uint32]bool{}
		var walk func(q uint32)
		walk = func(q uint32) {
			if seen[q] {
				return
			}
			seen[q] = true
			i := &p.Inst[q]
			switch i.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				walk(i.Out)
				walk(i.Arg)
			case syntax.InstCapture, syntax.InstNop:
				walk(i.Out)
			case syntax.InstMatch:
				if !self {
					exitFirst = true
				}
			case syntax.InstFail:
			case syntax.InstEmptyWidth:
				ok = false
			default:
				if q == uint32(pc) {
					self = true
				} else if !ascii(i) {
					ok = false
				}
			}
		}
		walk(in.Out)
		if ok && self && !exitFirst {
			r.bytew[pc] = 2
		}
	}
	return r, nil
}

func (m *Machine) runeCond(i *syntax.Inst, r *Expr) *Expr {
	c := m.ctx
	k := func(x rune) *Expr { return Const(r.w, uint64(x)) }
	switch i.Op {
	case syntax.InstRuneAny:
		return eTrue
	case syntax.InstRuneAnyNotNL:
		return c.Not(c.Eq(r, k('\n')))
	case syntax.InstRune1:
		if r.w == 8 && i.Rune[0] > 255 {
			return eFalse
		}
		return c.Eq(r, k(i.Rune[0]))
	}
	if len(i.Rune) == 1 {
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			if r.isConst() {
				return Bool(i.MatchRune(rune(r.val)))
			}
			panic(unsupported("case-folding regular expression"))
		}
		return c.Eq(r, k(i.Rune[0]))
	}
	res := eFalse
	for j := 0; j+1 < len(i.Rune); j += 2 {
		lo, hi := i.Rune[j], i.Rune[j+1]
		if r.w == 8 {
			if lo > 255 {
				continue
			}
			if hi > 255 {
				hi = 255
			}
		}
		res = c.Or(res, c.And(c.Ule(k(lo), r), c.Ule(r, k(hi))))
	}
	return res
}

// reMatch finds the leftmost-first match at or after pos; nil when there is none.
func (m *Machine) reMatch(re *reProg, b []*Expr, from int) []int {
	p := re.prog
	ncap := p.NumCap
	if ncap < 2 {
		ncap = 2
	}
	type st struct{ pc, pos int }
	anch := p.StartCond()&syntax.EmptyBeginText != 0
	visited := map[st]bool{}
	var caps []int
	var run func(pc uint32, pos int) bool
	run = func(pc uint32, pos int) bool {
		for {
			if visited[st{int(pc), pos}] {
				return false
			}
			visited[st{int(pc), pos}] = true
			i := &p.Inst[pc]
			switch i.Op {
			case syntax.InstFail:
				return false
			case syntax.InstMatch:
				caps[1] = pos
				return true
			case syntax.InstNop:
				pc = i.Out
			case syntax.InstAlt, syntax.InstAltMatch:
				if run(i.Out, pos) {
					return true
				}
				pc = i.Arg
			case syntax.InstCapture:
				if int(i.Arg) < len(caps) {
					old := caps[i.Arg]
					caps[i.Arg] = pos
					if run(i.Out, pos) {
						return true
					}
					caps[i.Arg] = old
					return false
				}
				pc = i.Out
			case syntax.InstEmptyWidth:
				if !m.reEmpty(syntax.EmptyOp(i.Arg), b, pos) {
					return false
				}
				pc = i.Out
			default:
				if pos >= len(b) {
					return false
				}
				if re.bytew[pc] != 0 {
					if !m.branch(m.runeCond(i, b[pos])) {
						return false
					}
					pos++
				} else {
					r, n := m.decodeRune(b, pos)
					if !m.branch(m.runeCond(i, r)) {
						return false
					}
					pos += n
				}
				pc = i.Out
			}
		}
	}
	for s := from; s <= len(b); {
		caps = make([]int, ncap)
		for i := range caps {
			caps[i] = -1
		}
		caps[0] = s
		if run(uint32(p.Start), s) {
			caps[0] = s
			return caps
		}
		if anch || s == len(b) {
			return nil
		}
		// the next rune boundary; stepping by bytes is harmless when the first test is for an ASCII rune
		if first := firstInst(p); first >= 0 && re.bytew[first] == 1 {
			s++
			continue
		}
		_, n := m.decodeRune(b, s)
		s += n
	}
	return nil
}

func firstInst(p *syntax.Prog) int {
	pc := p.Start
	for {
		i := &p.Inst[pc]
		switch i.Op {
		case syntax.InstCapture, syntax.InstNop:
			pc = int(i.Out)
		case syntax.InstRune, syntax.InstRune1:
			return pc
		default:
			return -1
		}
	}
}

func (m *Machine) reEmpty(op syntax.EmptyOp, b []*Expr, pos int) bool {
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != len(b) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 && !m.branch(m.ctx.Eq(b[pos-1], Const(8, '\n'))) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(b) && !m.branch(m.ctx.Eq(b[pos], Const(8, '\n'))) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		w := func(i int) bool {
			if i < 0 || i >= len(b) {
				return false
			}
			return m.branch(m.inSet(b[i], "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_"))
		}
		bd := w(pos-1) != w(pos)
		if op&syntax.EmptyWordBoundary != 0 && !bd || op&syntax.EmptyNoWordBoundary != 0 && bd {
			return false
		}
	}
	return true
}

func (m *Machine) rePtr(v Value) *reProg {
	p, ok := v.(*Value)
	if !ok || p == nil {
		panic(m.rtErr("invalid memory address or nil pointer dereference"))
	}
	n, ok := (*p).(Native)
	if !ok {
		panic(unsupported("regular expression"))
	}
	return n.x.(*reProg)
}

func ints(a []int) Slice {
	r := make(Slice, len(a))
	for i := range a {
		r[i] = i64(a[i])
	}
	return r
}

func (m *Machine) reAll(re *reProg, b []*Expr, n int) [][]int {
	var r [][]int
	if n < 0 {
		n = len(b) + 1
	}
	prevEnd := -1
	for pos := 0; len(r) < n && pos <= len(b); {
		c := m.reMatch(re, b, pos)
		if c == nil {
			break
		}
		accept := true
		if c[1] == pos {
			if c[0] == prevEnd {
				accept = false
			}
			if pos < len(b) {
				_, w := m.decodeRune(b, pos)
				pos += w
			} else {
				pos = len(b) + 1
			}
		} else {
			pos = c[1]
		}
		prevEnd = c[1]
		if accept {
			r = append(r, c)
		}
	}
	return r
}

func initRegexp() {
	comp := func(m *Machine, src string) (Value, error) {
		re, err := compileRe(src)
		if err != nil {
			return (*Value)(nil), err
		}
		return newCell(Native{re}), nil
	}
	sub := func(v Value, i, j int) Value {
		switch x := v.(type) {
		case Str:
			if i < 0 {
				return Str{}
			}
			return x.Sub(i, j)
		case Slice:
			if i < 0 {
				return Slice(nil)
			}
			return x[i:j:j]
		}
		panic("sub")
	}
	intrinsics["regexp.MustCompile"] = func(m *Machine, t *Thread, a []Value) Value {
		s, ok := conc(a[0])
		if !ok {
			panic(unsupported("symbolic regular expression"))
		}
		v, err := comp(m, s)
		if err != nil {
			panic(goPanic{m.mkError("regexp: Compile: " + err.Error())})
		}
		return v
	}
	intrinsics["regexp.Compile"] = func(m *Machine, t *Thread, a []Value) Value {
		s, ok := conc(a[0])
		if !ok {
			panic(unsupported("symbolic regular expression"))
		}
		v, err := comp(m, s)
		if err != nil {
			return Tuple{v, m.mkError(err.Error())}
		}
		return Tuple{v, Iface{}}
	}
	intrinsics["regexp.QuoteMeta"] = nil
	delete(intrinsics, "regexp.QuoteMeta")
	add := func(names string, f func(m *Machine, re *reProg, a []Value) Value) {
		for _, n := range splitSpace(names) {
			intrinsics["(*regexp.Regexp)."+n] = func(m *Machine, t *Thread, a []Value) Value {
				return f(m, m.rePtr(a[0]), a)
			}
		}
	}
	add("String", func(m *Machine, re *reProg, a []Value) Value { return S(re.src) })
	add("NumSubexp", func(m *Machine, re *reProg, a []Value) Value { return i64(re.prog.NumCap/2 - 1) })
	add("MatchString Match", func(m *Machine, re *reProg, a []Value) Value {
		return Bool(m.reMatch(re, bytesOf(m, a[1]), 0) != nil)
	})
	add("FindString Find", func(m *Machine, re *reProg, a []Value) Value {
		c := m.reMatch(re, bytesOf(m, a[1]), 0)
		if c == nil {
			return sub(a[1], -1, -1)
		}
		return sub(a[1], c[0], c[1])
	})
	add("FindStringIndex FindIndex", func(m *Machine, re *reProg, a []Value) Value {
		c := m.reMatch(re, bytesOf(m, a[1]), 0)
		if c == nil {
			return Slice(nil)
		}
		return ints(c[:2])
	})
	add("FindStringSubmatchIndex FindSubmatchIndex", func(m *Machine, re *reProg, a []Value) Value {
		c := m.reMatch(re, bytesOf(m, a[1]), 0)
		if c == nil {
			return Slice(nil)
		}
		return ints(c)
	})
	subs := func(v Value, c []int) Slice {
		r := Slice{}
		for i := 0; i+1 < len(c); i += 2 {
			r = append(r, sub(v, c[i], c[i+1]))
		}
		return r
	}
	add("FindStringSubmatch FindSubmatch", func(m *Machine, re *reProg, a []Value) Value {
		c := m.reMatch(re, bytesOf(m, a[1]), 0)
		if c == nil {
			return Slice(nil)
		}
		return subs(a[1], c)
	})
	all := func(f func(v Value, c []int) Value) func(m *Machine, re *reProg, a []Value) Value {
		return func(m *Machine, re *reProg, a []Value) Value {
			var r Slice
			for _, c := range m.reAll(re, bytesOf(m, a[1]), m.concInt(a[2])) {
				r = append(r, f(a[1], c))
			}
			return r
		}
	}
	add("FindAllString FindAll", all(func(v Value, c []int) Value { return sub(v, c[0], c[1]) }))
	add("FindAllStringIndex FindAllIndex", all(func(v Value, c []int) Value { return ints(c[:2]) }))
	add("FindAllStringSubmatch FindAllSubmatch", all(func(v Value, c []int) Value { return subs(v, c) }))
	add("FindAllStringSubmatchIndex FindAllSubmatchIndex", all(func(v Value, c []int) Value { return ints(c) }))
}

func splitSpace(s string) []string {
	var r []string
	cur := ""
	for _, c := range s + " " {
		if c == ' ' {
			if cur != "" {
				r = append(r, cur)
			}
			cur = ""
			continue
		}
		cur += string(c)
	}
	return r
}
