package main

import (
	"regexp/syntax"
	"unicode"
)

type nregexp struct {
	src  string
	prog *syntax.Prog
	ncap int
}

// match runs the leftmost-first backtracking semantics of package regexp from position pos.
func (w *W) reMatch(re *nregexp, s Str, pos int) []int {
	for start := pos; start <= s.Len(); {
		caps := make([]int, 2*(re.ncap+1))
		for i := range caps {
			caps[i] = -1
		}
		m := &reRun{w: w, re: re, s: s, visited: map[[2]int]bool{}}
		if m.run(re.prog.Start, start, caps) {
			m.out[0] = start
			return m.out
		}
		if re.prog.StartCond()&syntax.EmptyBeginText != 0 {
			return nil
		}
		if start >= s.Len() {
			break
		}
		_, n := w.decodeRune(s, start)
		start += n
	}
	return nil
}

type reRun struct {
	w       *W
	re      *nregexp
	s       Str
	visited map[[2]int]bool
	out     []int
}

func (m *reRun) run(pc, i int, caps []int) bool {
	for {
		if m.visited[[2]int{pc, i}] {
			return false
		}
		m.visited[[2]int{pc, i}] = true
		in := &m.re.prog.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			m.out = append([]int(nil), caps...)
			m.out[1] = i
			return true
		case syntax.InstFail:
			return false
		case syntax.InstNop:
			pc = int(in.Out)
		case syntax.InstCapture:
			old := -1
			if int(in.Arg) < len(caps) {
				old = caps[in.Arg]
				caps[in.Arg] = i
			}
			if m.run(int(in.Out), i, caps) {
				return true
			}
			if int(in.Arg) < len(caps) {
				caps[in.Arg] = old
			}
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			if m.run(int(in.Out), i, caps) {
				return true
			}
			pc = int(in.Arg)
		case syntax.InstEmptyWidth:
			if !m.empty(syntax.EmptyOp(in.Arg), i) {
				return false
			}
			pc = int(in.Out)
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if i >= m.s.Len() {
				return false
			}
			r, n := m.w.decodeRune(m.s, i)
			if !m.w.branch(m.runeCond(in, r)) {
				return false
			}
			i += n
			pc = int(in.Out)
		default:
			unsup("regexp instruction %v", in.Op)
		}
	}
}

func (m *reRun) runeCond(in *syntax.Inst, r *Expr) *Expr {
	if r.op == OConst {
		return mkBool(in.MatchRune(rune(int32(r.k))))
	}
	eb := m.w.eb
	c := func(x rune) *Expr { return mkConst(32, uint64(uint32(x))) }
	switch in.Op {
	case syntax.InstRuneAny:
		return True
	case syntax.InstRuneAnyNotNL:
		return eb.Not(eb.Eq(r, c('\n')))
	}
	rs := in.Rune
	out := False
	if len(rs) == 1 {
		out = eb.Eq(r, c(rs[0]))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for x := unicode.SimpleFold(rs[0]); x != rs[0]; x = unicode.SimpleFold(x) {
				out = eb.Or(out, eb.Eq(r, c(x)))
			}
		}
		return out
	}
	for i := 0; i+1 < len(rs); i += 2 {
		out = eb.Or(out, eb.And(eb.Cmp(OUle, c(rs[i]), r), eb.Cmp(OUle, r, c(rs[i+1]))))
	}
	return out
}

func (m *reRun) isWord(i int) bool {
	if i < 0 || i >= m.s.Len() {
		return false
	}
	b := m.s.at(i)
	eb := m.w.eb
	in := func(lo, hi byte) *Expr {
		return eb.And(eb.Cmp(OUle, const8[lo], b), eb.Cmp(OUle, b, const8[hi]))
	}
	return m.w.branch(eb.Or(eb.Or(in('a', 'z'), in('A', 'Z')), eb.Or(in('0', '9'), eb.Eq(b, const8['_']))))
}

func (m *reRun) empty(op syntax.EmptyOp, i int) bool {
	nl := func(k int) bool {
		return m.w.branch(m.w.eb.Eq(m.s.at(k), const8['\n']))
	}
	if op&syntax.EmptyBeginText != 0 && i != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && i != m.s.Len() {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && i != 0 && !nl(i-1) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && i != m.s.Len() && !nl(i) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := m.isWord(i-1) != m.isWord(i)
		if op&syntax.EmptyWordBoundary != 0 && !b {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

func compileRe(src string) (*nregexp, error) {
	p, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	nc := p.MaxCap()
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return &nregexp{src, prog, nc}, nil
}

func reOf(v Value) *nregexp {
	p := v.(Ptr)
	if p == nil {
		unsup("nil regexp")
	}
	n, ok := (*p).(Native)
	if !ok {
		unsup("regexp value %T", *p)
	}
	return n.v.(*nregexp)
}

func initRegexp() {
	comp := func(must bool) intrFn {
		return func(w *W, fr *frame, a []Value) Value {
			s := str(a[0])
			if !s.concrete() {
				unsup("symbolic regular expression")
			}
			re, err := compileRe(s.s)
			if err != nil {
				if must {
					w.rtPanic("regexp: Compile: " + err.Error())
				}
				return Tuple{Ptr(nil), w.mkErr(err.Error())}
			}
			p := new(Value)
			*p = Native{re}
			if must {
				return Ptr(p)
			}
			return Tuple{Ptr(p), Iface{}}
		}
	}
	intr["regexp.MustCompile"] = comp(true)
	intr["regexp.Compile"] = comp(false)
	const R = "(*regexp.Regexp)."
	intr[R+"MatchString"] = func(w *W, fr *frame, a []Value) Value {
		return mkBool(w.reMatch(reOf(a[0]), w.asStr(a[1]), 0) != nil)
	}
	intr[R+"Match"] = intr[R+"MatchString"]
	intr[R+"String"] = func(w *W, fr *frame, a []Value) Value { return cstr(reOf(a[0]).src) }
	intr[R+"NumSubexp"] = func(w *W, fr *frame, a []Value) Value { return int64c(reOf(a[0]).ncap) }
	intr[R+"FindStringSubmatch"] = func(w *W, fr *frame, a []Value) Value {
		s := w.asStr(a[1])
		m := w.reMatch(reOf(a[0]), s, 0)
		if m == nil {
			return Slice(nil)
		}
		out := Slice{}
		for i := 0; i < len(m); i += 2 {
			if m[i] < 0 || m[i+1] < 0 {
				out = append(out, Str{})
			} else {
				out = append(out, s.slice(m[i], m[i+1]))
			}
		}
		return out
	}
	intr[R+"FindStringSubmatchIndex"] = func(w *W, fr *frame, a []Value) Value {
		m := w.reMatch(reOf(a[0]), w.asStr(a[1]), 0)
		if m == nil {
			return Slice(nil)
		}
		out := Slice{}
		for _, x := range m {
			out = append(out, int64c(x))
		}
		return out
	}
	intr[R+"FindString"] = func(w *W, fr *frame, a []Value) Value {
		s := w.asStr(a[1])
		m := w.reMatch(reOf(a[0]), s, 0)
		if m == nil {
			return Str{}
		}
		return s.slice(m[0], m[1])
	}
	intr[R+"FindStringIndex"] = func(w *W, fr *frame, a []Value) Value {
		m := w.reMatch(reOf(a[0]), w.asStr(a[1]), 0)
		if m == nil {
			return Slice(nil)
		}
		return Slice{int64c(m[0]), int64c(m[1])}
	}
	// all returns the successive non-overlapping matches as package regexp does.
	all := func(w *W, re *nregexp, s Str, n int) [][]int {
		var out [][]int
		pos, prevEnd := 0, -1
		for (n < 0 || len(out) < n) && pos <= s.Len() {
			m := w.reMatch(re, s, pos)
			if m == nil {
				break
			}
			accept := true
			if m[1] == pos {
				if m[0] == prevEnd {
					accept = false
				}
				if pos < s.Len() {
					_, k := w.decodeRune(s, pos)
					pos += k
				} else {
					pos = s.Len() + 1
				}
			} else {
				pos = m[1]
			}
			prevEnd = m[1]
			if accept {
				out = append(out, m)
			}
		}
		return out
	}
	intr[R+"FindAllString"] = func(w *W, fr *frame, a []Value) Value {
		s := w.asStr(a[1])
		ms := all(w, reOf(a[0]), s, int(w.conInt(a[2])))
		if ms == nil {
			return Slice(nil)
		}
		out := Slice{}
		for _, m := range ms {
			out = append(out, s.slice(m[0], m[1]))
		}
		return out
	}
	intr[R+"ReplaceAllString"] = func(w *W, fr *frame, a []Value) Value {
		s, repl := w.asStr(a[1]), str(a[2])
		if !repl.concrete() {
			unsup("symbolic replacement")
		}
		for i := 0; i < len(repl.s); i++ {
			if repl.s[i] == '$' {
				unsup("replacement with $")
			}
		}
		out := Str{}
		p := 0
		for _, m := range all(w, reOf(a[0]), s, -1) {
			out = concat(out, s.slice(p, m[0]))
			out = concat(out, repl)
			p = m[1]
		}
		return concat(out, s.slice(p, s.Len()))
	}
}
