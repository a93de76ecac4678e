package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type satRes int

const (
	rSat satRes = iota
	rUnsat
	rUnknown
)

type solverStats struct {
	queries, sat, unsat, unknown, errors, cached atomic.Int64
	nanos                                        atomic.Int64
}

// Solver drives one z3 process over a pipe.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	bw      *bufio.Writer
	defined map[*Expr]bool // defined (or declared) at base level
	stats   *solverStats
	bin     string
	timeout int // ms
	nq      int
	lastErr string
}

func newSolver(bin string, timeoutMS int, st *solverStats) *Solver {
	return &Solver{bin: bin, timeout: timeoutMS, stats: st}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.bw = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Expr]bool{}
	s.nq = 0
	fmt.Fprintf(s.bw, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(e *Expr) string {
	if e.w == 0 {
		if e.k == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", e.k, e.w)
}

func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constSMT(e)
	case OVar:
		return "|" + e.name + "|"
	}
	return "e" + strconv.Itoa(int(e.id))
}

// define makes every node of e available at base level.
func (s *Solver) define(e *Expr) {
	if e.op == OConst || s.defined[e] {
		return
	}
	s.defined[e] = true
	if e.op == OVar {
		fmt.Fprintf(s.bw, "(declare-const |%s| %s)\n", e.name, sortName(e.w))
		return
	}
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			s.define(x)
		}
	}
	var body string
	switch e.op {
	case OZext:
		if e.a.w == 0 {
			body = fmt.Sprintf("(ite %s (_ bv1 %d) (_ bv0 %d))", s.ref(e.a), e.w, e.w)
		} else {
			body = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
		}
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, s.ref(e.a))
	case OTable:
		// runs of equal values become range tests
		var sb strings.Builder
		n := 0
		idx := s.ref(e.a)
		i := 0
		for i < len(e.tab) {
			j := i
			for j+1 < len(e.tab) && e.tab[j+1] == e.tab[i] {
				j++
			}
			v := constSMT(mkConst(e.w, e.tab[i]))
			if j+1 >= len(e.tab) {
				sb.WriteString(v)
				break
			}
			fmt.Fprintf(&sb, "(ite (bvule %s (_ bv%d %d)) %s ", idx, j, e.a.w, v)
			n++
			i = j + 1
		}
		sb.WriteString(strings.Repeat(")", n))
		body = sb.String()
	default:
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(opSMT[e.op])
		for _, x := range [3]*Expr{e.a, e.b, e.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(s.ref(x))
			}
		}
		sb.WriteByte(')')
		body = sb.String()
	}
	fmt.Fprintf(s.bw, "(define-fun e%d () %s %s)\n", e.id, sortName(e.w), body)
}

// domSMT renders a variable's domain.
func (s *Solver) domSMT(v *Expr, set *[4]uint64) string {
	n := domSize(v)
	if v.w == 0 {
		switch set[0] & 3 {
		case 3:
			return ""
		case 2:
			return s.ref(v)
		case 1:
			return "(not " + s.ref(v) + ")"
		}
		return "false"
	}
	has := func(i int) bool { return set[i>>6]>>(i&63)&1 == 1 }
	var parts []string
	for i := 0; i < n; {
		if !has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && has(j+1) {
			j++
		}
		switch {
		case i == 0 && j == n-1:
			return ""
		case i == j:
			parts = append(parts, fmt.Sprintf("(= %s (_ bv%d %d))", s.ref(v), i, v.w))
		case i == 0:
			parts = append(parts, fmt.Sprintf("(bvule %s (_ bv%d %d))", s.ref(v), j, v.w))
		case j == n-1:
			parts = append(parts, fmt.Sprintf("(bvule (_ bv%d %d) %s)", i, v.w, s.ref(v)))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d)))", i, v.w, s.ref(v), s.ref(v), j, v.w))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

type domC struct {
	v   *Expr
	set [4]uint64
}

// check decides the conjunction and, when satisfiable, returns values for vars.
func (s *Solver) check(conj []*Expr, doms []domC, vars []*Expr) (satRes, map[*Expr]uint64) {
	t0 := time.Now()
	defer func() {
		s.stats.nanos.Add(int64(time.Since(t0)))
		if slowDir != "" && time.Since(t0) > 300*time.Millisecond {
			s.dump(conj, doms, time.Since(t0))
		}
	}()
	s.stats.queries.Add(1)
	if s.cmd != nil && (s.nq > 4000 || len(s.defined) > 200000) {
		s.stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.stats.errors.Add(1)
			s.lastErr = err.Error()
			return rUnknown, nil
		}
	}
	s.nq++
	for _, c := range conj {
		s.define(c)
	}
	for _, d := range doms {
		s.define(d.v)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.bw.WriteString("(push 1)\n")
	for _, c := range conj {
		fmt.Fprintf(s.bw, "(assert %s)\n", s.ref(c))
	}
	for _, d := range doms {
		if t := s.domSMT(d.v, &d.set); t != "" {
			fmt.Fprintf(s.bw, "(assert %s)\n", t)
		}
	}
	s.bw.WriteString("(check-sat)\n")
	if err := s.bw.Flush(); err != nil {
		return s.fail(err.Error())
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return s.fail(err.Error())
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		s.stats.unsat.Add(1)
		s.bw.WriteString("(pop 1)\n")
		return rUnsat, nil
	case "unknown":
		s.stats.unknown.Add(1)
		s.bw.WriteString("(pop 1)\n")
		return rUnknown, nil
	case "sat":
	default:
		return s.fail(line)
	}
	s.stats.sat.Add(1)
	model := map[*Expr]uint64{}
	if len(vars) > 0 {
		s.bw.WriteString("(get-value (")
		for _, v := range vars {
			s.bw.WriteString(s.ref(v))
			s.bw.WriteByte(' ')
		}
		s.bw.WriteString("))\n")
		s.bw.Flush()
		txt, err := s.readSexp()
		if err != nil {
			return s.fail(err.Error())
		}
		if !parseModel(txt, vars, model) {
			return s.fail("cannot parse model: " + txt)
		}
	}
	s.bw.WriteString("(pop 1)\n")
	return rSat, model
}

func (s *Solver) fail(msg string) (satRes, map[*Expr]uint64) {
	s.stats.errors.Add(1)
	s.lastErr = msg
	s.stop()
	return rUnknown, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

// parseModel reads ((v #x00) (v2 true) ...) in order.
func parseModel(txt string, vars []*Expr, m map[*Expr]uint64) bool {
	if strings.HasPrefix(txt, "(error") {
		return false
	}
	pos := 0
	for _, v := range vars {
		name := v.name
		i := strings.Index(txt[pos:], name)
		if i < 0 {
			return false
		}
		p := pos + i + len(name)
		if p < len(txt) && txt[p] == '|' {
			p++
		}
		for p < len(txt) && (txt[p] == ' ' || txt[p] == '\n') {
			p++
		}
		q := p
		for q < len(txt) && txt[q] != ')' {
			q++
		}
		val := strings.TrimSpace(txt[p:q])
		var x uint64
		var err error
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			x, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[v] = x
		pos = q
	}
	return true
}

var slowDir = os.Getenv("VERIF_SLOW")

// dump writes a slow query as a standalone SMT-LIB file (debugging aid).
func (s *Solver) dump(conj []*Expr, doms []domC, d time.Duration) {
	var buf strings.Builder
	t := &Solver{defined: map[*Expr]bool{}}
	t.bw = bufio.NewWriter(&buf)
	for _, c := range conj {
		t.define(c)
	}
	for _, d := range doms {
		t.define(d.v)
	}
	for _, c := range conj {
		fmt.Fprintf(t.bw, "(assert %s)\n", t.ref(c))
	}
	for _, d := range doms {
		if x := t.domSMT(d.v, &d.set); x != "" {
			fmt.Fprintf(t.bw, "(assert %s)\n", x)
		}
	}
	t.bw.WriteString("(check-sat)\n")
	t.bw.Flush()
	os.WriteFile(fmt.Sprintf("%s/%d-%dms.smt2", slowDir, s.stats.queries.Load(), d.Milliseconds()), []byte(buf.String()), 0o644)
}
