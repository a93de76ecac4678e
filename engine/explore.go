package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dec is one recorded decision.
type dec struct {
	kind uint8 // 'b' branch, 'c' concretisation attempt, 'n' choose
	bit  bool
	val  uint64
}

type workItem struct {
	prefix []dec
	model  []uint64 // by variable index; nil when unknown
}

// path outcomes used for control flow
type pathEnd struct{ why string }
type targetPanic struct{ v Iface }

type undoRec struct {
	p   Ptr
	old Value
	f   func()
}

type tapeEnt struct {
	e *Expr // symbolic or constant
}

type Failure struct {
	Harness string
	Msg     string
	Kind    string // "assert" or "panic"
	Tapes   [][]uint64
	Count   int
}

type Sample struct {
	Harness string
	Tape    []uint64
	Digest  []string
	Reached []string
}

// HarnessResult aggregates one harness run.
type HarnessResult struct {
	Name        string
	Paths       int64
	Completed   int64
	Infeasible  int64 // assumption failed
	Forks       int64
	Instrs      int64
	Asserts     int64 // assertion instances
	Audited     int64 // verdicts reached without the solver and confirmed by it
	AuditBad    int64
	Discharged  int64 // assertion instances decided by simplification
	AssertQ     int64 // assertion queries sent to the solver
	Unsupported map[string]int
	Inconcl     map[string]int
	BudgetHit   bool
	StepLimit   int64
	Failures    map[string]*Failure
	Samples     []Sample
	Reached     map[string]int
	WantReach   map[string]bool
	Bounds      map[string]string
	Funcs       map[string]int
	Wall        time.Duration
	Internal    []string
}

type Explorer struct {
	audN, auds int64
	eng     *Engine
	h       *ssa.Function
	mu      sync.Mutex
	cond    *sync.Cond
	work    []workItem
	busy    int
	stop    atomic.Bool
	res     *HarnessResult
	dead    time.Time
	maxFail int
	stats   *solverStats
	rnd     uint64
	nSample int
}

type W struct {
	eng  *Engine
	ex   *Explorer
	eb   *EB
	sol  *Solver
	vars []*Expr // this path's variables by index (Expr.k)

	// per path
	prefix  []dec
	pos     int
	trail   []dec
	doms    [][4]uint64
	ent     []bool
	cons    []*Expr
	consV   [][]int
	consSet map[*Expr]bool
	model   []uint64
	tape    []*Expr
	nv      int
	nfresh  int
	steps   int64
	depth   int
	digest  []obsRec
	reached []string

	undo      []undoRec
	journalOn bool
	globals   map[*ssa.Global]Ptr
	gslots    []Ptr
	initDone  map[*ssa.Package]bool
	initing   int
	varsMemo  map[*Expr][]int
	qcache    map[string]qres
	nat       map[string]any
	fmtBytes  map[string]Value
	growCache map[[3]int]int
	mapPerm   bool
	permCount int
	freshF    map[string]Value
	curFn     *ssa.Function
	funcs     map[*ssa.Function]int
	stackFns  []*ssa.Function
	spec      int // > 0 while executing ahead of a decision
	merges    int64
}

type obsRec struct {
	name string
	v    Value
}

type qres struct {
	r satRes
	m map[*Expr]uint64
}

func (e *Engine) newWorker(ex *Explorer) *W {
	w := &W{eng: e, ex: ex, eb: newEB(), globals: map[*ssa.Global]Ptr{}, initDone: map[*ssa.Package]bool{},
		varsMemo: map[*Expr][]int{}, qcache: map[string]qres{}, nat: map[string]any{}, growCache: map[[3]int]int{}, funcs: map[*ssa.Function]int{}}
	w.sol = newSolver(e.solverBin, e.solverTimeout, ex.stats)
	return w
}

func (w *W) resetEB() {
	w.eb = newEB()
	w.vars = nil
	w.varsMemo = map[*Expr][]int{}
	w.qcache = map[string]qres{}
	w.sol.stop()
}

// ---- variables ----

func (w *W) newVar(width uint8) *Expr {
	i := len(w.vars)
	v := w.eb.varOf(fmt.Sprintf("v%d_%d", i, width), width)
	v.k = uint64(i)
	w.vars = append(w.vars, v)
	var s [4]uint64
	if width <= 8 {
		n := domSize(v)
		for k := 0; k < n; k++ {
			s[k>>6] |= 1 << (k & 63)
		}
	}
	w.doms = append(w.doms, s)
	w.ent = append(w.ent, false)
	for len(w.model) <= i {
		w.model = append(w.model, 0)
	}
	return v
}

func (w *W) varsOf(e *Expr) []int {
	if v, ok := w.varsMemo[e]; ok {
		return v
	}
	var out []*Expr
	e.collect(map[*Expr]bool{}, &out)
	ix := make([]int, 0, len(out))
	for _, v := range out {
		ix = append(ix, int(v.k))
	}
	sort.Ints(ix)
	w.varsMemo[e] = ix
	return ix
}

func (w *W) evalModel(e *Expr) uint64 {
	if e.op == OConst {
		return e.k
	}
	return e.eval(func(v *Expr) uint64 {
		i := int(v.k)
		if i < len(w.model) {
			return w.model[i]
		}
		return 0
	}, map[*Expr]uint64{})
}

// ---- constraints ----

func (w *W) addCons(e *Expr) {
	if e.isTrue() {
		return
	}
	if e.op == OAnd {
		w.addCons(e.a)
		w.addCons(e.b)
		return
	}
	if e.op == ONot && e.a.op == OOr {
		w.addCons(w.eb.Not(e.a.a))
		w.addCons(w.eb.Not(e.a.b))
		return
	}
	if e.isFalse() {
		panic(pathEnd{"contradiction"})
	}
	if e.sv != nil && !e.mv {
		i := int(e.sv.k)
		w.doms[i] = setAnd(&w.doms[i], e.boolSet())
		return
	}
	if w.consSet[e] {
		return
	}
	w.consSet[e] = true
	vs := w.varsOf(e)
	w.cons = append(w.cons, e)
	w.consV = append(w.consV, vs)
	for _, i := range vs {
		w.ent[i] = true
	}
}

// related gathers the constraints connected to the variables of e.
func (w *W) related(e *Expr) ([]*Expr, []int) {
	in := map[int]bool{}
	var queue []int
	for _, i := range w.varsOf(e) {
		if !in[i] {
			in[i] = true
			queue = append(queue, i)
		}
	}
	used := make([]bool, len(w.cons))
	var out []*Expr
	for changed := true; changed; {
		changed = false
		for k := range w.cons {
			if used[k] {
				continue
			}
			hit := false
			for _, i := range w.consV[k] {
				if in[i] {
					hit = true
					break
				}
			}
			if hit {
				used[k] = true
				changed = true
				out = append(out, w.cons[k])
				for _, i := range w.consV[k] {
					if !in[i] {
						in[i] = true
						queue = append(queue, i)
					}
				}
			}
		}
	}
	sort.Ints(queue)
	return out, queue
}

// query decides pc ∧ e; on sat the second result is a full model.
func (w *W) query(e *Expr) (satRes, []uint64) {
	if e.isFalse() {
		return rUnsat, nil
	}
	cons, vs := w.related(e)
	var key []byte
	put := func(x uint64) {
		for k := 0; k < 8; k++ {
			key = append(key, byte(x>>(8*k)))
		}
	}
	put(uint64(e.id))
	ids := make([]int, len(cons))
	for i, c := range cons {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		put(uint64(i))
	}
	put(^uint64(0))
	var doms []domC
	var vars []*Expr
	for _, i := range vs {
		v := w.vars[i]
		vars = append(vars, v)
		if v.w <= 8 {
			doms = append(doms, domC{v, w.doms[i]})
			put(uint64(i))
			for _, x := range w.doms[i] {
				put(x)
			}
		}
	}
	ks := string(key)
	q, ok := w.qcache[ks]
	if ok {
		w.ex.stats.cached.Add(1)
	} else {
		r, m := w.sol.check(append(cons, e), doms, vars)
		q = qres{r, m}
		if r != rUnknown {
			w.qcache[ks] = q
		}
	}
	if q.r != rSat {
		return q.r, nil
	}
	model := append([]uint64(nil), w.model...)
	for v, x := range q.m {
		model[int(v.k)] = x
	}
	return rSat, model
}

func (w *W) inconclusive(what string) {
	w.ex.mu.Lock()
	w.ex.res.Inconcl[what]++
	w.ex.mu.Unlock()
}

func (w *W) record(d dec) { w.trail = append(w.trail, d) }

func (w *W) pushAlt(d dec, model []uint64) {
	p := make([]dec, len(w.trail)+1)
	copy(p, w.trail)
	p[len(w.trail)] = d
	if forkProf {
		w.profFork()
	}
	w.ex.push(workItem{p, model})
}

// VERIF_FORKS=1 prints where a harness forks (innermost functions), for tuning harnesses.
var forkProf = os.Getenv("VERIF_FORKS") != ""
var forkMu sync.Mutex
var forkSites = map[string]int{}

func (w *W) profFork() {
	s := ""
	for i, k := len(w.stackFns)-1, 0; i >= 0 && k < 3; i, k = i-1, k+1 {
		s += " < " + w.stackFns[i].String()
	}
	forkMu.Lock()
	forkSites[s]++
	forkMu.Unlock()
}

func dumpForks() {
	var ks []string
	for k := range forkSites {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkSites[ks[i]] > forkSites[ks[j]] })
	for i, k := range ks {
		if i > 25 {
			break
		}
		fmt.Printf("  forks %9d %s\n", forkSites[k], k)
	}
	forkSites = map[string]int{}
}

func (ex *Explorer) push(it workItem) {
	ex.mu.Lock()
	ex.work = append(ex.work, it)
	ex.res.Forks++
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (w *W) take(kind uint8) (dec, bool) {
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		if d.kind != kind {
			panic(fmt.Sprintf("decision mismatch: want %c have %c at %d", kind, d.kind, w.pos-1))
		}
		w.record(d)
		return d, true
	}
	return dec{}, false
}

// branch decides a condition, forking when both outcomes are possible.
func (w *W) branch(c0 *Expr) bool {
	c := w.simp(c0)
	if c.op == OConst {
		w.audit(c0, c.k == 1)
		return c.k == 1
	}
	if w.initing > 0 {
		unsup("symbolic branch during initialisation")
	}
	single := c.sv != nil && !c.mv
	var t, f [4]uint64
	vi := -1
	if single {
		vi = int(c.sv.k)
		t = setAnd(&w.doms[vi], c.boolSet())
		f = setMinus(&w.doms[vi], c.boolSet())
		if setEmpty(&t) {
			w.audit(c, false)
			return false
		}
		if setEmpty(&f) {
			w.audit(c, true)
			return true
		}
	} else {
		if w.consSet[c] {
			return true
		}
		if n := w.eb.Not(c); w.consSet[n] {
			return false
		}
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if d, ok := w.take('b'); ok {
		if d.val == 1 { // implied by the constraints, as found by interval reasoning
			return d.bit
		}
		if d.bit {
			w.addCons(c)
		} else {
			w.addCons(w.eb.Not(c))
		}
		return d.bit
	}
	if single && !w.ent[vi] {
		cur := w.model[vi]
		inT := t[cur>>6]>>(cur&63)&1 == 1
		m := append([]uint64(nil), w.model...)
		if inT {
			m[vi] = uint64(setMin(&f))
		} else {
			m[vi] = uint64(setMin(&t))
		}
		w.pushAlt(dec{kind: 'b', bit: !inT}, m)
		w.record(dec{kind: 'b', bit: inT})
		if inT {
			w.doms[vi] = t
		} else {
			w.doms[vi] = f
		}
		return inT
	}
	// interval reasoning
	if !single {
		if v, ok := w.rngBool(c); ok {
			w.audit(c, v)
			w.record(dec{kind: 'b', bit: v, val: 1})
			return v
		}
	}
	cur := w.evalModel(c) == 1
	other := c
	if cur {
		other = w.eb.Not(c)
	}
	r, m := w.query(other)
	switch r {
	case rSat:
		w.pushAlt(dec{kind: 'b', bit: !cur}, m)
	case rUnknown:
		w.inconclusive("branch feasibility unknown")
	}
	w.record(dec{kind: 'b', bit: cur})
	if cur {
		w.addCons(c)
	} else {
		w.addCons(w.eb.Not(c))
	}
	return cur
}

// audit has the SMT solver confirm some of the verdicts which term rewriting and interval reasoning reached without it.
func (w *W) audit(c *Expr, verdict bool) {
	if c.op == OConst || w.initing > 0 {
		return
	}
	n := atomic.AddInt64(&w.ex.audN, 1)
	if n > 16 && n&(n-1) != 0 && n%2048 != 0 {
		return
	}
	if atomic.AddInt64(&w.ex.auds, 1) > 48 {
		return
	}
	e := c
	if verdict {
		e = w.eb.Not(c)
	}
	r := rUnsat
	if !e.isFalse() {
		cons, vs := w.related(e)
		var doms []domC
		for _, i := range vs {
			if v := w.vars[i]; v.w <= 8 {
				doms = append(doms, domC{v, w.doms[i]})
			}
		}
		r, _ = w.sol.check(append(cons, e), doms, nil)
	}
	w.ex.mu.Lock()
	defer w.ex.mu.Unlock()
	switch r {
	case rUnsat:
		w.ex.res.Audited++
	case rSat:
		w.ex.res.AuditBad++
	}
}

// assume restricts the path.
func (w *W) assume(c *Expr) {
	if c.op == OAnd {
		w.assume(c.a)
		w.assume(c.b)
		return
	}
	c = w.simp(c)
	if c.op == OConst {
		if c.k == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if c.sv != nil && !c.mv {
		i := int(c.sv.k)
		t := setAnd(&w.doms[i], c.boolSet())
		if setEmpty(&t) {
			panic(pathEnd{"assume"})
		}
		if !w.ent[i] {
			w.doms[i] = t
			if cur := w.model[i]; t[cur>>6]>>(cur&63)&1 == 0 {
				w.model[i] = uint64(setMin(&t))
			}
			return
		}
	}
	if d, ok := w.take('a'); ok {
		if !d.bit {
			panic(pathEnd{"assume"})
		}
		w.addCons(c)
		return
	}
	if w.evalModel(c) != 1 {
		r, m := w.query(c)
		switch r {
		case rSat:
			w.model = m
		case rUnsat:
			panic(pathEnd{"assume"})
		default:
			w.inconclusive("assumption unknown")
			panic(pathEnd{"assume unknown"})
		}
	}
	w.record(dec{kind: 'a', bit: true})
	w.addCons(c)
}

// concretize forks over the values of e.
func (w *W) concretize(e *Expr) uint64 {
	if e.op == OConst {
		return e.k
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	for {
		if d, ok := w.take('c'); ok {
			c := w.eb.Eq(e, mkConst(e.w, d.val))
			if d.bit {
				w.addCons(c)
				return d.val
			}
			w.addCons(w.eb.Not(c))
			continue
		}
		v := w.evalModel(e)
		c := w.eb.Eq(e, mkConst(e.w, v))
		if !c.isConst() {
			r, m := rSat, []uint64(nil)
			n := w.eb.Not(c)
			if n.sv != nil && !n.mv && !w.ent[int(n.sv.k)] {
				i := int(n.sv.k)
				f := setAnd(&w.doms[i], n.boolSet())
				if setEmpty(&f) {
					r = rUnsat
				} else {
					m = append([]uint64(nil), w.model...)
					m[i] = uint64(setMin(&f))
				}
			} else {
				r, m = w.query(n)
			}
			switch r {
			case rSat:
				w.pushAlt(dec{kind: 'c', val: v}, m)
			case rUnknown:
				w.inconclusive("concretisation unknown")
			}
		}
		w.record(dec{kind: 'c', bit: true, val: v})
		w.addCons(c)
		return v
	}
}

// choose forks over 0..n-1 (concrete).
func (w *W) choose(n int) int {
	if n <= 0 {
		panic(pathEnd{"choose from nothing"})
	}
	if n == 1 {
		return 0
	}
	if d, ok := w.take('n'); ok {
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		w.pushAlt(dec{kind: 'n', val: uint64(i)}, append([]uint64(nil), w.model...))
	}
	w.record(dec{kind: 'n', val: 0})
	return 0
}

func (w *W) tapeValues(model []uint64) []uint64 {
	env := func(v *Expr) uint64 {
		i := int(v.k)
		if i < len(model) {
			return model[i]
		}
		return 0
	}
	out := make([]uint64, len(w.tape))
	for i, e := range w.tape {
		out[i] = e.eval(env, nil)
	}
	return out
}

// assert checks a property assertion on the current path.
func (w *W) assert(c *Expr, msg string) {
	ex := w.ex
	atomic.AddInt64(&ex.res.Asserts, 1)
	c0 := c
	c = w.simp(c)
	if c.isTrue() {
		atomic.AddInt64(&ex.res.Discharged, 1)
		w.audit(c0, true)
		return
	}
	// is this the first time this point is reached on this prefix?  During replay of a prefix the verdict is recorded.
	if d, ok := w.take('v'); ok {
		if !d.bit {
			panic(pathEnd{"assert"})
		}
		w.addCons(c)
		return
	}
	n := w.eb.Not(c)
	atomic.AddInt64(&ex.res.AssertQ, 1)
	var r satRes
	var m []uint64
	if n.isConst() {
		r, m = rSat, w.model
	} else {
		r, m = w.query(n)
	}
	switch r {
	case rUnsat:
		w.record(dec{kind: 'v', bit: true})
		return
	case rUnknown:
		w.inconclusive("assertion unknown: " + msg)
		w.record(dec{kind: 'v', bit: true})
		return
	}
	w.fail("assert", msg, m)
	// continue on the part of the path where the assertion holds
	if c.isFalse() {
		panic(pathEnd{"assert"})
	}
	if w.evalModel(c) != 1 {
		r, m2 := w.query(c)
		if r != rSat {
			panic(pathEnd{"assert"})
		}
		w.model = m2
	}
	w.record(dec{kind: 'v', bit: true})
	w.addCons(c)
}

func (w *W) fail(kind, msg string, model []uint64) {
	ex := w.ex
	tape := w.tapeValues(model)
	ex.mu.Lock()
	defer ex.mu.Unlock()
	k := kind + ": " + msg
	f := ex.res.Failures[k]
	if f == nil {
		f = &Failure{Harness: ex.h.Name(), Msg: msg, Kind: kind}
		ex.res.Failures[k] = f
	}
	if len(f.Tapes) < 8 {
		f.Tapes = append(f.Tapes, tape)
	}
	f.Count++
	full := msg
	if kind == "panic" {
		full = "panic: " + msg
	}
	if f.Count >= 60 && !ex.eng.known(ex.h.Name(), full) {
		ex.res.BudgetHit = true
		ex.stop.Store(true)
		ex.cond.Broadcast()
	}
}

// ---- intervals ----

type ival struct{ lo, hi uint64 }

func (w *W) rng(e *Expr, memo map[*Expr]ival) ival {
	if e.op == OConst {
		return ival{e.k, e.k}
	}
	if r, ok := memo[e]; ok {
		return r
	}
	m := mask(e.w)
	r := ival{0, m}
	switch e.op {
	case OVar:
		if e.w <= 8 {
			d := &w.doms[int(e.k)]
			lo := setMin(d)
			if lo >= 0 {
				hi := 0
				for i := 255; i >= 0; i-- {
					if d[i>>6]>>(i&63)&1 == 1 {
						hi = i
						break
					}
				}
				r = ival{uint64(lo), uint64(hi)}
			}
		}
	case OZext:
		r = w.rng(e.a, memo)
	case OAdd:
		a, b := w.rng(e.a, memo), w.rng(e.b, memo)
		if a.hi <= m-b.hi {
			r = ival{a.lo + b.lo, a.hi + b.hi}
		} else if e.b.op == OConst && a.lo > m-e.b.k {
			// every value wraps (subtraction of a constant)
			r = ival{(a.lo + e.b.k) & m, (a.hi + e.b.k) & m}
		}
	case OSub:
		a, b := w.rng(e.a, memo), w.rng(e.b, memo)
		if a.lo >= b.hi {
			r = ival{a.lo - b.hi, a.hi - b.lo}
		}
	case OMul:
		a, b := w.rng(e.a, memo), w.rng(e.b, memo)
		if b.hi == 0 || a.hi <= m/b.hi {
			r = ival{a.lo * b.lo, a.hi * b.hi}
		}
	case OUdiv:
		if e.b.op == OConst && e.b.k != 0 {
			a := w.rng(e.a, memo)
			r = ival{a.lo / e.b.k, a.hi / e.b.k}
		}
	case OUrem:
		if e.b.op == OConst && e.b.k != 0 {
			a := w.rng(e.a, memo)
			if a.hi < e.b.k {
				r = a
			} else {
				r = ival{0, e.b.k - 1}
			}
		}
	case OBand:
		a, b := w.rng(e.a, memo), w.rng(e.b, memo)
		r = ival{0, min(a.hi, b.hi)}
	case OLshr:
		if e.b.op == OConst && e.b.k < 64 {
			a := w.rng(e.a, memo)
			r = ival{a.lo >> e.b.k, a.hi >> e.b.k}
		}
	case OIte:
		a, b := w.rng(e.b, memo), w.rng(e.c, memo)
		r = ival{min(a.lo, b.lo), max(a.hi, b.hi)}
	case OTable:
		a := w.rng(e.a, memo)
		if a.lo < uint64(len(e.tab)) {
			r = ival{m, 0}
			for i := a.lo; i <= a.hi && i < uint64(len(e.tab)); i++ {
				r.lo = min(r.lo, e.tab[i])
				r.hi = max(r.hi, e.tab[i])
			}
		}
	case OTrunc:
		a := w.rng(e.a, memo)
		if a.hi <= m {
			r = a
		}
	}
	memo[e] = r
	return r
}

func (w *W) rngBool(c *Expr) (bool, bool) {
	neg := false
	for c.op == ONot {
		neg = !neg
		c = c.a
	}
	switch c.op {
	case OUlt, OUle, OSlt, OSle, OEq:
	default:
		return false, false
	}
	if c.a.w == 0 {
		return false, false
	}
	memo := map[*Expr]ival{}
	a, b := w.rng(c.a, memo), w.rng(c.b, memo)
	op := c.op
	if op == OSlt || op == OSle {
		half := uint64(1) << (c.a.w - 1)
		if a.hi >= half || b.hi >= half {
			return false, false
		}
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	switch op {
	case OUlt:
		if a.hi < b.lo {
			return !neg, true
		}
		if a.lo >= b.hi {
			return neg, true
		}
	case OUle:
		if a.hi <= b.lo {
			return !neg, true
		}
		if a.lo > b.hi {
			return neg, true
		}
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return neg, true
		}
	}
	return false, false
}

// ---- exploration loop ----

func (e *Engine) explore(h *ssa.Function, stats *solverStats, budget time.Duration) *HarnessResult {
	res := &HarnessResult{Name: h.Name(), Unsupported: map[string]int{}, Inconcl: map[string]int{}, Failures: map[string]*Failure{},
		Reached: map[string]int{}, WantReach: map[string]bool{}, Bounds: map[string]string{}, Funcs: map[string]int{}}
	ex := &Explorer{eng: e, h: h, res: res, stats: stats, dead: time.Now().Add(budget), rnd: uint64(e.seed)*0x9E3779B97F4A7C15 + 1, nSample: e.nSample}
	ex.cond = sync.NewCond(&ex.mu)
	ex.work = []workItem{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	timer := time.AfterFunc(budget, func() {
		ex.stop.Store(true)
		ex.cond.Broadcast()
	})
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := e.newWorker(ex)
			defer w.sol.stop()
			for {
				ex.mu.Lock()
				for len(ex.work) == 0 && ex.busy > 0 && !ex.stop.Load() {
					ex.cond.Wait()
				}
				if len(ex.work) == 0 || ex.stop.Load() {
					if len(ex.work) > 0 {
						res.BudgetHit = true
					}
					ex.mu.Unlock()
					ex.cond.Broadcast()
					break
				}
				it := ex.work[len(ex.work)-1]
				ex.work = ex.work[:len(ex.work)-1]
				ex.busy++
				ex.mu.Unlock()
				w.runPath(it)
				ex.mu.Lock()
				ex.busy--
				ex.mu.Unlock()
				ex.cond.Broadcast()
				if len(w.eb.cons) > 400000 {
					w.resetEB()
				}
			}
			ex.mu.Lock()
			for f, n := range w.funcs {
				res.Funcs[f.String()] += n
			}
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
	timer.Stop()
	res.Wall = time.Since(t0)
	return res
}

func (w *W) runPath(it workItem) {
	ex := w.ex
	w.prefix, w.pos = it.prefix, 0
	w.trail = w.trail[:0]
	w.vars = w.vars[:0]
	w.doms = w.doms[:0]
	w.ent = w.ent[:0]
	w.cons = w.cons[:0]
	w.consV = w.consV[:0]
	w.consSet = map[*Expr]bool{}
	w.model = append([]uint64(nil), it.model...)
	w.tape = w.tape[:0]
	w.nv, w.nfresh = 0, 0
	w.steps, w.depth = 0, 0
	w.digest = nil
	w.reached = nil
	w.fmtBytes = nil
	w.freshF = nil
	w.mapPerm = false
	w.permCount = 0
	w.initing, w.spec = 0, 0
	outcome, detail := "done", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					outcome, detail = "end", r.why
				case targetPanic:
					outcome, detail = "panic", w.panicText(r.v)
				case unsupported:
					outcome, detail = "unsupported", r.msg
					if os.Getenv("VERIF_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "unsupported: %s\n%s\n", r.msg, w.stackTrace())
					}
				default:
					outcome, detail = "internal", fmt.Sprint(r)
					if os.Getenv("VERIF_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "internal: %v\n%s\n%s\n", r, w.stackTrace(), debug.Stack())
					}
				}
			}
		}()
		w.journalOn = false
		w.ensureInit(ex.h.Pkg)
		w.journalOn = true
		w.stackFns = w.stackFns[:0]
		w.callFn(nil, ex.h, nil, nil)
	}()
	if outcome == "panic" {
		w.fail("panic", detail, w.model)
	}
	var smp *Sample
	if outcome == "done" {
		ex.mu.Lock()
		// reservoir sampling of completed paths for replay against the real code
		ex.rnd ^= ex.rnd << 13
		ex.rnd ^= ex.rnd >> 7
		ex.rnd ^= ex.rnd << 17
		n := ex.res.Completed + 1
		slot := -1
		if len(ex.res.Samples) < ex.nSample {
			slot = len(ex.res.Samples)
			ex.res.Samples = append(ex.res.Samples, Sample{})
		} else if k := int(ex.rnd % uint64(n)); k < ex.nSample {
			slot = k
		}
		ex.mu.Unlock()
		if slot >= 0 {
			smp = &Sample{Harness: ex.h.Name(), Tape: w.tapeValues(w.model), Reached: append([]string(nil), w.reached...)}
			for _, o := range w.digest {
				smp.Digest = append(smp.Digest, o.name+"="+w.digestOf(o.v))
			}
			ex.mu.Lock()
			ex.res.Samples[slot] = *smp
			ex.mu.Unlock()
		}
	}
	// undo heap effects
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := &w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	w.undo = w.undo[:0]
	w.journalOn = false

	ex.mu.Lock()
	r := ex.res
	r.Paths++
	r.Instrs += w.steps
	switch outcome {
	case "done":
		r.Completed++
		for _, x := range w.reached {
			r.Reached[x]++
		}
	case "end":
		r.Infeasible++
		if detail == "steps" {
			r.StepLimit++
		}
	case "unsupported":
		r.Unsupported[detail]++
	case "internal":
		r.Internal = append(r.Internal, detail)
	}
	ex.mu.Unlock()
}

func (w *W) panicText(v Iface) string {
	switch x := v.v.(type) {
	case Str:
		return x.String()
	case Ptr:
		// *errors.errorString and friends
		if x != nil {
			if s, ok := (*x).(Struct); ok {
				for _, f := range s {
					if fs, ok := f.(Str); ok {
						return fs.String()
					}
				}
			}
		}
	}
	if v.t != nil {
		return "value of type " + types.TypeString(v.t, nil)
	}
	return "nil"
}

func (w *W) digestOf(v Value) string {
	env := func(x *Expr) uint64 {
		i := int(x.k)
		if i < len(w.model) {
			return w.model[i]
		}
		return 0
	}
	switch v := v.(type) {
	case *Expr:
		return fmt.Sprint(v.eval(env, map[*Expr]uint64{}))
	case Str:
		out := make([]byte, v.Len())
		for i := range out {
			out[i] = byte(v.at(i).eval(env, map[*Expr]uint64{}))
		}
		return fmt.Sprintf("%q", out)
	}
	return fmt.Sprintf("%T", v)
}

func (w *W) stackTrace() string {
	s := ""
	for i := len(w.stackFns) - 1; i >= 0 && i > len(w.stackFns)-25; i-- {
		s += "  " + w.stackFns[i].String() + "\n"
	}
	return s
}

// wantReach collects the witness labels of a harness: constant arguments of vpReach in it and in the functions it uses.
func (e *Engine) wantReach(pkg *ssa.Package, h *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := c.Common().StaticCallee()
				if t == nil {
					continue
				}
				if t.Name() == "vpReach" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
						out[constant.StringVal(k.Value)] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(h)
	return out
}
