package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is the operator of a symbolic expression.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd
	OOr
	OEq  // any -> bool
	OUlt // bv -> bool
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OTable
)

var opSMT = [...]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

// Expr is an immutable, hash-consed bit-vector (w>0) or boolean (w==0) term.
type Expr struct {
	op   Op
	w    uint8
	k    uint64 // constant value, or table id
	a    *Expr
	b    *Expr
	c    *Expr
	name string
	tab  []uint64
	id   uint32
	sv   *Expr // the single small (<=8 bit) variable this term depends on
	mv   bool  // depends on more than one variable or on a wide one
	bset *[4]uint64
	vt   []uint64
	size uint32
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

var (
	constBool  [2]*Expr
	const8     [256]*Expr
	const64    [2048]*Expr
	const32    [1024]*Expr
	constIDctr uint32 = 1
)

func init() {
	for i := range constBool {
		constBool[i] = &Expr{op: OConst, w: 0, k: uint64(i)}
	}
	for i := range const8 {
		const8[i] = &Expr{op: OConst, w: 8, k: uint64(i)}
	}
	for i := range const64 {
		const64[i] = &Expr{op: OConst, w: 64, k: uint64(i)}
	}
	for i := range const32 {
		const32[i] = &Expr{op: OConst, w: 32, k: uint64(i)}
	}
}

var True, False *Expr

func init() { True, False = constBool[1], constBool[0] }

func mkConst(w uint8, k uint64) *Expr {
	k &= mask(w)
	switch w {
	case 0:
		return constBool[k&1]
	case 8:
		return const8[k]
	case 64:
		if k < uint64(len(const64)) {
			return const64[k]
		}
	case 32:
		if k < uint64(len(const32)) {
			return const32[k]
		}
	}
	return &Expr{op: OConst, w: w, k: k}
}

func mkBool(b bool) *Expr {
	if b {
		return True
	}
	return False
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.k == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.k == 0 }

type ekey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c uint64
}

// EB builds expressions (one per worker).
type EB struct {
	cons   map[ekey]*Expr
	vars   map[string]*Expr
	nextID uint32
	tabIDs map[string]uint64
}

func newEB() *EB {
	return &EB{cons: map[ekey]*Expr{}, vars: map[string]*Expr{}, nextID: 1, tabIDs: map[string]uint64{}}
}

func argKey(e *Expr) uint64 {
	if e == nil {
		return 0
	}
	if e.op == OConst {
		// constants are identified by value (width is implied by the operator context)
		h := e.k*0x9E3779B97F4A7C15 ^ uint64(e.w)<<56
		return h | 1<<63
	}
	return uint64(e.id)
}

func (eb *EB) varOf(name string, w uint8) *Expr {
	if v, ok := eb.vars[name]; ok {
		if v.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d (was %d)", name, w, v.w))
		}
		return v
	}
	v := &Expr{op: OVar, w: w, name: name, id: eb.nextID, size: 1}
	eb.nextID++
	if w <= 8 {
		v.sv = v
	} else {
		v.mv = true
	}
	eb.vars[name] = v
	return v
}

func sameExpr(a, b *Expr) bool {
	if a == b {
		return true
	}
	return a.op == OConst && b.op == OConst && a.w == b.w && a.k == b.k
}

func (eb *EB) node(op Op, w uint8, k uint64, a, b, c *Expr, tab []uint64) *Expr {
	key := ekey{op, w, k, argKey(a), argKey(b), argKey(c)}
	if e, ok := eb.cons[key]; ok {
		if (a == nil || sameExpr(e.a, a)) && (b == nil || sameExpr(e.b, b)) && (c == nil || sameExpr(e.c, c)) {
			return e
		}
	}
	e := &Expr{op: op, w: w, k: k, a: a, b: b, c: c, tab: tab, id: eb.nextID, size: 1}
	eb.nextID++
	for _, x := range [3]*Expr{a, b, c} {
		if x == nil {
			continue
		}
		e.size += x.size
		if x.mv {
			e.mv = true
		}
		if x.sv != nil {
			if e.sv == nil {
				e.sv = x.sv
			} else if e.sv != x.sv {
				e.mv = true
			}
		}
	}
	if e.mv {
		e.sv = nil
	}
	eb.cons[key] = e
	return e
}

func evalOp(op Op, w uint8, aw uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		if x == y {
			return 1
		}
		return 0
	case OUlt:
		if x < y {
			return 1
		}
		return 0
	case OUle:
		if x <= y {
			return 1
		}
		return 0
	case OSlt:
		if sx(x, aw) < sx(y, aw) {
			return 1
		}
		return 0
	case OSle:
		if sx(x, aw) <= sx(y, aw) {
			return 1
		}
		return 0
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OBnot:
		return ^x & m
	case ONeg:
		return -x & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OZext:
		return x
	case OSext:
		return uint64(sx(x, aw)) & m
	case OTrunc:
		return x & m
	}
	panic("evalOp")
}

// eval computes e under the assignment.
func (e *Expr) eval(env func(*Expr) uint64, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		return env(e)
	}
	if memo != nil {
		if v, ok := memo[e]; ok {
			return v
		}
	}
	var r uint64
	switch e.op {
	case OIte:
		if e.a.eval(env, memo) == 1 {
			r = e.b.eval(env, memo)
		} else {
			r = e.c.eval(env, memo)
		}
	case OTable:
		i := e.a.eval(env, memo)
		if i < uint64(len(e.tab)) {
			r = e.tab[i]
		}
	default:
		x := e.a.eval(env, memo)
		var y uint64
		if e.b != nil {
			y = e.b.eval(env, memo)
		}
		r = evalOp(e.op, e.w, e.a.w, x, y)
	}
	if memo != nil {
		memo[e] = r
	}
	return r
}

func domSize(v *Expr) int {
	if v.w == 0 {
		return 2
	}
	return 1 << v.w
}

// vals returns the value of a single-variable term for every value of its variable.
func (e *Expr) vals() []uint64 {
	if e.vt != nil {
		return e.vt
	}
	n := domSize(e.sv)
	out := make([]uint64, n)
	switch e.op {
	case OVar:
		for i := range out {
			out[i] = uint64(i)
		}
	case OIte:
		a, b, c := valsOf(e.a, n), valsOf(e.b, n), valsOf(e.c, n)
		for i := range out {
			if a[i] == 1 {
				out[i] = b[i]
			} else {
				out[i] = c[i]
			}
		}
	case OTable:
		a := valsOf(e.a, n)
		for i := range out {
			if a[i] < uint64(len(e.tab)) {
				out[i] = e.tab[a[i]]
			}
		}
	default:
		a := valsOf(e.a, n)
		if e.b == nil {
			for i := range out {
				out[i] = evalOp(e.op, e.w, e.a.w, a[i], 0)
			}
		} else {
			b := valsOf(e.b, n)
			for i := range out {
				out[i] = evalOp(e.op, e.w, e.a.w, a[i], b[i])
			}
		}
	}
	e.vt = out
	return out
}

var constVals = map[uint64][]uint64{}

func valsOf(e *Expr, n int) []uint64 {
	if e.op == OConst {
		out := make([]uint64, n)
		for i := range out {
			out[i] = e.k
		}
		return out
	}
	return e.vals()
}

// boolSet returns, for a single-variable boolean term, the set of variable values that make it true.
func (e *Expr) boolSet() *[4]uint64 {
	if e.bset != nil {
		return e.bset
	}
	var s [4]uint64
	for i, v := range e.vals() {
		if v == 1 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	e.bset = &s
	e.vt = nil
	return e.bset
}

func setAnd(a, b *[4]uint64) (r [4]uint64) {
	for i := range r {
		r[i] = a[i] & b[i]
	}
	return
}
func setMinus(a, b *[4]uint64) (r [4]uint64) {
	for i := range r {
		r[i] = a[i] &^ b[i]
	}
	return
}
func setEmpty(a *[4]uint64) bool { return a[0]|a[1]|a[2]|a[3] == 0 }
func setMin(a *[4]uint64) int {
	for i, x := range a {
		if x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}
func setCount(a *[4]uint64) int {
	n := 0
	for _, x := range a {
		n += bits.OnesCount64(x)
	}
	return n
}

// ---- constructors ----

func (eb *EB) Not(a *Expr) *Expr {
	if a.op == OConst {
		return mkBool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return eb.fold(eb.node(ONot, 0, 0, a, nil, nil, nil))
}

// fold turns a boolean term over one small variable into a constant when it does not depend on it.
func (eb *EB) fold(e *Expr) *Expr {
	if e.op == OConst || e.w != 0 || e.sv == nil || e.mv {
		return e
	}
	s := e.boolSet()
	if setEmpty(s) {
		return False
	}
	if setCount(s) == domSize(e.sv) {
		return True
	}
	return e
}

func (eb *EB) And(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.k == 0 {
			return False
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return False
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return False
	}
	return eb.fold(eb.node(OAnd, 0, 0, a, b, nil, nil))
}

func (eb *EB) Or(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.k == 1 {
			return True
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return True
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return True
	}
	return eb.fold(eb.node(OOr, 0, 0, a, b, nil, nil))
}

func (eb *EB) Eq(a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d vs %d", a.w, b.w))
	}
	if a == b {
		return True
	}
	if a.op == OConst && b.op == OConst {
		return mkBool(a.k == b.k)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.w == 0 {
			if b.k == 1 {
				return a
			}
			return eb.Not(a)
		}
		switch a.op {
		case OZext:
			if b.k&^mask(a.a.w) != 0 {
				return False
			}
			return eb.Eq(a.a, mkConst(a.a.w, b.k))
		case OSext:
			t := b.k & mask(a.a.w)
			if uint64(sx(t, a.a.w))&mask(a.w) != b.k {
				return False
			}
			return eb.Eq(a.a, mkConst(a.a.w, t))
		case OAdd:
			if a.b.op == OConst {
				return eb.Eq(a.a, mkConst(a.w, b.k-a.b.k))
			}
		case OSub:
			if a.b.op == OConst {
				return eb.Eq(a.a, mkConst(a.w, b.k+a.b.k))
			}
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				tb, tc := a.b.k == b.k, a.c.k == b.k
				switch {
				case tb && tc:
					return True
				case tb:
					return a.a
				case tc:
					return eb.Not(a.a)
				default:
					return False
				}
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return eb.Eq(a.a, b.a)
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return eb.Eq(a.a, b.a)
		}
		if a.op == ONeg && b.op == ONeg {
			return eb.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return eb.fold(eb.node(OEq, 0, 0, a, b, nil, nil))
}

func (eb *EB) Cmp(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("Cmp width %d vs %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return mkBool(evalOp(op, 0, a.w, a.k, b.k) == 1)
	}
	if a == b {
		return mkBool(op == OUle || op == OSle)
	}
	if op == OUlt && b.op == OConst && b.k == 0 {
		return False
	}
	if op == OUle && a.op == OConst && a.k == 0 {
		return True
	}
	// comparisons through zero extension
	if a.op == OZext && b.op == OConst {
		aw := a.a.w
		signedOK := aw < a.w
		if signedOK {
			if sx(b.k, b.w) < 0 && (op == OSlt || op == OSle) {
				return False
			}
			if b.k > mask(aw) {
				return True
			}
			o := op
			if o == OSlt {
				o = OUlt
			} else if o == OSle {
				o = OUle
			}
			return eb.Cmp(o, a.a, mkConst(aw, b.k))
		}
	}
	if b.op == OZext && a.op == OConst {
		bw := b.a.w
		if bw < b.w {
			if sx(a.k, a.w) < 0 && (op == OSlt || op == OSle) {
				return True
			}
			if a.k > mask(bw) {
				return False
			}
			o := op
			if o == OSlt {
				o = OUlt
			} else if o == OSle {
				o = OUle
			}
			return eb.Cmp(o, mkConst(bw, a.k), b.a)
		}
	}
	return eb.fold(eb.node(op, 0, 0, a, b, nil, nil))
}

func (eb *EB) Ite(c, a, b *Expr) *Expr {
	if c.op == OConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if sameExpr(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return eb.Not(c)
		}
		if a.isTrue() {
			return eb.Or(c, b)
		}
		if a.isFalse() {
			return eb.And(eb.Not(c), b)
		}
		if b.isTrue() {
			return eb.Or(eb.Not(c), a)
		}
		if b.isFalse() {
			return eb.And(c, a)
		}
	}
	return eb.fold(eb.node(OIte, a.w, 0, c, a, b, nil))
}

func (eb *EB) Bin(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %d width %d vs %d", op, a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return mkConst(a.w, evalOp(op, a.w, a.w, a.k, b.k))
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return eb.Bin(OAdd, a.a, mkConst(a.w, a.b.k+b.k))
			}
			if a.op == OSub && a.b.op == OConst {
				return eb.Bin(OAdd, a.a, mkConst(a.w, b.k-a.b.k))
			}
		}
	case OSub:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			return eb.Bin(OAdd, a, mkConst(a.w, -b.k))
		}
		if a == b {
			return mkConst(a.w, 0)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBand:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(b.w) {
				return a
			}
			if a.op == OZext && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k == mask(b.w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBxor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if a == b {
			return mkConst(a.w, 0)
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(a.w) && op != OAshr {
				return mkConst(a.w, 0)
			}
		}
	case OUdiv, OSdiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
	}
	return eb.node(op, a.w, 0, a, b, nil, nil)
}

func (eb *EB) Un(op Op, a *Expr) *Expr {
	if a.op == OConst {
		return mkConst(a.w, evalOp(op, a.w, a.w, a.k, 0))
	}
	if a.op == op && (op == ONeg || op == ONot) {
		return a.a
	}
	return eb.node(op, a.w, 0, a, nil, nil, nil)
}

func (eb *EB) Zext(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return mkConst(w, a.k)
	}
	if a.op == OZext {
		return eb.Zext(a.a, w)
	}
	return eb.node(OZext, w, 0, a, nil, nil, nil)
}

func (eb *EB) Sext(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return mkConst(w, uint64(sx(a.k, a.w)))
	}
	if a.op == OSext {
		return eb.Sext(a.a, w)
	}
	if a.op == OZext && a.a.w < a.w {
		return eb.Zext(a.a, w)
	}
	return eb.node(OSext, w, 0, a, nil, nil, nil)
}

func (eb *EB) Trunc(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return mkConst(w, a.k)
	}
	switch a.op {
	case OZext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w < w {
			return eb.Zext(a.a, w)
		}
		return eb.Trunc(a.a, w)
	case OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w < w {
			return eb.Sext(a.a, w)
		}
		return eb.Trunc(a.a, w)
	case OAdd, OSub, OMul, OBand, OBor, OBxor:
		return eb.Bin(a.op, eb.Trunc(a.a, w), eb.Trunc(a.b, w))
	}
	return eb.node(OTrunc, w, 0, a, nil, nil, nil)
}

// Conv changes the width of an integer term, extending by the source signedness.
func (eb *EB) Conv(a *Expr, w uint8, signed bool) *Expr {
	if w < a.w {
		return eb.Trunc(a, w)
	}
	if signed {
		return eb.Sext(a, w)
	}
	return eb.Zext(a, w)
}

// Table builds vals[idx] (idx must be in range on every path that uses the result).
func (eb *EB) Table(idx *Expr, vals []uint64, w uint8) *Expr {
	if idx.op == OConst {
		if idx.k < uint64(len(vals)) {
			return mkConst(w, vals[idx.k])
		}
		return mkConst(w, 0)
	}
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
			break
		}
	}
	if same {
		return mkConst(w, vals[0])
	}
	var sb strings.Builder
	for _, v := range vals {
		fmt.Fprintf(&sb, "%x,", v)
	}
	id, ok := eb.tabIDs[sb.String()]
	if !ok {
		id = uint64(len(eb.tabIDs) + 1)
		eb.tabIDs[sb.String()] = id
	}
	cp := append([]uint64(nil), vals...)
	return eb.fold(eb.node(OTable, w, id, idx, nil, nil, cp))
}

// vars collects the variables of e.
func (e *Expr) collect(seen map[*Expr]bool, out *[]*Expr) {
	if e.op == OConst || seen[e] {
		return
	}
	seen[e] = true
	if e.op == OVar {
		*out = append(*out, e)
		return
	}
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			x.collect(seen, out)
		}
	}
}
