package main

import (
	"go/token"
	"go/types"
	"math"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func binop(op token.Token, tx, ty types.Type) func(w *W, x, y Value) Value {
	width, signed, isI := basicInfo(tx)
	switch op {
	case token.EQL:
		return func(w *W, x, y Value) Value { return w.eqMixed(x, y) }
	case token.NEQ:
		return func(w *W, x, y Value) Value { return w.eb.Not(w.eqMixed(x, y)) }
	}
	if isI && width > 0 {
		switch op {
		case token.ADD:
			return func(w *W, x, y Value) Value { return w.eb.Bin(OAdd, x.(*Expr), y.(*Expr)) }
		case token.SUB:
			return func(w *W, x, y Value) Value { return w.eb.Bin(OSub, x.(*Expr), y.(*Expr)) }
		case token.MUL:
			return func(w *W, x, y Value) Value { return w.eb.Bin(OMul, x.(*Expr), y.(*Expr)) }
		case token.QUO, token.REM:
			o := OUdiv
			if op == token.REM {
				o = OUrem
			}
			if signed {
				o = OSdiv
				if op == token.REM {
					o = OSrem
				}
			}
			return func(w *W, x, y Value) Value {
				a, b := x.(*Expr), y.(*Expr)
				if w.branch(w.eb.Eq(b, mkConst(b.w, 0))) {
					w.rtPanic("integer divide by zero")
				}
				if r := w.numDiv(a, b, op == token.REM, signed); r != nil {
					return r
				}
				return w.eb.Bin(o, a, b)
			}
		case token.AND:
			return func(w *W, x, y Value) Value {
				a, b := x.(*Expr), y.(*Expr)
				if r := w.numMask(a, b); r != nil {
					return r
				}
				return w.eb.Bin(OBand, a, b)
			}
		case token.OR:
			return func(w *W, x, y Value) Value { return w.eb.Bin(OBor, x.(*Expr), y.(*Expr)) }
		case token.XOR:
			return func(w *W, x, y Value) Value { return w.eb.Bin(OBxor, x.(*Expr), y.(*Expr)) }
		case token.AND_NOT:
			return func(w *W, x, y Value) Value { return w.eb.Bin(OBand, x.(*Expr), w.eb.Un(OBnot, y.(*Expr))) }
		case token.SHL, token.SHR:
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			_, ysigned, _ := basicInfo(ty)
			return func(w *W, x, y Value) Value {
				a, b := x.(*Expr), y.(*Expr)
				if ysigned {
					if w.branch(w.eb.Cmp(OSlt, b, mkConst(b.w, 0))) {
						w.rtPanic("negative shift amount")
					}
				}
				if b.op == OConst {
					k := b.k
					if k >= uint64(a.w) {
						if o == OAshr {
							return w.eb.Bin(o, a, mkConst(a.w, uint64(a.w)-1))
						}
						return mkConst(a.w, 0)
					}
					return w.eb.Bin(o, a, mkConst(a.w, k))
				}
				var cnt *Expr
				if b.w <= a.w {
					cnt = w.eb.Zext(b, a.w)
					return w.eb.Bin(o, a, cnt)
				}
				big := w.eb.Cmp(OUle, mkConst(b.w, uint64(a.w)), b)
				r := w.eb.Bin(o, a, w.eb.Trunc(b, a.w))
				var sat *Expr
				if o == OAshr {
					sat = w.eb.Bin(o, a, mkConst(a.w, uint64(a.w)-1))
				} else {
					sat = mkConst(a.w, 0)
				}
				return w.eb.Ite(big, sat, r)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, le := OUlt, OUle
			if signed {
				lt, le = OSlt, OSle
			}
			switch op {
			case token.LSS:
				return func(w *W, x, y Value) Value { return w.eb.Cmp(lt, x.(*Expr), y.(*Expr)) }
			case token.LEQ:
				return func(w *W, x, y Value) Value { return w.eb.Cmp(le, x.(*Expr), y.(*Expr)) }
			case token.GTR:
				return func(w *W, x, y Value) Value { return w.eb.Cmp(lt, y.(*Expr), x.(*Expr)) }
			default:
				return func(w *W, x, y Value) Value { return w.eb.Cmp(le, y.(*Expr), x.(*Expr)) }
			}
		}
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			return func(w *W, x, y Value) Value { return concat(x.(Str), y.(Str)) }
		case token.LSS:
			return func(w *W, x, y Value) Value { return w.strLess(x.(Str), y.(Str), false) }
		case token.LEQ:
			return func(w *W, x, y Value) Value { return w.strLess(x.(Str), y.(Str), true) }
		case token.GTR:
			return func(w *W, x, y Value) Value { return w.strLess(y.(Str), x.(Str), false) }
		case token.GEQ:
			return func(w *W, x, y Value) Value { return w.strLess(y.(Str), x.(Str), true) }
		}
	}
	if isFloat(tx) {
		return func(w *W, x, y Value) Value {
			a, aok := x.(float64)
			b, bok := y.(float64)
			if !aok || !bok {
				if r := w.symfTry(op, x, y); r != nil {
					return r
				}
				if !aok {
					a = w.splitFloat(x)
				}
				if !bok {
					b = w.splitFloat(y)
				}
			}
			switch op {
			case token.ADD:
				return f32(tx, a+b)
			case token.SUB:
				return f32(tx, a-b)
			case token.MUL:
				return f32(tx, a*b)
			case token.QUO:
				return f32(tx, a/b)
			case token.LSS:
				return mkBool(a < b)
			case token.LEQ:
				return mkBool(a <= b)
			case token.GTR:
				return mkBool(a > b)
			case token.GEQ:
				return mkBool(a >= b)
			}
			unsup("float op %s", op)
			return nil
		}
	}
	return func(w *W, x, y Value) Value { unsup("binary %s on %s", op, tx); return nil }
}

// symfTry decides comparisons of integral floats symbolically.
func (w *W) symfTry(op token.Token, x, y Value) Value {
	if w.symfInt(x) == nil || w.symfInt(y) == nil {
		return nil
	}
	switch op {
	case token.LSS:
		return w.symfCmp(OSlt, x, y)
	case token.LEQ:
		return w.symfCmp(OSle, x, y)
	case token.GTR:
		return w.symfCmp(OSlt, y, x)
	case token.GEQ:
		return w.symfCmp(OSle, y, x)
	}
	return nil
}

// splitFloat splits the path over every value of a symbolic float that the solver shows to have few of them.
func (w *W) splitFloat(x Value) float64 {
	switch x := x.(type) {
	case float64:
		return x
	case SymF:
		const lim = 2048
		out := w.eb.Not(w.eb.Cmp(OUle, w.eb.Bin(OAdd, x.e, mkConst(64, lim)), mkConst(64, 2*lim)))
		if r, _ := w.query(out); r == rUnsat {
			return float64(int64(w.concretize(x.e)))
		}
		unsup("arithmetic on a symbolic float with many values")
	case SymT:
		n := 0
		for i := 0; i < x.s.Len(); i++ {
			if !x.s.at(i).isConst() {
				n++
			}
		}
		if n > 4 {
			unsup("arithmetic on a symbolic float with many values")
		}
		b := make([]byte, x.s.Len())
		for i := range b {
			b[i] = byte(w.concretize(x.s.at(i)))
		}
		f, err := strconv.ParseFloat(string(b), x.n)
		if err != nil {
			unsup("symbolic float text %q", b)
		}
		return f
	}
	unsup("arithmetic on %T", x)
	return 0
}

// eqMixed compares values that may be of different representation (interface vs concrete does not occur in SSA).
func (w *W) eqMixed(x, y Value) *Expr {
	if sp, ok := x.(SymPtr); ok {
		x = Ptr(&sp.base[w.concretize(sp.idx)])
	}
	if sp, ok := y.(SymPtr); ok {
		y = Ptr(&sp.base[w.concretize(sp.idx)])
	}
	return w.equal(x, y)
}

// ---- conversions ----

func conv(from, to types.Type) func(w *W, x Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs, fi := basicInfo(from)
	tw, ts, ti := basicInfo(to)
	_ = ts
	switch {
	case fi && ti && fw > 0 && tw > 0:
		return func(w *W, x Value) Value {
			e, ok := x.(*Expr)
			if !ok {
				unsup("integer conversion of %T", x)
			}
			return w.eb.Conv(e, tw, fs)
		}
	case fi && isFloat(to):
		return func(w *W, x Value) Value {
			e := x.(*Expr)
			if e.op != OConst {
				if fw == 64 && !fs {
					if !w.branch(w.eb.Cmp(OUlt, e, mkConst(64, 1<<53))) {
						unsup("uint64 to float")
					}
				}
				v := w.eb.Conv(e, 64, fs)
				lim := uint64(1) << 53
				if b := to.Underlying().(*types.Basic); b.Kind() == types.Float32 {
					lim = 1 << 24
				}
				if fw > 16 && (fw > 32 || lim < 1<<53) {
					if !w.branch(w.eb.Cmp(OUle, w.eb.Bin(OAdd, v, mkConst(64, lim)), mkConst(64, 2*lim))) {
						unsup("symbolic integer too large for an exact float")
					}
				}
				return SymF{v}
			}
			if fs {
				return f32(to, float64(sx(e.k, fw)))
			}
			return f32(to, float64(e.k))
		}
	case isFloat(from) && ti && tw > 0:
		return func(w *W, x Value) Value {
			if s, ok := x.(SymF); ok {
				return w.eb.Conv(s.e, tw, true)
			}
			f := w.splitFloat(x)
			if ts {
				return mkConst(tw, uint64(int64(f)))
			}
			if f < 0 {
				return mkConst(tw, uint64(int64(f)))
			}
			return mkConst(tw, uint64(f))
		}
	case isFloat(from) && isFloat(to):
		return func(w *W, x Value) Value {
			if s, ok := x.(SymF); ok {
				if b := tu.(*types.Basic); b.Kind() == types.Float32 {
					if fb := fu.(*types.Basic); fb.Kind() != types.Float32 {
						lim := uint64(1) << 24
						if !w.branch(w.eb.Cmp(OUle, w.eb.Bin(OAdd, s.e, mkConst(64, lim)), mkConst(64, 2*lim))) {
							unsup("symbolic float beyond 2^24 to float32")
						}
					}
				}
				return s
			}
			if s, ok := x.(SymT); ok {
				if b := tu.(*types.Basic); b.Kind() == types.Float32 && s.n == 64 {
					if !symtBits(s.s, 32) {
						unsup("rounding of a symbolic float")
					}
					s.n = 32
				}
				return s
			}
			return f32(to, x.(float64))
		}
	case isComplex(from) && isComplex(to):
		return func(w *W, x Value) Value { return x }
	case isString(to) && fi:
		return func(w *W, x Value) Value { return w.runeToStr(w.eb.Conv(x.(*Expr), 32, fs), x.(*Expr), fs) }
	case isString(to) && isString(from):
		return func(w *W, x Value) Value { return x }
	}
	if isString(to) {
		if s, ok := fu.(*types.Slice); ok {
			ew, _, _ := basicInfo(s.Elem())
			if ew == 8 {
				return func(w *W, x Value) Value { return w.bytesToStr(x.(Slice)) }
			}
			return func(w *W, x Value) Value {
				r := Str{}
				for _, c := range x.(Slice) {
					r = concat(r, w.runeToStr(c.(*Expr), c.(*Expr), true))
				}
				return r
			}
		}
	}
	if isString(from) {
		if s, ok := tu.(*types.Slice); ok {
			ew, _, _ := basicInfo(s.Elem())
			if ew == 8 {
				return func(w *W, x Value) Value { return strToBytes(x.(Str)) }
			}
			return func(w *W, x Value) Value {
				s := x.(Str)
				out := Slice{}
				for i := 0; i < s.Len(); {
					r, n := w.decodeRune(s, i)
					out = append(out, r)
					i += n
				}
				return out[:len(out):len(out)]
			}
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(w *W, x Value) Value {
			if u, ok := x.(UPtr); ok {
				return u
			}
			return UPtr{p: x}
		}
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(w *W, x Value) Value {
			u, ok := x.(UPtr)
			if ok && u.p == nil && u.sl == nil && u.str == nil {
				return zero(to)
			}
			// reinterpretation of same-shaped memory
			if ok && u.p != nil {
				return u.p
			}
			unsup("unsafe pointer conversion to %s", to)
			return nil
		}
	}
	if s, ok := fu.(*types.Slice); ok {
		if a, ok := tu.(*types.Array); ok {
			_ = s
			n := int(a.Len())
			return func(w *W, x Value) Value {
				sl := x.(Slice)
				if len(sl) < n {
					w.rtPanic("cannot convert slice to array: length too short")
				}
				return copyVal(Array(sl[:n]))
			}
		}
	}
	if types.Identical(fu, tu) {
		return func(w *W, x Value) Value { return x }
	}
	return func(w *W, x Value) Value { unsup("conversion %s -> %s", from, to); return nil }
}

func strToBytes(s Str) Slice {
	n := s.Len()
	out := make(Slice, n, n)
	for i := 0; i < n; i++ {
		out[i] = s.at(i)
	}
	return out
}

func (w *W) bytesToStr(s Slice) Str {
	b := make([]*Expr, len(s))
	for i, x := range s {
		e, ok := x.(*Expr)
		if !ok {
			unsup("byte slice holding %T", x)
		}
		b[i] = e
	}
	return mkStr(b)
}

// decodeRune decodes one rune at byte i (forking on symbolic bytes).
func (w *W) decodeRune(s Str, i int) (*Expr, int) {
	n := s.Len() - i
	b0 := s.at(i)
	conc := true
	for k := 0; k < 4 && k < n; k++ {
		if s.at(i+k).op != OConst {
			conc = false
		}
	}
	if conc {
		var buf [4]byte
		m := min(4, n)
		for k := 0; k < m; k++ {
			buf[k] = byte(s.at(i + k).k)
		}
		r, sz := utf8.DecodeRune(buf[:m])
		return mkConst(32, uint64(uint32(r))), sz
	}
	eb := w.eb
	c8 := func(k uint64) *Expr { return mkConst(8, k) }
	inr := func(e *Expr, lo, hi uint64) *Expr {
		return eb.And(eb.Cmp(OUle, c8(lo), e), eb.Cmp(OUle, e, c8(hi)))
	}
	bad := func() (*Expr, int) { return mkConst(32, 0xFFFD), 1 }
	if w.branch(eb.Cmp(OUlt, b0, c8(0x80))) {
		return eb.Zext(b0, 32), 1
	}
	part := func(e *Expr, m uint64, sh uint64) *Expr {
		return eb.Bin(OShl, eb.Zext(eb.Bin(OBand, e, c8(m)), 32), mkConst(32, sh))
	}
	or := func(a, b *Expr) *Expr { return eb.Bin(OBor, a, b) }
	if w.branch(inr(b0, 0xC2, 0xDF)) {
		if n < 2 || !w.branch(inr(s.at(i+1), 0x80, 0xBF)) {
			return bad()
		}
		return or(part(b0, 0x1F, 6), part(s.at(i+1), 0x3F, 0)), 2
	}
	if w.branch(inr(b0, 0xE0, 0xEF)) {
		if n < 3 {
			return bad()
		}
		b1 := s.at(i + 1)
		ok := inr(b1, 0x80, 0xBF)
		ok = eb.And(ok, eb.Or(eb.Not(eb.Eq(b0, c8(0xE0))), eb.Cmp(OUle, c8(0xA0), b1)))
		ok = eb.And(ok, eb.Or(eb.Not(eb.Eq(b0, c8(0xED))), eb.Cmp(OUle, b1, c8(0x9F))))
		ok = eb.And(ok, inr(s.at(i+2), 0x80, 0xBF))
		if !w.branch(ok) {
			return bad()
		}
		return or(or(part(b0, 0x0F, 12), part(b1, 0x3F, 6)), part(s.at(i+2), 0x3F, 0)), 3
	}
	if w.branch(inr(b0, 0xF0, 0xF4)) {
		if n < 4 {
			return bad()
		}
		b1 := s.at(i + 1)
		ok := inr(b1, 0x80, 0xBF)
		ok = eb.And(ok, eb.Or(eb.Not(eb.Eq(b0, c8(0xF0))), eb.Cmp(OUle, c8(0x90), b1)))
		ok = eb.And(ok, eb.Or(eb.Not(eb.Eq(b0, c8(0xF4))), eb.Cmp(OUle, b1, c8(0x8F))))
		ok = eb.And(ok, eb.And(inr(s.at(i+2), 0x80, 0xBF), inr(s.at(i+3), 0x80, 0xBF)))
		if !w.branch(ok) {
			return bad()
		}
		return or(or(part(b0, 0x07, 18), part(b1, 0x3F, 12)), or(part(s.at(i+2), 0x3F, 6), part(s.at(i+3), 0x3F, 0))), 4
	}
	return bad()
}

// runeToStr encodes a rune (forking on symbolic values).
func (w *W) runeToStr(r *Expr, orig *Expr, signed bool) Str {
	if r.op == OConst && orig.op == OConst {
		v := sx(orig.k, orig.w)
		if !signed {
			v = int64(orig.k)
		}
		if v < 0 || v > 0x10FFFF {
			return cstr("\uFFFD")
		}
		return cstr(string(rune(v)))
	}
	eb := w.eb
	if orig.w == 64 {
		if !w.branch(eb.Cmp(OUle, orig, mkConst(64, 0x10FFFF))) {
			return cstr("\uFFFD")
		}
	}
	c := func(k uint64) *Expr { return mkConst(32, k) }
	by := func(sh uint64, m uint64, or uint64) *Expr {
		return eb.Trunc(eb.Bin(OBor, eb.Bin(OBand, eb.Bin(OLshr, r, c(sh)), c(m)), c(or)), 8)
	}
	if w.branch(eb.Cmp(OUlt, r, c(0x80))) {
		return mkStr([]*Expr{eb.Trunc(r, 8)})
	}
	if w.branch(eb.Cmp(OUlt, r, c(0x800))) {
		return mkStr([]*Expr{by(6, 0x1F, 0xC0), by(0, 0x3F, 0x80)})
	}
	if w.branch(eb.Or(eb.Cmp(OUlt, c(0x10FFFF), r), eb.And(eb.Cmp(OUle, c(0xD800), r), eb.Cmp(OUle, r, c(0xDFFF))))) {
		return cstr("\uFFFD")
	}
	if w.branch(eb.Cmp(OUlt, r, c(0x10000))) {
		return mkStr([]*Expr{by(12, 0x0F, 0xE0), by(6, 0x3F, 0x80), by(0, 0x3F, 0x80)})
	}
	return mkStr([]*Expr{by(18, 0x07, 0xF0), by(12, 0x3F, 0x80), by(6, 0x3F, 0x80), by(0, 0x3F, 0x80)})
}

// ---- iteration ----

type Iter struct {
	str  Str
	isS  bool
	i    int
	ents []*mapEntry
	m    *MapV
}

func (w *W) newIter(x Value) *Iter {
	switch x := x.(type) {
	case Str:
		return &Iter{str: x, isS: true}
	case *MapV:
		it := &Iter{m: x}
		if x != nil {
			it.ents = append(it.ents, x.ents...)
		}
		return it
	}
	unsup("range over %T", x)
	return nil
}

func (it *Iter) next(w *W) Value {
	if it.isS {
		if it.i >= it.str.Len() {
			return Tuple{False, mkConst(64, 0), mkConst(32, 0)}
		}
		r, n := w.decodeRune(it.str, it.i)
		k := it.i
		it.i += n
		return Tuple{True, mkConst(64, uint64(k)), r}
	}
	if w.mapPerm {
		var live []int
		for i, e := range it.ents {
			if e != nil && e.live {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			return Tuple{False, nil, nil}
		}
		k := live[w.choose(len(live))]
		e := it.ents[k]
		it.ents[k] = nil
		return Tuple{True, e.k, e.v}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.live {
			return Tuple{True, e.k, e.v}
		}
	}
	return Tuple{False, nil, nil}
}

// ---- builtins ----

func elemSize(t types.Type) int {
	return int(stdSizes.Sizeof(t))
}

var stdSizes = types.SizesFor("gc", "amd64")

func grown[T any](oldCap, oldLen, need int) int {
	s := make([]T, oldLen, oldCap)
	s = append(s, make([]T, need-oldLen)...)
	return cap(s)
}

func (w *W) growCap(size, oldCap, oldLen, need int) int {
	key := [3]int{size, oldCap<<24 | oldLen, need}
	if c, ok := w.growCache[key]; ok {
		return c
	}
	var c int
	switch size {
	case 0:
		c = need
	case 1:
		c = grown[[1]byte](oldCap, oldLen, need)
	case 2:
		c = grown[[2]byte](oldCap, oldLen, need)
	case 4:
		c = grown[[4]byte](oldCap, oldLen, need)
	case 8:
		c = grown[[8]byte](oldCap, oldLen, need)
	case 16:
		c = grown[[16]byte](oldCap, oldLen, need)
	case 24:
		c = grown[[24]byte](oldCap, oldLen, need)
	case 32:
		c = grown[[32]byte](oldCap, oldLen, need)
	case 40:
		c = grown[[40]byte](oldCap, oldLen, need)
	case 48:
		c = grown[[48]byte](oldCap, oldLen, need)
	case 64:
		c = grown[[64]byte](oldCap, oldLen, need)
	default:
		c = grown[[80]byte](oldCap, oldLen, need)
	}
	w.growCache[key] = c
	return c
}

func (w *W) appendVals(s Slice, vals []Value, et types.Type) Slice {
	n := len(s) + len(vals)
	if len(vals) == 0 {
		return s
	}
	if n <= cap(s) {
		r := s[:n]
		if w.journalOn {
			for i := range vals {
				p := Ptr(&r[len(s)+i])
				w.undo = append(w.undo, undoRec{p: p, old: *p})
			}
		}
		tmp := make([]Value, len(vals))
		for i, v := range vals {
			tmp[i] = copyVal(v)
		}
		copy(r[len(s):], tmp)
		return r
	}
	c := w.growCap(elemSize(et), cap(s), len(s), n)
	r := make(Slice, n, c)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range vals {
		r[len(s)+i] = copyVal(v)
	}
	if n < c {
		full := r[:c]
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := n; i < c; i++ {
				full[i] = zero(et)
			}
		default:
			z := zero(et)
			for i := n; i < c; i++ {
				full[i] = z
			}
		}
	}
	return r
}

func (cc *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []*opnd) func(fr *frame) Value {
	switch b.Name() {
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return func(fr *frame) Value { return fr.get(args[0]) }
		}
		return func(fr *frame) Value {
			s, ok := fr.get(args[0]).(Slice)
			if !ok {
				unsup("append to %T", fr.get(args[0]))
			}
			switch t := fr.get(args[1]).(type) {
			case Slice:
				return fr.w.appendVals(s, t, et)
			case Str:
				return fr.w.appendVals(s, strToBytes(t), et)
			default:
				unsup("append of %T", t)
			}
			return nil
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			p := fr.get(args[0])
			if pp, ok := p.(Ptr); ok && pp == nil {
				fr.w.rtPanic("value method called using nil pointer")
			}
			return p
		}
	case "recover":
		return func(fr *frame) Value {
			if fr.caller != nil && fr.caller.panicking {
				fr.caller.panicking = false
				return fr.caller.pval
			}
			return Iface{}
		}
	case "min", "max":
		isMin := b.Name() == "min"
		t := c.Args[0].Type()
		less := binop(token.LSS, t, t)
		return func(fr *frame) Value {
			r := fr.get(args[0])
			for _, a := range args[1:] {
				v := fr.get(a)
				if e, ok := r.(*Expr); ok {
					ve := v.(*Expr)
					if isMin {
						r = fr.w.eb.Ite(less(fr.w, ve, e).(*Expr), ve, e)
					} else {
						r = fr.w.eb.Ite(less(fr.w, e, ve).(*Expr), ve, e)
					}
					continue
				}
				var lt bool
				if isMin {
					lt = fr.w.branch(less(fr.w, v, r).(*Expr))
				} else {
					lt = fr.w.branch(less(fr.w, r, v).(*Expr))
				}
				if lt {
					r = v
				}
			}
			return r
		}
	}
	return func(fr *frame) Value {
		as := make([]Value, len(args))
		for i, a := range args {
			as[i] = fr.get(a)
		}
		return fr.w.callBuiltinDyn(fr, b, as)
	}
}

func int64c(n int) *Expr { return mkConst(64, uint64(n)) }

func (w *W) callBuiltinDyn(fr *frame, b *ssa.Builtin, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return int64c(x.Len())
		case Slice:
			return int64c(len(x))
		case Array:
			return int64c(len(x))
		case Ptr:
			if x == nil {
				return int64c(0)
			}
			return int64c(len((*x).(Array)))
		case *MapV:
			if x == nil {
				return int64c(0)
			}
			return int64c(x.n)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64c(cap(x))
		case Array:
			return int64c(len(x))
		case Ptr:
			return int64c(len((*x).(Array)))
		}
	case "copy":
		d := args[0].(Slice)
		var s Slice
		switch x := args[1].(type) {
		case Slice:
			s = x
		case Str:
			s = strToBytes(x)
		}
		n := min(len(d), len(s))
		if w.journalOn {
			for i := 0; i < n; i++ {
				p := Ptr(&d[i])
				w.undo = append(w.undo, undoRec{p: p, old: *p})
			}
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		copy(d, tmp)
		return int64c(n)
	case "delete":
		w.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					if e.live {
						e := e
						e.live = false
						x.n--
						if w.journalOn {
							w.undo = append(w.undo, undoRec{f: func() { e.live = true; x.n++ }})
						}
					}
				}
			}
			return nil
		case Slice:
			for i := range x {
				switch v := x[i].(type) {
				case *Expr:
					w.store(Ptr(&x[i]), mkConst(v.w, 0))
				default:
					unsup("clear of slice of %T", v)
				}
			}
			return nil
		}
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0].(Iface)})
	case "recover":
		return Iface{}
	case "close":
		unsup("close of channel")
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "SliceData":
		s := args[0].(Slice)
		return UPtr{sl: s[:cap(s)]}
	case "StringData":
		s := args[0].(Str)
		return UPtr{str: &s}
	case "String":
		n := int(w.conInt(args[1]))
		switch u := args[0].(type) {
		case UPtr:
			if u.str != nil {
				return u.str.slice(0, n)
			}
			return w.bytesToStr(u.sl[:n])
		case Ptr:
			if n == 0 {
				return Str{}
			}
			if n == 1 {
				return w.bytesToStr(Slice{*u})
			}
		}
		unsup("unsafe.String of %T", args[0])
	case "Slice":
		n := int(w.conInt(args[1]))
		switch u := args[0].(type) {
		case UPtr:
			if u.str != nil {
				return strToBytes(u.str.slice(0, n))
			}
			return u.sl[:n:n]
		}
		unsup("unsafe.Slice of %T", args[0])
	}
	unsup("builtin %s", b.Name())
	return nil
}

var _ = math.Inf
