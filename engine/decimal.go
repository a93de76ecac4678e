package main

// Decimal reasoning.  A bit-vector term of the shape ((d0*10+d1)*10+d2)... whose digits range over 0..9 on the current path is
// a decimal numeral; comparing it with a constant or with another numeral is a comparison digit by digit, which spares the
// solver the multiplications.

// numeral returns the digits of e, most significant first, or nil.
func (w *W) numeral(e *Expr) []*Expr {
	if e.mv && e.size > 400 || e.w < 8 {
		return nil
	}
	d := w.numeral1(e)
	if d == nil || len(d) > 19 || pow10[len(d)]-1 > mask(e.w) {
		return nil
	}
	return d
}

func (w *W) digit(e *Expr) *Expr {
	for e.op == OZext {
		e = e.a
	}
	if e.op == OConst {
		if e.k <= 9 {
			return mkConst(8, e.k)
		}
		return nil
	}
	if e.w != 8 || e.sv == nil || e.mv {
		return nil
	}
	dom := &w.doms[int(e.sv.k)]
	for i, v := range e.vals() {
		if v > 9 && dom[i>>6]>>(i&63)&1 == 1 {
			return nil
		}
	}
	return e
}

func (w *W) numeral1(e *Expr) []*Expr {
	switch e.op {
	case OConst:
		var out []*Expr
		for k := e.k; k > 0; k /= 10 {
			out = append([]*Expr{mkConst(8, k%10)}, out...)
		}
		if out == nil {
			out = []*Expr{mkConst(8, 0)}
		}
		return out
	case OZext:
		if e.a.w > 8 {
			return w.numeral(e.a)
		}
		fallthrough
	case OVar:
		if d := w.digit(e); d != nil {
			return []*Expr{d}
		}
		return nil
	case OTrunc:
		return w.numeral(e.a)
	case OAdd:
		if e.b.op == OConst && e.b.k == mask(e.w)-47 && e.w > 8 {
			// m*10 + c - '0'
			c, m := e.a, (*Expr)(nil)
			if c.op == OAdd {
				c, m = e.a.b, e.a.a
				if c.op == OMul {
					c, m = m, c
				}
			}
			if c.op != OZext || c.a.w != 8 {
				return nil
			}
			d := w.digit(w.eb.Bin(OAdd, c.a, mkConst(8, 208)))
			if d == nil {
				return nil
			}
			if m == nil {
				return []*Expr{d}
			}
			if m.op == OMul && m.b.op == OConst && m.b.k == 10 {
				if p := w.numeral(m.a); p != nil {
					return append(append([]*Expr(nil), p...), d)
				}
			}
			return nil
		}
		m, d := e.a, w.digit(e.b)
		if m.op != OMul || d == nil {
			m, d = e.b, w.digit(e.a)
		}
		if m.op != OMul || d == nil {
			if e.w == 8 {
				if d := w.digit(e); d != nil {
					return []*Expr{d}
				}
			}
			return nil
		}
		x := m.a
		if m.b.op != OConst || m.b.k != 10 {
			if x.op != OConst || x.k != 10 {
				return nil
			}
			x = m.b
		}
		if p := w.numeral(x); p != nil {
			return append(append([]*Expr(nil), p...), d)
		}
	case OMul:
		if e.b.op != OConst || e.b.k < 10 {
			return nil
		}
		k := 1
		for k < 19 && pow10[k] < e.b.k {
			k++
		}
		if pow10[k] != e.b.k {
			return nil
		}
		if p := w.numeral(e.a); p != nil {
			p = append([]*Expr(nil), p...)
			for ; k > 0; k-- {
				p = append(p, mkConst(8, 0))
			}
			return p
		}
	case OSext:
		if e.a.w > 8 {
			if p := w.numeral(e.a); p != nil && pow10[len(p)]-1 < 1<<(e.a.w-1) {
				return p
			}
		}
	default:
		if e.w == 8 {
			if d := w.digit(e); d != nil {
				return []*Expr{d}
			}
		}
	}
	return nil
}

func (w *W) padNum(d []*Expr, n int) []*Expr {
	out := make([]*Expr, 0, n)
	for i := len(d); i < n; i++ {
		out = append(out, mkConst(8, 0))
	}
	return append(out, d...)
}

// numLess is a < b (or a <= b).
func (w *W) numLess(a, b []*Expr, orEq bool) *Expr {
	eb := w.eb
	// b is a*10+d: never smaller
	isPrefix := func(p, x []*Expr) bool {
		if len(x) != len(p)+1 {
			return false
		}
		for i := range p {
			if !sameExpr(p[i], x[i]) {
				return false
			}
		}
		return true
	}
	if orEq && isPrefix(a, b) {
		return True
	}
	if !orEq && isPrefix(b, a) {
		return False
	}
	n := max(len(a), len(b))
	a, b = w.padNum(a, n), w.padNum(b, n)
	r := mkBool(orEq)
	for i := n - 1; i >= 0; i-- {
		r = eb.Or(eb.Cmp(OUlt, a[i], b[i]), eb.And(eb.Eq(a[i], b[i]), r))
	}
	return r
}

func (w *W) numEq(a, b []*Expr) *Expr {
	n := max(len(a), len(b))
	a, b = w.padNum(a, n), w.padNum(b, n)
	r := True
	for i := 0; i < n; i++ {
		r = w.eb.And(r, w.eb.Eq(a[i], b[i]))
	}
	return r
}

// simp rewrites the comparisons of decimal numerals in a boolean term.
// simpLeaf simplifies an operand of a conjunction or disjunction; a test of one
// variable which the variable's domain on this path decides becomes a constant.
func (w *W) simpLeaf(e *Expr) *Expr {
	if e.op == OConst {
		return e
	}
	if e.sv != nil && !e.mv {
		if i := int(e.sv.k); e.w == 0 && i < len(w.doms) {
			b := e.boolSet()
			if t := setAnd(&w.doms[i], b); setEmpty(&t) {
				return False
			}
			if f := setMinus(&w.doms[i], b); setEmpty(&f) {
				return True
			}
		}
		return e
	}
	return w.simp(e)
}

func (w *W) simp(e *Expr) *Expr {
	if e.op == OConst || (e.sv != nil && !e.mv) {
		return e
	}
	eb := w.eb
	switch e.op {
	case ONot:
		return eb.Not(w.simp(e.a))
	case OAnd:
		a := w.simpLeaf(e.a)
		if a.isFalse() {
			return a
		}
		return eb.And(a, w.simpLeaf(e.b))
	case OOr:
		a := w.simpLeaf(e.a)
		if a.isTrue() {
			return a
		}
		return eb.Or(a, w.simpLeaf(e.b))
	}
	if e.size < 4 {
		return e
	}
	switch e.op {
	case OEq, OUlt, OUle, OSlt, OSle:
		if e.a.w == 0 || e.size > 400 {
			return e
		}
	default:
		return e
	}
	a, b := e.a, e.b
	if a.op != OAdd && a.op != OMul && a.op != ONeg && b.op != OAdd && b.op != OMul && b.op != ONeg && a.op != OTrunc && b.op != OTrunc && a.op != OSext && b.op != OSext && a.op != OZext && b.op != OZext {
		return e
	}
	op := e.op
	wd := a.w
	if op == OSlt || op == OSle {
		if a.op == ONeg && b.op == OConst && b.k != 1<<(wd-1) {
			// -x < k  <=>  -k < x, for x below the sign bit
			x := w.numeral(a.a)
			if x == nil || pow10[len(x)]-1 >= 1<<(wd-1) {
				return e
			}
			a, b = mkConst(wd, -b.k), a.a
		} else if b.op == ONeg && a.op == OConst && a.k != 1<<(wd-1) {
			x := w.numeral(b.a)
			if x == nil || pow10[len(x)]-1 >= 1<<(wd-1) {
				return e
			}
			a, b = b.a, mkConst(wd, -a.k)
		}
	}
	if op == OEq && a.op == ONeg && b.op == OConst {
		a, b = a.a, mkConst(wd, -b.k)
	} else if op == OEq && b.op == ONeg && a.op == OConst {
		a, b = mkConst(wd, -a.k), b.a
	}
	na := w.numeral(a)
	if na == nil {
		return e
	}
	nb := w.numeral(b)
	if nb == nil && !(b.op == OConst) {
		return e
	}
	if nb == nil { // a 20-digit constant
		nb = w.numeral1(b)
	}
	switch op {
	case OEq:
		return w.numEq(na, nb)
	case OUlt, OUle:
		return w.numLess(na, nb, op == OUle)
	}
	half := w.numeral1(mkConst(wd, 1<<(wd-1)))
	negOf := func(n []*Expr, x *Expr) *Expr {
		if x.op == OConst {
			return mkBool(x.k>>(wd-1) == 1)
		}
		if pow10[len(n)]-1 < 1<<(wd-1) {
			return False
		}
		return w.numLess(half, n, true)
	}
	sa, sb := negOf(na, a), negOf(nb, b)
	return eb.Or(eb.And(sa, eb.Not(sb)), eb.And(eb.Eq(sa, sb), w.numLess(na, nb, op == OSle)))
}

// numDiv divides a decimal numeral by a power of ten.
func (w *W) numDiv(a, b *Expr, rem, signed bool) *Expr {
	if a.op == OConst || b.op != OConst || b.k < 10 {
		return nil
	}
	k := 1
	for k < 19 && pow10[k] < b.k {
		k++
	}
	if pow10[k] != b.k {
		return nil
	}
	x, neg := a, false
	if signed && a.op == ONeg {
		x, neg = a.a, true
	}
	d := w.numeral(x)
	if d == nil || signed && pow10[len(d)]-1 >= 1<<(a.w-1) {
		return nil
	}
	if len(d) < k {
		d = w.padNum(d, k)
	}
	cut := len(d) - k
	if rem {
		d = d[cut:]
	} else {
		d = d[:cut]
	}
	for len(d) > 1 && d[0].isConst() && d[0].k == 0 {
		d = d[1:]
	}
	eb := w.eb
	r := mkConst(a.w, 0)
	for i, c := range d {
		if i == 0 {
			r = eb.Conv(c, a.w, false)
		} else {
			r = eb.Bin(OAdd, eb.Bin(OMul, r, mkConst(a.w, 10)), eb.Conv(c, a.w, false))
		}
	}
	if neg {
		r = eb.Un(ONeg, r)
	}
	return r
}

// numMask masks a decimal numeral.
func (w *W) numMask(a, b *Expr) *Expr {
	if a.op == OConst {
		a, b = b, a
	}
	if a.op == OConst || b.op != OConst {
		return nil
	}
	d := w.numeral(a)
	if d == nil {
		return nil
	}
	m := uint64(1)
	for m <= pow10[len(d)]-1 && m < 1<<63 {
		m <<= 1
	}
	if m <= pow10[len(d)]-1 {
		return nil
	}
	switch b.k & (m - 1) {
	case 0:
		return mkConst(a.w, 0)
	case m - 1:
		return a
	}
	return nil
}
