package main

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Branch folding: instead of forking at every test of a condition such as
// 'a' <= c && c <= 'z', consecutive tests of one byte whose code has no effects
// are combined into a single condition, and small conditional assignments to
// bytes become if-then-else terms. Only conditions over one and the same input
// variable are combined; everything else forks as usual.

type ifInfo struct {
	b, t, f int
	cond    *opnd
}

// blockShape says what may be executed ahead of a decision.
type blockShape struct {
	pure   bool // only effect-free instructions, no phis
	stores int
	isIf   *ifInfo
	jump   int // -1: none
	stOps  []storeOp
}

type storeOp struct {
	at        int // index into code
	addr, val *opnd
}

type specAbort struct{}

var noMerge = os.Getenv("VERIF_NOMERGE") != "" // for comparing results with and without folding

func (cc *compiler) shape(b *ssa.BasicBlock) blockShape {
	s := blockShape{jump: -1}
	if len(b.Instrs) > 14 {
		return s
	}
	n := 0
	stored := false
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			switch ins.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return s
			}
			bt, ok := ins.X.Type().Underlying().(*types.Basic)
			if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				return s
			}
		case *ssa.UnOp:
			switch ins.Op {
			case token.NOT, token.SUB, token.XOR:
			case token.MUL:
				if stored {
					return s
				}
			default:
				return s
			}
		case *ssa.Convert:
			for _, t := range []types.Type{ins.X.Type(), ins.Type()} {
				bt, ok := t.Underlying().(*types.Basic)
				if !ok || bt.Info()&types.IsInteger == 0 {
					return s
				}
			}
		case *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index:
		case *ssa.Lookup:
			if _, ok := ins.X.Type().Underlying().(*types.Basic); !ok {
				return s
			}
		case *ssa.Store:
			bt, ok := ins.Val.Type().Underlying().(*types.Basic)
			if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				return s
			}
			stored = true
			s.stOps = append(s.stOps, storeOp{n, cc.op(ins.Addr), cc.op(ins.Val)})
		case *ssa.If:
			s.isIf = &ifInfo{b.Index, b.Succs[0].Index, b.Succs[1].Index, cc.op(ins.Cond)}
			s.pure = true
			s.stores = len(s.stOps)
			return s
		case *ssa.Jump:
			s.jump = b.Succs[0].Index
			s.pure = true
			s.stores = len(s.stOps)
			return s
		default:
			return s
		}
		n++
	}
	return s
}

// decided reports the value of c when no fork is needed.
func (w *W) decided(c *Expr) bool {
	if c.op == OConst {
		return true
	}
	if c.sv != nil && !c.mv {
		vi := int(c.sv.k)
		t := setAnd(&w.doms[vi], c.boolSet())
		f := setMinus(&w.doms[vi], c.boolSet())
		return setEmpty(&t) || setEmpty(&f)
	}
	return w.consSet[c] || w.consSet[w.eb.Not(c)]
}

func sameVar(v *Expr, e *Expr) bool {
	return e.op == OConst || e.sv == v && !e.mv
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		return ok && (x == y || x.op == OConst && y.op == OConst && x.k == y.k && x.w == y.w)
	case Str:
		y, ok := b.(Str)
		return ok && x.concrete() && y.concrete() && x.s == y.s
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	}
	return false
}

// agree reports whether block j is entered in the same state from p and q.
func (fr *frame) agree(j, p, q int) bool {
	cb := &fr.fn.blocks[j]
	if p == q {
		return true
	}
	for i := range cb.phis {
		e := cb.phis[i].edges
		if !sameVal(fr.get(&e[cb.predIx[p]]), fr.get(&e[cb.predIx[q]])) {
			return false
		}
	}
	return true
}

type specStore struct {
	p Ptr
	v *Expr
}

// speculate executes the effect-free block b ahead of the decision to enter it.
func (fr *frame) speculate(b int, stores *[]specStore) (ok bool) {
	w := fr.w
	cb := &fr.fn.blocks[b]
	w.spec++
	depth, sd := w.depth, len(w.stackFns)
	defer func() {
		w.spec--
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, targetPanic, unsupported:
				w.depth, w.stackFns = depth, w.stackFns[:sd]
				ok = false
			default:
				panic(r)
			}
		}
	}()
	k := 0
	for i, in := range cb.code {
		if k < len(cb.shape.stOps) && cb.shape.stOps[k].at == i {
			so := &cb.shape.stOps[k]
			k++
			p, okp := fr.get(so.addr).(Ptr)
			v, okv := fr.get(so.val).(*Expr)
			if !okp || p == nil || !okv {
				return false
			}
			old, oko := (*p).(*Expr)
			if !oko || old.w != v.w {
				return false
			}
			for _, s := range *stores {
				if s.p == p {
					return false
				}
			}
			*stores = append(*stores, specStore{p, v})
			continue
		}
		in(fr)
	}
	return true
}

type savedReg struct {
	i int
	v Value
}

func (fr *frame) save(b int, to []savedReg) []savedReg {
	for _, d := range fr.fn.blocks[b].dsts {
		if d >= 0 {
			to = append(to, savedReg{d, fr.regs[d]})
		}
	}
	return to
}

func (fr *frame) restore(s []savedReg) {
	for i := len(s) - 1; i >= 0; i-- {
		fr.regs[s[i].i] = s[i].v
	}
}

func (fr *frame) doIf(fi *ifInfo) int {
	w := fr.w
	c0 := fr.get(fi.cond).(*Expr)
	if c0.op == OConst {
		if c0.k == 1 {
			return fi.t
		}
		return fi.f
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	c := w.simp(c0)
	if noMerge || w.initing > 0 || c.op == OConst || c.sv == nil || c.mv || w.decided(c) {
		if w.branch(c0) {
			return fi.t
		}
		return fi.f
	}
	v := c.sv
	t, f := fi.t, fi.f
	pt, pf := fi.b, fi.b // a block from which t, f are entered
	var saveT, saveF []savedReg
	folded := false
	for n := 0; n < 12; n++ {
		// && : t tests again and shares f
		if bt := &fr.fn.blocks[t]; bt.shape.isIf != nil && bt.shape.pure && bt.shape.stores == 0 && t != f && (bt.shape.isIf.f == f || bt.shape.isIf.t == f) {
			i2 := bt.shape.isIf
			sv := fr.save(t, nil)
			if fr.speculate(t, nil) {
				c2 := w.simp(fr.get(i2.cond).(*Expr))
				if sameVar(v, c2) && fr.agree(f, pf, t) {
					nt := i2.t
					if i2.f != f {
						nt = i2.f
						c2 = w.eb.Not(c2)
					}
					if nt != f {
						c = w.eb.And(c, c2)
						saveT = append(saveT, sv...)
						pt, t = t, nt
						folded = true
						continue
					}
				}
			}
			fr.restore(sv)
		}
		// || : f tests again and shares t
		if bf := &fr.fn.blocks[f]; bf.shape.isIf != nil && bf.shape.pure && bf.shape.stores == 0 && t != f && (bf.shape.isIf.f == t || bf.shape.isIf.t == t) {
			i2 := bf.shape.isIf
			sv := fr.save(f, nil)
			if fr.speculate(f, nil) {
				c2 := w.simp(fr.get(i2.cond).(*Expr))
				if sameVar(v, c2) && fr.agree(t, pt, f) {
					nf := i2.f
					if i2.t != t {
						nf = i2.t
						c2 = w.eb.Not(c2)
					}
					if nf != t {
						c = w.eb.Or(c, c2)
						saveF = append(saveF, sv...)
						pf, f = f, nf
						folded = true
						continue
					}
				}
			}
			fr.restore(sv)
		}
		break
	}
	if c.op != OConst && !w.decided(c) && c.sv == v && !c.mv {
		if j, ok := fr.mergeArms(c, v, t, f, pt, pf); ok {
			fr.restore(saveF)
			fr.restore(saveT)
			return j
		}
	}
	var taken bool
	if folded {
		taken = w.branch(c)
	} else {
		taken = w.branch(c0)
	}
	if taken {
		fr.restore(saveF)
		fr.prev = pt
		return t
	}
	fr.restore(saveT)
	fr.prev = pf
	return f
}

// mergeArms turns a conditional assignment of bytes into terms: either arm may
// be an effect-free block (apart from byte stores) that leads to the other arm
// or both lead to the same block.
func (fr *frame) mergeArms(c, v *Expr, t, f, pt, pf int) (int, bool) {
	w := fr.w
	bt, bf := &fr.fn.blocks[t], &fr.fn.blocks[f]
	armT := bt.shape.pure && bt.shape.jump >= 0
	armF := bf.shape.pure && bf.shape.jump >= 0
	var j int
	switch {
	case t == f:
		return 0, false
	case armT && bt.shape.jump == f:
		j, armF = f, false
	case armF && bf.shape.jump == t:
		j, armT = t, false
	case armT && armF && bt.shape.jump == bf.shape.jump:
		j = bt.shape.jump
	default:
		return 0, false
	}
	var saved []savedReg
	var stT, stF []specStore
	fail := func() (int, bool) {
		fr.restore(saved)
		return 0, false
	}
	ok := true
	if armT {
		saved = fr.save(t, saved)
		ok = fr.speculate(t, &stT)
		pt = t
	}
	if ok && armF {
		saved = fr.save(f, saved)
		ok = fr.speculate(f, &stF)
		pf = f
	}
	if !ok {
		return fail()
	}
	merge := func(a, b Value) (Value, bool) {
		if sameVal(a, b) {
			return a, true
		}
		x, ok1 := a.(*Expr)
		y, ok2 := b.(*Expr)
		if !ok1 || !ok2 || x.w != y.w || x.w > 32 || !sameVar(v, x) || !sameVar(v, y) {
			return nil, false
		}
		r := w.eb.Ite(c, x, y)
		if !sameVar(v, r) {
			return nil, false
		}
		return r, true
	}
	cj := &fr.fn.blocks[j]
	vals := make([]Value, len(cj.phis))
	for i := range cj.phis {
		e := cj.phis[i].edges
		m, ok := merge(fr.get(&e[cj.predIx[pt]]), fr.get(&e[cj.predIx[pf]]))
		if !ok {
			return fail()
		}
		vals[i] = m
	}
	type res struct {
		p Ptr
		v Value
	}
	var out []res
	for _, s := range stT {
		var other Value = *s.p
		for _, x := range stF {
			if x.p == s.p {
				other = x.v
			}
		}
		m, ok := merge(s.v, other)
		if !ok {
			return fail()
		}
		out = append(out, res{s.p, m})
	}
	for _, s := range stF {
		dup := false
		for _, x := range stT {
			dup = dup || x.p == s.p
		}
		if dup {
			continue
		}
		m, ok := merge(*s.p, s.v)
		if !ok {
			return fail()
		}
		out = append(out, res{s.p, m})
	}
	fr.restore(saved)
	for _, o := range out {
		w.store(o.p, o.v)
	}
	fr.phiVals = vals
	w.merges++
	return j, true
}
