package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	w      *W
	fn     *cfn
	regs   []Value
	prev   int
	caller *frame
	defers []deferRec
	result Value
	// panicking state
	panicking bool
	pval      Iface
	env       []Value
	isInit    bool
	phiVals   []Value // values of the next block's phis after a merge
}

type deferRec struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type opnd struct {
	kind uint8 // 0 reg, 1 const, 2 global
	i    int
	c    Value
	g    *ssa.Global
}

type instr func(fr *frame)
type term func(fr *frame) int

type phi struct {
	dst   int
	edges []opnd
}

type cblock struct {
	phis   []phi
	predIx map[int]int
	code   []instr
	dsts   []int // destination register per instruction, -1 for none
	term   term
	n      int64
	shape  blockShape
}

type cfn struct {
	fn       *ssa.Function
	blocks   []cblock
	nregs    int
	nparams  int
	hasDefer bool
	recoverB int
	intr     func(w *W, fr *frame, args []Value) Value
	external bool
}

type Poison struct{ why string }

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.c
	}
	return fr.w.global(o.g, o.i)
}

type compiler struct {
	e     *Engine
	fn    *ssa.Function
	slots map[ssa.Value]int
	c     *cfn
}

func (e *Engine) compile(fn *ssa.Function) *cfn {
	if c, ok := e.cfns.Load(fn); ok {
		return c.(*cfn)
	}
	if s := e.stubs[fn.String()]; s != nil && s != fn {
		act, _ := e.cfns.LoadOrStore(fn, e.compile(s))
		return act.(*cfn)
	}
	c := &cfn{fn: fn, recoverB: -1}
	if in := e.intrinsicFor(fn); in != nil {
		c.intr = in
		act, _ := e.cfns.LoadOrStore(fn, c)
		return act.(*cfn)
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		e.buildPkg(fn.Pkg)
	}
	if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		e.buildPkg(fn.Origin().Pkg)
	}
	if fn.Blocks == nil {
		c.external = true
		act, _ := e.cfns.LoadOrStore(fn, c)
		return act.(*cfn)
	}
	cc := &compiler{e: e, fn: fn, slots: map[ssa.Value]int{}, c: c}
	cc.run()
	act, _ := e.cfns.LoadOrStore(fn, c)
	return act.(*cfn)
}

func (cc *compiler) slot(v ssa.Value) int {
	if i, ok := cc.slots[v]; ok {
		return i
	}
	i := cc.c.nregs
	cc.c.nregs++
	cc.slots[v] = i
	return i
}

func (cc *compiler) op(v ssa.Value) *opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return &opnd{kind: 1, c: constValue(v)}
	case *ssa.Global:
		return &opnd{kind: 2, g: v, i: cc.e.globalIndex(v)}
	case *ssa.Function:
		return &opnd{kind: 1, c: &Closure{fn: v}}
	case *ssa.Builtin:
		return &opnd{kind: 1, c: &Closure{bi: v}}
	case nil:
		return nil
	}
	return &opnd{i: cc.slot(v)}
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Basic); ok && c.Type() == types.Typ[types.UntypedNil] {
			return Iface{}
		}
		if tp, ok := c.Type().(*types.TypeParam); ok {
			_ = tp
			return Poison{"type parameter constant"}
		}
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			w, _, _ := basicInfo(b)
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return mkConst(w, uint64(i))
			}
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return mkConst(w, u)
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return cstr(constant.StringVal(c.Value))
			}
			return cstr(string(rune(c.Int64())))
		case b.Kind() == types.UnsafePointer:
			return UPtr{}
		}
	}
	return Poison{"constant " + c.String()}
}

func (cc *compiler) run() {
	fn, c := cc.fn, cc.c
	for _, p := range fn.Params {
		cc.slot(p)
	}
	c.nparams = len(fn.Params)
	for _, fv := range fn.FreeVars {
		cc.slot(fv)
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	if fn.Recover != nil {
		c.recoverB = fn.Recover.Index
	}
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.predIx = map[int]int{}
		for i, p := range b.Preds {
			cb.predIx[p.Index] = i
		}
		cb.n = int64(len(b.Instrs))
		cb.shape = cc.shape(b)
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				p := phi{dst: cc.slot(ph)}
				for _, e := range ph.Edges {
					p.edges = append(p.edges, *cc.op(e))
				}
				cb.phis = append(cb.phis, p)
				continue
			}
			switch ins := ins.(type) {
			case *ssa.If:
				fi := &ifInfo{b.Index, b.Succs[0].Index, b.Succs[1].Index, cc.op(ins.Cond)}
				cb.term = func(fr *frame) int { return fr.doIf(fi) }
				continue
			case *ssa.Jump:
				t := b.Succs[0].Index
				cb.term = func(fr *frame) int { return t }
				continue
			case *ssa.Return:
				var ops []*opnd
				for _, r := range ins.Results {
					ops = append(ops, cc.op(r))
				}
				switch len(ops) {
				case 0:
					cb.term = func(fr *frame) int { return -1 }
				case 1:
					o := ops[0]
					cb.term = func(fr *frame) int { fr.result = fr.get(o); return -1 }
				default:
					cb.term = func(fr *frame) int {
						t := make(Tuple, len(ops))
						for i, o := range ops {
							t[i] = fr.get(o)
						}
						fr.result = t
						return -1
					}
				}
				continue
			case *ssa.Panic:
				x := cc.op(ins.X)
				cb.term = func(fr *frame) int {
					panic(targetPanic{fr.get(x).(Iface)})
				}
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Defer:
				c.hasDefer = true
			case *ssa.RunDefers:
				cb.code = append(cb.code, func(fr *frame) { fr.runDefers() })
				cb.dsts = append(cb.dsts, -1)
				continue
			}
			code := cc.instr(ins)
			if code == nil {
				continue
			}
			d := -1
			if v, ok := ins.(ssa.Value); ok {
				d = cc.slot(v)
			}
			cb.code = append(cb.code, code)
			cb.dsts = append(cb.dsts, d)
		}
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.w.callValue(fr, d.fn, d.args)
	}
}

func (cc *compiler) instr(ins ssa.Instruction) instr {
	switch ins := ins.(type) {
	case *ssa.Alloc:
		d := cc.slot(ins)
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *frame) {
				p := new(Value)
				*p = zero(t)
				fr.regs[d] = Ptr(p)
			}
		}
		if _, ok := t.(*types.TypeParam); ok {
			return func(fr *frame) { unsup("alloc of type parameter") }
		}
		z := zero(t)
		return func(fr *frame) {
			p := new(Value)
			*p = z
			fr.regs[d] = Ptr(p)
		}
	case *ssa.UnOp:
		return cc.unop(ins)
	case *ssa.BinOp:
		d := cc.slot(ins)
		x, y := cc.op(ins.X), cc.op(ins.Y)
		f := binop(ins.Op, ins.X.Type(), ins.Y.Type())
		return func(fr *frame) { fr.regs[d] = f(fr.w, fr.get(x), fr.get(y)) }
	case *ssa.Call:
		d := cc.slot(ins)
		call := cc.call(&ins.Call)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.ChangeInterface:
		d, x := cc.slot(ins), cc.op(ins.X)
		return func(fr *frame) { fr.regs[d] = fr.get(x) }
	case *ssa.ChangeType:
		d, x := cc.slot(ins), cc.op(ins.X)
		return func(fr *frame) { fr.regs[d] = fr.get(x) }
	case *ssa.Convert:
		d, x := cc.slot(ins), cc.op(ins.X)
		f := conv(ins.X.Type(), ins.Type())
		return func(fr *frame) { fr.regs[d] = f(fr.w, fr.get(x)) }
	case *ssa.MultiConvert:
		return func(fr *frame) { unsup("multi-convert") }
	case *ssa.Extract:
		d, x, i := cc.slot(ins), cc.op(ins.Tuple), ins.Index
		return func(fr *frame) { fr.regs[d] = fr.get(x).(Tuple)[i] }
	case *ssa.Field:
		d, x, i := cc.slot(ins), cc.op(ins.X), ins.Field
		return func(fr *frame) { fr.regs[d] = fr.get(x).(Struct)[i] }
	case *ssa.FieldAddr:
		d, x, i := cc.slot(ins), cc.op(ins.X), ins.Field
		return func(fr *frame) {
			p, ok := fr.get(x).(Ptr)
			if !ok {
				unsup("field address of %T", fr.get(x))
			}
			if p == nil {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			st, ok := (*p).(Struct)
			if !ok {
				if po, ok := (*p).(Poison); ok {
					unsup("uninitialised: %s", po.why)
				}
				unsup("field address in %T", *p)
			}
			fr.regs[d] = Ptr(&st[i])
		}
	case *ssa.Index:
		d, x, i := cc.slot(ins), cc.op(ins.X), cc.op(ins.Index)
		_, isgn, _ := basicInfo(ins.Index.Type())
		return func(fr *frame) { fr.regs[d] = fr.w.index(fr.get(x), fr.get(i).(*Expr), isgn) }
	case *ssa.IndexAddr:
		d, x, i := cc.slot(ins), cc.op(ins.X), cc.op(ins.Index)
		symOK := true
		for _, r := range *ins.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
				if r.Op != token.MUL {
					symOK = false
				}
			case *ssa.Store:
				if r.Addr != ins {
					symOK = false
				}
			case *ssa.DebugRef:
			default:
				symOK = false
			}
		}
		_, isgn, _ := basicInfo(ins.Index.Type())
		return func(fr *frame) {
			var base []Value
			switch b := fr.get(x).(type) {
			case Slice:
				base = b
			case Ptr:
				if b == nil {
					fr.w.rtPanic("invalid memory address or nil pointer dereference")
				}
				a, ok := (*b).(Array)
				if !ok {
					if po, ok := (*b).(Poison); ok {
						unsup("uninitialised: %s", po.why)
					}
					unsup("index address in %T", *b)
				}
				base = a
			default:
				unsup("index address of %T", b)
			}
			ix := fr.get(i).(*Expr)
			if ix.op == OConst {
				k := ix.k
				if isgn {
					k = uint64(sx(ix.k, ix.w))
				}
				if k >= uint64(len(base)) {
					fr.w.rtPanic("index out of range")
				}
				fr.regs[d] = Ptr(&base[k])
				return
			}
			fr.w.boundsCheck(ix, len(base), isgn)
			if symOK {
				fr.regs[d] = SymPtr{base, fr.w.idx64(ix, isgn)}
				return
			}
			fr.regs[d] = Ptr(&base[fr.w.concretize(ix)])
		}
	case *ssa.Lookup:
		d, x, i := cc.slot(ins), cc.op(ins.X), cc.op(ins.Index)
		if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
			z := func() Value { return zero(mt.Elem()) }
			commaOk := ins.CommaOk
			return func(fr *frame) {
				m, ok := fr.get(x).(*MapV)
				if !ok {
					unsup("lookup in %T", fr.get(x))
				}
				e := fr.w.mapFind(m, fr.get(i))
				var v Value
				if e != nil {
					v = e.v
				} else {
					v = z()
				}
				if commaOk {
					fr.regs[d] = Tuple{v, mkBool(e != nil)}
				} else {
					fr.regs[d] = v
				}
			}
		}
		_, isgn, _ := basicInfo(ins.Index.Type())
		return func(fr *frame) { fr.regs[d] = fr.w.index(fr.get(x), fr.get(i).(*Expr), isgn) }
	case *ssa.MakeClosure:
		d := cc.slot(ins)
		var ops []*opnd
		for _, b := range ins.Bindings {
			ops = append(ops, cc.op(b))
		}
		f := ins.Fn.(*ssa.Function)
		return func(fr *frame) {
			env := make([]Value, len(ops))
			for i, o := range ops {
				env[i] = fr.get(o)
			}
			fr.regs[d] = &Closure{fn: f, env: env}
		}
	case *ssa.MakeInterface:
		d, x := cc.slot(ins), cc.op(ins.X)
		t := cc.e.canonType(ins.X.Type())
		return func(fr *frame) { fr.regs[d] = Iface{t, fr.get(x)} }
	case *ssa.MakeMap:
		d := cc.slot(ins)
		kt := ins.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[d] = newMap(kt) }
	case *ssa.MakeSlice:
		d, l, c := cc.slot(ins), cc.op(ins.Len), cc.op(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			n, m := fr.w.conInt(fr.get(l)), fr.w.conInt(fr.get(c))
			if n < 0 || m < n {
				fr.w.rtPanic("makeslice: len out of range")
			}
			if m > 1<<20 {
				unsup("makeslice of %d", m)
			}
			fr.regs[d] = makeSlice(et, int(n), int(m))
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(ins.Map), cc.op(ins.Key), cc.op(ins.Value)
		return func(fr *frame) { fr.w.mapSet(fr.get(m).(*MapV), fr.get(k), fr.get(v)) }
	case *ssa.Range:
		d, x := cc.slot(ins), cc.op(ins.X)
		return func(fr *frame) { fr.regs[d] = fr.w.newIter(fr.get(x)) }
	case *ssa.Next:
		d, x := cc.slot(ins), cc.op(ins.Iter)
		return func(fr *frame) { fr.regs[d] = fr.get(x).(*Iter).next(fr.w) }
	case *ssa.Slice:
		return cc.sliceOp(ins)
	case *ssa.SliceToArrayPointer:
		d, x := cc.slot(ins), cc.op(ins.X)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(x).(Slice)
			if len(s) < n {
				fr.w.rtPanic("cannot convert slice to array pointer: length too short")
			}
			if s == nil {
				fr.regs[d] = Ptr(nil)
				return
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[d] = Ptr(p)
		}
	case *ssa.Store:
		a, v := cc.op(ins.Addr), cc.op(ins.Val)
		return func(fr *frame) { fr.w.storeAny(fr.get(a), fr.get(v)) }
	case *ssa.TypeAssert:
		return cc.typeAssert(ins)
	case *ssa.Defer:
		var fv *opnd
		var args []*opnd
		for _, a := range ins.Call.Args {
			args = append(args, cc.op(a))
		}
		fv = cc.op(ins.Call.Value)
		m := ins.Call.Method
		return func(fr *frame) {
			f := fr.get(fv)
			var as []Value
			if m != nil {
				f, as = fr.w.bindMethod(f.(Iface), m)
			}
			for _, a := range args {
				as = append(as, fr.get(a))
			}
			fr.defers = append(fr.defers, deferRec{fn: f, args: as})
		}
	case *ssa.Go:
		return func(fr *frame) { unsup("go statement in %s", fr.fn.fn) }
	case *ssa.MakeChan, *ssa.Select, *ssa.Send:
		return func(fr *frame) { unsup("channel operation in %s", fr.fn.fn) }
	}
	return func(fr *frame) { unsup("instruction %T", ins) }
}

func makeSlice(et types.Type, n, m int) Slice {
	s := make(Slice, m)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		if m > 0 {
			z := zero(et)
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

func (cc *compiler) sliceOp(ins *ssa.Slice) instr {
	d, x := cc.slot(ins), cc.op(ins.X)
	lo, hi, mx := cc.op(ins.Low), cc.op(ins.High), cc.op(ins.Max)
	return func(fr *frame) {
		w := fr.w
		v := fr.get(x)
		var base Slice
		var str Str
		isStr := false
		n, c := 0, 0
		switch b := v.(type) {
		case Str:
			str, isStr = b, true
			n, c = b.Len(), b.Len()
		case Slice:
			base = b
			n, c = len(b), cap(b)
		case Ptr:
			if b == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			base = Slice((*b).(Array))
			n, c = len(base), len(base)
			base = base[:n:n]
		default:
			unsup("slice of %T", v)
		}
		l, h, m := 0, n, c
		get := func(o *opnd, def int, max int) int {
			if o == nil {
				return def
			}
			e := fr.get(o).(*Expr)
			if e.op != OConst {
				// out of range values panic
				w.boundsCheck2(e, max)
				return int(w.concretize(e))
			}
			s := sx(e.k, e.w)
			if s < 0 || s > int64(max) {
				w.rtPanic("slice bounds out of range")
			}
			return int(s)
		}
		m = get(mx, c, c)
		h = get(hi, n, m)
		l = get(lo, 0, h)
		if l > h || h > m {
			w.rtPanic("slice bounds out of range")
		}
		if isStr {
			fr.regs[d] = str.slice(l, h)
			return
		}
		if base == nil {
			fr.regs[d] = Slice(nil)
			return
		}
		fr.regs[d] = base[l:h:m]
	}
}

func (cc *compiler) unop(ins *ssa.UnOp) instr {
	d, x := cc.slot(ins), cc.op(ins.X)
	switch ins.Op {
	case token.MUL:
		return func(fr *frame) { fr.regs[d] = fr.w.loadAny(fr.get(x)) }
	case token.NOT:
		return func(fr *frame) { fr.regs[d] = fr.w.eb.Not(fr.get(x).(*Expr)) }
	case token.XOR:
		return func(fr *frame) { fr.regs[d] = fr.w.eb.Un(OBnot, fr.get(x).(*Expr)) }
	case token.SUB:
		return func(fr *frame) {
			switch v := fr.get(x).(type) {
			case *Expr:
				fr.regs[d] = fr.w.eb.Un(ONeg, v)
			case float64:
				fr.regs[d] = -v
			case SymF:
				unsup("negation of symbolic float")
			case complex128:
				fr.regs[d] = -v
			}
		}
	}
	return func(fr *frame) { unsup("unary %s", ins.Op) }
}

func (w *W) loadAny(a Value) Value {
	switch p := a.(type) {
	case Ptr:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		v := *p
		switch v := v.(type) {
		case Struct, Array:
			return copyVal(v)
		case Poison:
			unsup("uninitialised: %s", v.why)
		}
		return v
	case SymPtr:
		return w.selectIdx(p.base, p.idx)
	case UPtr:
		if p.p != nil {
			return w.loadAny(p.p)
		}
	}
	unsup("load through %T", a)
	return nil
}

func (w *W) storeAny(a Value, v Value) {
	switch p := a.(type) {
	case Ptr:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.store(p, v)
		return
	case SymPtr:
		w.store(Ptr(&p.base[w.concretize(p.idx)]), v)
		return
	}
	unsup("store through %T", a)
}

func (w *W) store(p Ptr, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				w.store(Ptr(&d[i]), v[i])
			}
			return
		}
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				w.store(Ptr(&d[i]), v[i])
			}
			return
		}
	}
	if w.journalOn {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	*p = copyVal(v)
}

func (w *W) idx64(ix *Expr, signed bool) *Expr { return w.eb.Conv(ix, 64, signed) }

func (w *W) boundsCheck(ix *Expr, n int, signed bool) {
	e := w.idx64(ix, signed)
	if ix.w == 8 && !signed && n >= 256 {
		return
	}
	if !w.branch(w.eb.Cmp(OUlt, e, mkConst(64, uint64(n)))) {
		w.rtPanic("index out of range")
	}
}

func (w *W) boundsCheck2(e *Expr, max int) {
	e = w.idx64(e, true)
	if !w.branch(w.eb.Cmp(OUle, e, mkConst(64, uint64(max)))) {
		w.rtPanic("slice bounds out of range")
	}
}

func (w *W) selectIdx(base []Value, idx *Expr) Value {
	allConst := true
	var width uint8
	for _, v := range base {
		e, ok := v.(*Expr)
		if !ok {
			k := w.concretize(idx)
			return w.loadAny(Ptr(&base[k]))
		}
		width = e.w
		if e.op != OConst {
			allConst = false
		}
	}
	if allConst {
		vals := make([]uint64, len(base))
		for i, v := range base {
			vals[i] = v.(*Expr).k
		}
		return w.eb.Table(idx, vals, width)
	}
	r := base[len(base)-1].(*Expr)
	for i := len(base) - 2; i >= 0; i-- {
		r = w.eb.Ite(w.eb.Eq(idx, mkConst(idx.w, uint64(i))), base[i].(*Expr), r)
	}
	return r
}

func (w *W) index(x Value, ix *Expr, signed bool) Value {
	switch b := x.(type) {
	case Str:
		n := b.Len()
		if ix.op == OConst {
			k := uint64(sx(ix.k, ix.w))
			if !signed {
				k = ix.k
			}
			if k >= uint64(n) {
				w.rtPanic("index out of range")
			}
			return b.at(int(k))
		}
		w.boundsCheck(ix, n, signed)
		base := make([]Value, n)
		for i := range base {
			base[i] = b.at(i)
		}
		return w.selectIdx(base, w.idx64(ix, signed))
	case Array:
		if ix.op == OConst {
			k := uint64(sx(ix.k, ix.w))
			if !signed {
				k = ix.k
			}
			if k >= uint64(len(b)) {
				w.rtPanic("index out of range")
			}
			return b[k]
		}
		w.boundsCheck(ix, len(b), signed)
		return w.selectIdx(b, w.idx64(ix, signed))
	}
	unsup("index of %T", x)
	return nil
}

func (w *W) conInt(v Value) int64 {
	e, ok := v.(*Expr)
	if !ok {
		unsup("integer expected, have %T", v)
	}
	return sx(w.concretize(e), e.w)
}

// ---- type assertions ----

func (cc *compiler) typeAssert(ins *ssa.TypeAssert) instr {
	d, x := cc.slot(ins), cc.op(ins.X)
	at := ins.AssertedType
	commaOk := ins.CommaOk
	e := cc.e
	ifc, isIfc := at.Underlying().(*types.Interface)
	can := e.canonType(at)
	return func(fr *frame) {
		v, ok := fr.get(x).(Iface)
		if !ok {
			unsup("type assertion on %T", fr.get(x))
		}
		good := false
		if v.t != nil {
			if isIfc {
				good = e.implements(v.t, can, ifc)
			} else {
				good = v.t == can
			}
		}
		if good {
			var r Value = v
			if !isIfc {
				r = v.v
			}
			if commaOk {
				r = Tuple{r, True}
			}
			fr.regs[d] = r
			return
		}
		if !commaOk {
			fr.w.rtPanic("interface conversion: wrong dynamic type for " + at.String())
		}
		fr.regs[d] = Tuple{zero(at), False}
	}
}

// ---- calls ----

func (cc *compiler) call(c *ssa.CallCommon) func(fr *frame) Value {
	var args []*opnd
	for _, a := range c.Args {
		args = append(args, cc.op(a))
	}
	if c.IsInvoke() {
		x := cc.op(c.Value)
		m := c.Method
		return func(fr *frame) Value {
			recv, ok := fr.get(x).(Iface)
			if !ok {
				unsup("invoke on %T", fr.get(x))
			}
			fn, as := fr.w.bindMethod(recv, m)
			for _, a := range args {
				as = append(as, fr.get(a))
			}
			return fr.w.callValue(fr, fn, as)
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return cc.builtin(f, c, args)
	case *ssa.Function:
		var target *cfn
		e := cc.e
		return func(fr *frame) Value {
			as := make([]Value, len(args))
			for i, a := range args {
				as[i] = fr.get(a)
			}
			t := target
			if t == nil {
				t = e.compile(f)
				target = t
			}
			return fr.w.callC(fr, t, as, nil)
		}
	}
	fv := cc.op(c.Value)
	return func(fr *frame) Value {
		f := fr.get(fv)
		as := make([]Value, len(args))
		for i, a := range args {
			as[i] = fr.get(a)
		}
		return fr.w.callValue(fr, f, as)
	}
}

func (w *W) bindMethod(recv Iface, m *types.Func) (Value, []Value) {
	if recv.t == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if nat, ok := recv.v.(Native); ok {
		_ = nat
	}
	f := w.eng.lookupMethod(recv.t, m)
	if f == nil {
		unsup("no method %s on %s", m.Name(), recv.t)
	}
	return &Closure{fn: f}, []Value{recv.v}
}

func (w *W) callValue(fr *frame, f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok {
		unsup("call of %T", f)
	}
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.bi != nil {
		return w.callBuiltinDyn(fr, c.bi, args)
	}
	if c.nat != nil {
		return c.nat(w, fr, args)
	}
	return w.callC(fr, w.eng.compile(c.fn), args, c.env)
}

func (w *W) callFn(fr *frame, fn *ssa.Function, args, env []Value) Value {
	return w.callC(fr, w.eng.compile(fn), args, env)
}

const maxDepth = 1500

func (w *W) callC(caller *frame, c *cfn, args, env []Value) Value {
	if c.intr != nil {
		return c.intr(w, caller, args)
	}
	if c.external {
		unsup("external function %s", c.fn)
	}
	w.depth++
	if w.depth > maxDepth {
		unsup("call depth in %s", c.fn)
	}
	w.funcs[c.fn]++
	w.stackFns = append(w.stackFns, c.fn)
	fr := &frame{w: w, fn: c, caller: caller}
	fr.regs = make([]Value, c.nregs)
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], env)
	if c.hasDefer {
		fr.runDeferring()
	} else {
		fr.loop(0)
	}
	w.depth--
	w.stackFns = w.stackFns[:len(w.stackFns)-1]
	return fr.result
}

func (fr *frame) loop(b int) {
	w := fr.w
	for b >= 0 {
		cb := &fr.fn.blocks[b]
		if fr.phiVals != nil {
			for i := range cb.phis {
				fr.regs[cb.phis[i].dst] = fr.phiVals[i]
			}
			fr.phiVals = nil
		} else if len(cb.phis) > 0 {
			e := cb.predIx[fr.prev]
			if len(cb.phis) == 1 {
				fr.regs[cb.phis[0].dst] = fr.get(&cb.phis[0].edges[e])
			} else {
				var tmp [8]Value
				vals := tmp[:0]
				for i := range cb.phis {
					vals = append(vals, fr.get(&cb.phis[i].edges[e]))
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = vals[i]
				}
			}
		}
		for _, in := range cb.code {
			in(fr)
		}
		w.steps += cb.n
		if w.steps > w.eng.maxSteps && w.initing == 0 {
			panic(pathEnd{"steps"})
		}
		fr.prev = b
		b = cb.term(fr)
	}
}

// runDeferring runs a function that has deferred calls.
func (fr *frame) runDeferring() {
	w := fr.w
	depth, sd := w.depth, len(w.stackFns)
	start := 0
	for {
		again := func() (again bool) {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				w.depth = depth
				w.stackFns = w.stackFns[:sd]
				fr.panicking = true
				fr.pval = tp.v
				fr.unwindDefers()
				if fr.panicking {
					panic(targetPanic{fr.pval})
				}
				again = true
			}()
			fr.loop(start)
			return false
		}()
		if !again {
			return
		}
		if fr.fn.recoverB < 0 {
			// recovered without named results: return zero values
			fr.result = zeroResults(fr.fn.fn)
			return
		}
		start = fr.fn.recoverB
	}
}

func zeroResults(f *ssa.Function) Value {
	res := f.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

// unwindDefers runs the deferred calls while panicking; a deferred call may itself panic (replacing the panic) or recover.
func (fr *frame) unwindDefers() {
	for len(fr.defers) > 0 {
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.pval = tp.v
				}
			}()
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.w.callValue(fr, d.fn, d.args)
		}()
	}
}

func (w *W) rtPanic(msg string) {
	panic(targetPanic{Iface{t: w.eng.rtErrType, v: cstr("runtime error: " + msg)}})
}

// ---- float helpers ----

func f32(t types.Type, f float64) float64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

var _ = math.Pi
