package main

import (
	"errors"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(w *W, fr *frame, a []Value) Value

func (e *Engine) intrinsicFor(fn *ssa.Function) intrFn {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Name(), "vp") && fn.Parent() == nil && fn.Signature.Recv() == nil && e.isRepoPkg(fn.Pkg.Pkg.Path()) {
		if f, ok := vpIntr[fn.Name()]; ok {
			return f
		}
	}
	if fn.Synthetic == "package initializer" {
		return func(w *W, fr *frame, a []Value) Value { w.ensureInit(fn.Pkg); return nil }
	}
	if f, ok := intr[name]; ok {
		return f
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "internal/race", "internal/msan", "internal/asan":
			return func(w *W, fr *frame, a []Value) Value { return zeroResults(fn) }
		case "sync/atomic":
			return atomicIntr(fn)
		}
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil && fn.Origin().Pkg.Pkg.Path() == "sync/atomic" {
		return atomicIntr(fn)
	}
	return nil
}

func atomicIntr(fn *ssa.Function) intrFn {
	n := fn.Name()
	recv := fn.Signature.Recv()
	if recv != nil {
		// methods of atomic.Bool, Int32, Pointer[T], Value...: operate on the last field
		fieldOf := func(v Value) Ptr {
			p := v.(Ptr)
			st, ok := (*p).(Struct)
			if !ok {
				unsup("atomic receiver %T", *p)
			}
			return Ptr(&st[len(st)-1])
		}
		rt := recv.Type().String()
		isBool := strings.HasSuffix(rt, "atomic.Bool")
		isPtr := strings.Contains(rt, "atomic.Pointer[")
		res := fn.Signature.Results()
		get := func(w *W, p Ptr) Value {
			v := *p
			if isBool {
				return w.eb.Not(w.eb.Eq(v.(*Expr), mkConst(32, 0)))
			}
			if isPtr {
				u, ok := v.(UPtr)
				if ok {
					if u.p == nil {
						return Ptr(nil)
					}
					return u.p
				}
			}
			return v
		}
		put := func(w *W, p Ptr, v Value) {
			if isBool {
				w.store(p, w.eb.Ite(v.(*Expr), mkConst(32, 1), mkConst(32, 0)))
				return
			}
			if isPtr {
				if pp, ok := v.(Ptr); ok && pp == nil {
					w.store(p, UPtr{})
					return
				}
				w.store(p, UPtr{p: v})
				return
			}
			w.store(p, v)
		}
		switch n {
		case "Load":
			return func(w *W, fr *frame, a []Value) Value { return get(w, fieldOf(a[0])) }
		case "Store":
			return func(w *W, fr *frame, a []Value) Value { put(w, fieldOf(a[0]), a[1]); return nil }
		case "Swap":
			return func(w *W, fr *frame, a []Value) Value {
				p := fieldOf(a[0])
				o := get(w, p)
				put(w, p, a[1])
				return o
			}
		case "Add":
			return func(w *W, fr *frame, a []Value) Value {
				p := fieldOf(a[0])
				v := w.eb.Bin(OAdd, (*p).(*Expr), a[1].(*Expr))
				w.store(p, v)
				return v
			}
		case "CompareAndSwap":
			return func(w *W, fr *frame, a []Value) Value {
				p := fieldOf(a[0])
				if w.branch(w.equal(get(w, p), a[1])) {
					put(w, p, a[2])
					return True
				}
				return False
			}
		}
		_ = res
		return nil
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(w *W, fr *frame, a []Value) Value { return w.loadAny(a[0]) }
	case strings.HasPrefix(n, "Store"):
		return func(w *W, fr *frame, a []Value) Value { w.storeAny(a[0], a[1]); return nil }
	case strings.HasPrefix(n, "Add"):
		return func(w *W, fr *frame, a []Value) Value {
			v := w.eb.Bin(OAdd, w.loadAny(a[0]).(*Expr), a[1].(*Expr))
			w.storeAny(a[0], v)
			return v
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(w *W, fr *frame, a []Value) Value {
			if w.branch(w.equal(w.loadAny(a[0]), a[1])) {
				w.storeAny(a[0], a[2])
				return True
			}
			return False
		}
	case strings.HasPrefix(n, "Swap"):
		return func(w *W, fr *frame, a []Value) Value {
			o := w.loadAny(a[0])
			w.storeAny(a[0], a[1])
			return o
		}
	}
	return nil
}

// ---- harness API ----

func (w *W) tapeVar(width uint8) *Expr {
	v := w.newVar(width)
	w.tape = append(w.tape, v)
	return v
}

var vpIntr = map[string]intrFn{
	"vpByte": func(w *W, fr *frame, a []Value) Value { return w.tapeVar(8) },
	"vpBool": func(w *W, fr *frame, a []Value) Value { return w.tapeVar(0) },
	"vpU8":   func(w *W, fr *frame, a []Value) Value { return w.tapeVar(8) },
	"vpU16":  func(w *W, fr *frame, a []Value) Value { return w.tapeVar(16) },
	"vpU32":  func(w *W, fr *frame, a []Value) Value { return w.tapeVar(32) },
	"vpU64":  func(w *W, fr *frame, a []Value) Value { return w.tapeVar(64) },
	"vpI8":   func(w *W, fr *frame, a []Value) Value { return w.tapeVar(8) },
	"vpI16":  func(w *W, fr *frame, a []Value) Value { return w.tapeVar(16) },
	"vpI32":  func(w *W, fr *frame, a []Value) Value { return w.tapeVar(32) },
	"vpI64":  func(w *W, fr *frame, a []Value) Value { return w.tapeVar(64) },
	"vpInt":  func(w *W, fr *frame, a []Value) Value { return w.tapeVar(64) },
	"vpChoose": func(w *W, fr *frame, a []Value) Value {
		n := w.choose(int(w.conInt(a[0])))
		w.tape = append(w.tape, mkConst(64, uint64(n)))
		return mkConst(64, uint64(n))
	},
	"vpAssume": func(w *W, fr *frame, a []Value) Value { w.assume(a[0].(*Expr)); return nil },
	"vpAssert": func(w *W, fr *frame, a []Value) Value {
		w.assert(a[0].(*Expr), a[1].(Str).String())
		return nil
	},
	"vpReach": func(w *W, fr *frame, a []Value) Value {
		w.reached = append(w.reached, a[0].(Str).String())
		return nil
	},
	"vpObs": func(w *W, fr *frame, a []Value) Value {
		v := a[1].(Iface)
		w.digest = append(w.digest, obsRec{a[0].(Str).String(), obsCopy(w, v.v)})
		return nil
	},
	"vpBound": func(w *W, fr *frame, a []Value) Value {
		v := a[1]
		if w.eng.tier == "thorough" {
			v = a[2]
		}
		name := a[0].(Str).String()
		w.ex.mu.Lock()
		w.ex.res.Bounds[name] = strconv.FormatInt(w.conInt(v), 10)
		w.ex.mu.Unlock()
		w.tape = append(w.tape, v.(*Expr))
		return v
	},
	// vpJSONField(p, key): the address of the field of *p that encoding/json would decode key into, or nil
	"vpJSONField": func(w *W, fr *frame, a []Value) Value {
		in := a[0].(Iface)
		key := a[1].(Str)
		if !key.concrete() || in.t == nil {
			unsup("field of a symbolic name")
		}
		pt, ok := in.t.Underlying().(*types.Pointer)
		if !ok {
			unsup("field of %s", in.t)
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			unsup("field of %s", in.t)
		}
		at := -1
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			name := f.Name()
			if tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]; tag == "-" || !f.Exported() || f.Embedded() {
				continue
			} else if tag != "" {
				name = tag
			}
			if name == key.s {
				at = i
				break
			}
			if at < 0 && strings.EqualFold(name, key.s) {
				at = i
			}
		}
		if at < 0 {
			return Iface{}
		}
		v := (*in.v.(Ptr)).(Struct)
		return Iface{t: w.eng.canonType(types.NewPointer(st.Field(at).Type())), v: Ptr(&v[at])}
	},
	"vpThorough": func(w *W, fr *frame, a []Value) Value {
		v := mkBool(w.eng.tier == "thorough")
		w.tape = append(w.tape, v)
		return v
	},
	"vpPermuteMaps": func(w *W, fr *frame, a []Value) Value {
		w.mapPerm = a[0].(*Expr).isTrue()
		return nil
	},
	"vpAnd": func(w *W, fr *frame, a []Value) Value {
		r := True
		for _, x := range a[0].(Slice) {
			r = w.eb.And(r, x.(*Expr))
		}
		return r
	},
	"vpOr": func(w *W, fr *frame, a []Value) Value {
		r := False
		for _, x := range a[0].(Slice) {
			r = w.eb.Or(r, x.(*Expr))
		}
		return r
	},
	"vpIteByte": func(w *W, fr *frame, a []Value) Value { return w.eb.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr)) },
	"vpIteInt":  func(w *W, fr *frame, a []Value) Value { return w.eb.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr)) },
	"vpSkip":    func(w *W, fr *frame, a []Value) Value { panic(pathEnd{"skip"}) },
}

func obsCopy(w *W, v Value) Value {
	switch x := v.(type) {
	case Slice:
		ok := true
		for _, e := range x {
			if b, isE := e.(*Expr); !isE || b.w != 8 {
				ok = false
			}
		}
		if ok {
			return w.bytesToStr(x)
		}
	}
	return v
}

// ---- standard library ----

func str(v Value) Str {
	s, ok := v.(Str)
	if !ok {
		unsup("string expected, have %T", v)
	}
	return s
}

func (w *W) asStr(v Value) Str {
	switch v := v.(type) {
	case Str:
		return v
	case Slice:
		return w.bytesToStr(v)
	}
	unsup("string or bytes expected, have %T", v)
	return Str{}
}

func (w *W) indexOf(s, sep Str, from int) int {
	if s.concrete() && sep.concrete() {
		i := strings.Index(s.s[from:], sep.s)
		if i < 0 {
			return -1
		}
		return i + from
	}
	for i := from; i+sep.Len() <= s.Len(); i++ {
		if w.branch(w.strEq(s.slice(i, i+sep.Len()), sep)) {
			return i
		}
	}
	return -1
}

func (w *W) lastIndexOf(s, sep Str) int {
	for i := s.Len() - sep.Len(); i >= 0; i-- {
		if w.branch(w.strEq(s.slice(i, i+sep.Len()), sep)) {
			return i
		}
	}
	return -1
}

func byteStr(v Value) Str { return mkStr([]*Expr{v.(*Expr)}) }

func (w *W) countOf(s, sep Str) int {
	if sep.Len() == 0 {
		unsup("count of empty separator")
	}
	n := 0
	for i := 0; ; {
		j := w.indexOf(s, sep, i)
		if j < 0 {
			return n
		}
		n++
		i = j + sep.Len()
	}
}

// toCase maps ASCII case without forking; non-ASCII input falls back to the library code.
func (w *W) toCase(s Str, upper bool) (Str, bool) {
	if s.concrete() {
		if upper {
			return cstr(strings.ToUpper(s.s)), true
		}
		return cstr(strings.ToLower(s.s)), true
	}
	c := True
	for i := 0; i < s.Len(); i++ {
		c = w.eb.And(c, w.eb.Cmp(OUlt, s.at(i), mkConst(8, 0x80)))
	}
	if !w.branch(c) {
		return Str{}, false
	}
	lo, hi := uint64('A'), uint64('Z')
	d := uint64(32)
	if upper {
		lo, hi = 'a', 'z'
		d = 256 - 32
	}
	out := make([]*Expr, s.Len())
	for i := range out {
		b := s.at(i)
		in := w.eb.And(w.eb.Cmp(OUle, mkConst(8, lo), b), w.eb.Cmp(OUle, b, mkConst(8, hi)))
		out[i] = w.eb.Ite(in, w.eb.Bin(OAdd, b, mkConst(8, d)), b)
	}
	return mkStr(out), true
}

// fallback interprets the real body of a function that has an intrinsic.
func (w *W) fallback(fr *frame, path, name string, args []Value) Value {
	pkg := w.eng.prog.ImportedPackage(path)
	if pkg == nil {
		unsup("package %s not loaded", path)
	}
	fn := pkg.Func(name)
	w.eng.buildPkg(pkg)
	key := "body:" + path + "." + name
	var c *cfn
	if x, ok := w.eng.bodies.Load(key); ok {
		c = x.(*cfn)
	} else {
		c = &cfn{fn: fn, recoverB: -1}
		cc := &compiler{e: w.eng, fn: fn, slots: map[ssa.Value]int{}, c: c}
		cc.run()
		w.eng.bodies.Store(key, c)
	}
	return w.callC(fr, c, args, nil)
}

var pow10 [20]uint64

func init() {
	p := uint64(1)
	for i := range pow10 {
		pow10[i] = p
		p *= 10
	}
}

// fmtUintSym renders a symbolic unsigned value in base 10 using fresh digit variables tied to it.
func (w *W) fmtUintSym(u *Expr) []*Expr {
	eb := w.eb
	if u.w != 64 {
		u = eb.Zext(u, 64)
	}
	key := "u" + strconv.Itoa(int(u.id))
	if v, ok := w.freshF[key]; ok {
		return v.([]*Expr)
	}
	if d := w.numeral(u); d != nil && len(d) > 1 {
		for len(d) > 1 && w.branch(eb.Eq(d[0], mkConst(8, 0))) {
			d = d[1:]
		}
		out := make([]*Expr, len(d))
		for i := range d {
			out[i] = eb.Bin(OAdd, d[i], mkConst(8, '0'))
		}
		if w.freshF == nil {
			w.freshF = map[string]Value{}
		}
		w.freshF[key] = out
		return out
	}
	n := 1
	for n < 20 && !w.branch(eb.Cmp(OUlt, u, mkConst(64, pow10[n]))) {
		n++
	}
	var out []*Expr
	if n == 1 && u.op == OZext && u.a.w == 8 {
		out = []*Expr{eb.Bin(OAdd, u.a, mkConst(8, '0'))}
	} else {
		var acc *Expr
		digits := make([]*Expr, n)
		for i := 0; i < n; i++ {
			d := w.newVar(8)
			digits[i] = d
			lo := uint64(0)
			if i == 0 && n > 1 {
				lo = 1
			}
			k := int(d.k)
			var s [4]uint64
			for x := lo; x <= 9; x++ {
				s[0] |= 1 << x
			}
			w.doms[k] = s
			out = append(out, eb.Bin(OAdd, d, mkConst(8, '0')))
			if acc == nil {
				acc = eb.Zext(d, 64)
			} else {
				acc = eb.Bin(OAdd, eb.Bin(OMul, acc, mkConst(64, 10)), eb.Zext(d, 64))
			}
		}
		// keep the current model valid
		if eq := eb.Eq(u, acc); w.evalModel(eq) != 1 {
			val := w.evalModel(u)
			for i := n - 1; i >= 0; i-- {
				w.model[digits[i].k] = val % 10
				val /= 10
			}
		}
		w.addCons(eb.Eq(u, acc))
	}
	if w.freshF == nil {
		w.freshF = map[string]Value{}
	}
	w.freshF[key] = out
	return out
}

func (w *W) fmtInt(e *Expr, signed bool, base int) Str {
	if e.op == OConst {
		if signed {
			return cstr(strconv.FormatInt(sx(e.k, e.w), base))
		}
		return cstr(strconv.FormatUint(e.k, base))
	}
	eb := w.eb
	neg := false
	x := eb.Conv(e, 64, signed)
	if signed {
		if w.branch(eb.Cmp(OSlt, x, mkConst(64, 0))) {
			neg = true
			x = eb.Un(ONeg, x)
		}
	}
	var out []*Expr
	if neg {
		out = append(out, const8['-'])
	}
	switch base {
	case 10:
		if x.op == OConst {
			return concat(mkStr(out), cstr(strconv.FormatUint(x.k, 10)))
		}
		out = append(out, w.fmtUintSym(x)...)
	case 2, 16:
		sh := 1
		if base == 16 {
			sh = 4
		}
		n := 1
		for n*sh < 64 && !w.branch(eb.Cmp(OUlt, x, mkConst(64, 1<<(n*sh)))) {
			n++
		}
		for i := n - 1; i >= 0; i-- {
			d := eb.Trunc(eb.Bin(OBand, eb.Bin(OLshr, x, mkConst(64, uint64(i*sh))), mkConst(64, uint64(base-1))), 8)
			if base == 2 {
				out = append(out, eb.Bin(OAdd, d, mkConst(8, '0')))
			} else {
				out = append(out, eb.Ite(eb.Cmp(OUlt, d, mkConst(8, 10)), eb.Bin(OAdd, d, mkConst(8, '0')), eb.Bin(OAdd, d, mkConst(8, 'a'-10))))
			}
		}
	default:
		unsup("symbolic integer in base %d", base)
	}
	return mkStr(out)
}

func (w *W) fmtFloat(v Value, f byte, prec, bits int) Str {
	switch x := v.(type) {
	case float64:
		return cstr(strconv.FormatFloat(x, f, prec, bits))
	case SymF:
		if f == 'f' || (f == 'g' && prec == -1) {
			if f == 'g' {
				lim := uint64(1) << 50
				if !w.branch(w.eb.Cmp(OUle, w.eb.Bin(OAdd, x.e, mkConst(64, lim)), mkConst(64, 2*lim))) {
					unsup("large symbolic float in %%g")
				}
			}
			if bits == 32 {
				lim := uint64(1) << 24
				if !w.branch(w.eb.Cmp(OUle, w.eb.Bin(OAdd, x.e, mkConst(64, lim)), mkConst(64, 2*lim))) {
					unsup("large symbolic float in 32 bits")
				}
			}
			s := w.fmtInt(x.e, true, 10)
			if prec > 0 {
				s = concat(s, cstr("."+strings.Repeat("0", prec)))
			}
			return s
		}
	}
	if x, ok := v.(SymT); ok && f == 'f' && prec == -1 && (bits == x.n || bits == 32 && symtBits(x.s, 32)) {
		t := x.s
		for i := 0; i < t.Len(); i++ {
			if t.at(i).isConst() && t.at(i).k == 'e' {
				unsup("format of a symbolic float with an exponent")
			}
		}
		// the shortest text of a float with few digits is the text it was read from
		return t
	}
	unsup("format of symbolic float as %c", f)
	return Str{}
}

// parseFloat supports concrete text and symbolic plain integers of at most 15 digits.
func (w *W) parseFloat(s Str, bits int) (Value, error) {
	if s.concrete() {
		f, err := strconv.ParseFloat(s.s, bits)
		if bits == 32 {
			f = float64(float32(f))
		}
		return f, err
	}
	i := 0
	neg := false
	eb := w.eb
	n := s.Len()
	if n > 0 && w.branch(eb.Eq(s.at(0), const8['-'])) {
		neg = true
		i++
	}
	if i < n {
		if c, ok := w.canonFloat(s.slice(i, n)); ok && symtBits(s, bits) {
			if !c {
				unsup("symbolic float text that is not canonical")
			}
			return SymT{s, bits}, nil
		}
	}
	if i >= n || n-i > 15 || bits == 32 && n-i > 7 {
		unsup("symbolic float text of %d bytes", n)
	}
	acc := mkConst(64, 0)
	first := true
	for ; i < n; i++ {
		d := eb.Bin(OSub, s.at(i), mkConst(8, '0'))
		if !w.branch(eb.Cmp(OUle, d, mkConst(8, 9))) {
			if bad, err := w.notFloat(s); bad {
				return 0.0, err
			}
			unsup("symbolic float text that is not a plain integer")
		}
		if first {
			acc = eb.Zext(d, 64)
			first = false
		} else {
			acc = eb.Bin(OAdd, eb.Bin(OMul, acc, mkConst(64, 10)), eb.Zext(d, 64))
		}
	}
	if neg {
		acc = eb.Un(ONeg, acc)
		if w.branch(eb.Eq(acc, mkConst(64, 0))) {
			return math.Copysign(0, -1), nil
		}
	}
	return SymF{acc}, nil
}

// canonFloat recognises digits.digits[e+-digits] with at most 15 digits, no leading zeros and no trailing zero of the fraction.
func (w *W) canonFloat(s Str) (canon, isFloat bool) {
	dot, exp := -1, -1
	n := s.Len()
	for i := 0; i < n; i++ {
		c := s.at(i)
		if !c.isConst() {
			continue
		}
		switch c.k {
		case '.':
			dot = i
		case 'e':
			exp = i
		}
	}
	if dot < 1 && exp < 1 || n > 16 {
		return false, false
	}
	eb := w.eb
	digit := func(i int) bool {
		return w.branch(eb.Cmp(OUle, eb.Bin(OSub, s.at(i), mkConst(8, '0')), mkConst(8, 9)))
	}
	end := n
	if exp >= 0 {
		end = exp
		for i := exp + 1; i < n; i++ {
			if i == exp+1 && s.at(i).isConst() && (s.at(i).k == '+' || s.at(i).k == '-') {
				continue
			}
			if !digit(i) {
				return false, true
			}
		}
		if n-exp < 3 || n-exp > 4 {
			return false, true
		}
	}
	for i := 0; i < end; i++ {
		if i != dot && !digit(i) {
			return false, true
		}
	}
	if exp < 0 && w.branch(eb.Eq(s.at(end-1), const8['0'])) {
		return false, true
	}
	if (dot > 1 || dot < 0 && end > 1 || exp >= 0) && w.branch(eb.Eq(s.at(0), const8['0'])) {
		return false, true
	}
	return true, true
}

// notFloat reports whether the text certainly is no float: it has a byte no float text contains.
func (w *W) notFloat(s Str) (bool, error) {
	for i := 0; i < s.Len(); i++ {
		if c := s.at(i); c.isConst() && !strings.ContainsRune("0123456789+-.eEpPxX_infatyINFATYabcdABCD", rune(c.k)) {
			return true, errors.New("strconv.ParseFloat: parsing: invalid syntax")
		}
	}
	return false, nil
}

func (w *W) mkErr(msg string) Value {
	pkg := w.eng.prog.ImportedPackage("errors")
	t := types.NewPointer(pkg.Type("errorString").Type())
	p := new(Value)
	*p = Struct{cstr(msg)}
	return Iface{w.eng.canonType(t), Ptr(p)}
}

func (w *W) bufAppend(a Value, s Str) Value {
	return w.appendVals(a.(Slice), strToBytes(s), types.Typ[types.Uint8])
}

func math1(f func(float64) float64, sym func(w *W, s SymF) Value) intrFn {
	return func(w *W, fr *frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return f(x)
		case SymF:
			if sym != nil {
				return sym(w, x)
			}
		}
		unsup("math function of symbolic float")
		return nil
	}
}

func idF(w *W, s SymF) Value { return s }

var intr map[string]intrFn

func nop(w *W, fr *frame, a []Value) Value { return nil }

func init() {
	intr = map[string]intrFn{
		"(*sync.Mutex).Lock":                        nop,
		"(*sync.Mutex).Unlock":                      nop,
		"(*sync.RWMutex).Lock":                      nop,
		"(*sync.RWMutex).Unlock":                    nop,
		"(*sync.RWMutex).RLock":                     nop,
		"(*sync.RWMutex).RUnlock":                   nop,
		"runtime.KeepAlive":                         nop,
		"runtime.SetFinalizer":                      nop,
		"runtime.GC":                                nop,
		"(*strings.Builder).copyCheck":              nop,
		"internal/bytealg.init":                     nop,
		"internal/abi.NoEscape":                     func(w *W, fr *frame, a []Value) Value { return a[0] },
		"internal/abi.Escape":                       func(w *W, fr *frame, a []Value) Value { return a[0] },
		"internal/godebug.New":                      func(w *W, fr *frame, a []Value) Value { return Ptr(new(Value)) },
		"(*internal/godebug.Setting).Value":         func(w *W, fr *frame, a []Value) Value { return Str{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*sync.Pool).Put":                          nop,
		"(*sync.Pool).Get": func(w *W, fr *frame, a []Value) Value {
			st := (*(a[0].(Ptr))).(Struct)
			f := st[len(st)-1]
			if c, ok := f.(*Closure); ok && c != nil {
				return w.callValue(fr, f, nil)
			}
			return Iface{}
		},
		"internal/bytealg.MakeNoZero": func(w *W, fr *frame, a []Value) Value {
			n := int(w.conInt(a[0]))
			c := w.growCap(1, 0, 0, max(n, 1))
			return makeSlice(types.Typ[types.Uint8], n, max(c, n))
		},
		"unique.Make": func(w *W, fr *frame, a []Value) Value {
			k, ok := w.concKey(a[0])
			if !ok {
				unsup("unique.Make of symbolic value")
			}
			m, _ := w.nat["unique"].(map[any]Ptr)
			if m == nil {
				m = map[any]Ptr{}
				w.nat["unique"] = m
			}
			p := m[k]
			if p == nil {
				p = new(Value)
				*p = copyVal(a[0])
				m[k] = p
			}
			return Struct{p}
		},
	}
	// strings and bytes
	indexI := func(w *W, fr *frame, a []Value) Value {
		return int64c(w.indexOf(w.asStr(a[0]), w.asStr(a[1]), 0))
	}
	indexB := func(w *W, fr *frame, a []Value) Value { return int64c(w.indexOf(w.asStr(a[0]), byteStr(a[1]), 0)) }
	lastIndexB := func(w *W, fr *frame, a []Value) Value { return int64c(w.lastIndexOf(w.asStr(a[0]), byteStr(a[1]))) }
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/stringslite.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		intr[n] = indexI
	}
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"} {
		intr[n] = indexB
	}
	for _, n := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		intr[n] = lastIndexB
	}
	for _, n := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		intr[n] = func(w *W, fr *frame, a []Value) Value { return int64c(w.lastIndexOf(w.asStr(a[0]), w.asStr(a[1]))) }
	}
	for _, n := range []string{"strings.Contains", "bytes.Contains"} {
		intr[n] = func(w *W, fr *frame, a []Value) Value {
			s, p := w.asStr(a[0]), w.asStr(a[1])
			if s.concrete() && p.concrete() {
				return mkBool(strings.Contains(s.s, p.s))
			}
			r := False
			for i := 0; i+p.Len() <= s.Len(); i++ {
				r = w.eb.Or(r, w.strEq(s.slice(i, i+p.Len()), p))
			}
			return r
		}
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		intr[n] = func(w *W, fr *frame, a []Value) Value { return int64c(w.countOf(w.asStr(a[0]), byteStr(a[1]))) }
	}
	for _, n := range []string{"strings.Count", "bytes.Count"} {
		n := n
		intr[n] = func(w *W, fr *frame, a []Value) Value {
			sep := w.asStr(a[1])
			if sep.Len() == 0 {
				return w.fallback(fr, strings.Split(n, ".")[0], "Count", a)
			}
			return int64c(w.countOf(w.asStr(a[0]), sep))
		}
	}
	intr["bytes.Equal"] = func(w *W, fr *frame, a []Value) Value { return w.strEq(w.asStr(a[0]), w.asStr(a[1])) }
	intr["internal/bytealg.Equal"] = intr["bytes.Equal"]
	cmp := func(w *W, fr *frame, a []Value) Value {
		x, y := w.asStr(a[0]), w.asStr(a[1])
		eb := w.eb
		return eb.Ite(w.strEq(x, y), mkConst(64, 0), eb.Ite(w.strLess(x, y, false), mkConst(64, ^uint64(0)), mkConst(64, 1)))
	}
	for _, n := range []string{"bytes.Compare", "strings.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString"} {
		intr[n] = cmp
	}
	for _, up := range []bool{false, true} {
		up := up
		nm := "ToLower"
		if up {
			nm = "ToUpper"
		}
		intr["strings."+nm] = func(w *W, fr *frame, a []Value) Value {
			if r, ok := w.toCase(str(a[0]), up); ok {
				return r
			}
			return w.fallback(fr, "strings", nm, a)
		}
		intr["bytes."+nm] = func(w *W, fr *frame, a []Value) Value {
			if r, ok := w.toCase(w.asStr(a[0]), up); ok {
				return strToBytes(r)
			}
			return w.fallback(fr, "bytes", nm, a)
		}
	}
	for _, p := range []string{"strings", "bytes"} {
		p := p
		intr[p+".EqualFold"] = func(w *W, fr *frame, a []Value) Value {
			x, y := w.asStr(a[0]), w.asStr(a[1])
			lx, ok1 := w.toCase(x, false)
			if ok1 {
				if ly, ok2 := w.toCase(y, false); ok2 && isASCII(x) && isASCII(y) {
					return w.strEq(lx, ly)
				}
			}
			return w.fallback(fr, p, "EqualFold", a)
		}
	}
	for _, n := range []string{"IndexRune", "ContainsRune"} {
		n := n
		intr["strings."+n] = func(w *W, fr *frame, a []Value) Value {
			s, r := w.asStr(a[0]), a[1].(*Expr)
			if r.op == OConst || !s.concrete() || s.Len() == 0 || s.Len() > 64 || !isASCII(s) {
				return w.fallback(fr, "strings", n, a)
			}
			in := w.inSet(s.s, r)
			if n == "ContainsRune" {
				return in
			}
			if !w.branch(in) {
				return int64c(-1)
			}
			idx := mkConst(64, uint64(s.Len()-1))
			for i := s.Len() - 2; i >= 0; i-- {
				idx = w.eb.Ite(w.eb.Eq(r, mkConst(32, uint64(s.s[i]))), mkConst(64, uint64(i)), idx)
			}
			return idx
		}
	}
	intr["strings.Clone"] = func(w *W, fr *frame, a []Value) Value { return a[0] }
	intr["internal/stringslite.Clone"] = intr["strings.Clone"]
	// strconv
	intr["strconv.Itoa"] = func(w *W, fr *frame, a []Value) Value { return w.fmtInt(a[0].(*Expr), true, 10) }
	intr["strconv.FormatInt"] = func(w *W, fr *frame, a []Value) Value {
		return w.fmtInt(a[0].(*Expr), true, int(w.conInt(a[1])))
	}
	intr["strconv.FormatUint"] = func(w *W, fr *frame, a []Value) Value {
		return w.fmtInt(a[0].(*Expr), false, int(w.conInt(a[1])))
	}
	intr["strconv.AppendInt"] = func(w *W, fr *frame, a []Value) Value {
		return w.bufAppend(a[0], w.fmtInt(a[1].(*Expr), true, int(w.conInt(a[2]))))
	}
	intr["strconv.AppendUint"] = func(w *W, fr *frame, a []Value) Value {
		return w.bufAppend(a[0], w.fmtInt(a[1].(*Expr), false, int(w.conInt(a[2]))))
	}
	// the environment is fixed: the time zone is UTC and nothing else is set (native replays run with TZ=UTC)
	intr["syscall.Getenv"] = func(w *W, fr *frame, a []Value) Value {
		if s := a[0].(Str); s.concrete() && s.s == "TZ" {
			return Tuple{cstr("UTC"), True}
		}
		return Tuple{cstr(""), False}
	}
	intr["strconv.FormatFloat"] = func(w *W, fr *frame, a []Value) Value {
		return w.fmtFloat(a[0], byte(w.conInt(a[1])), int(w.conInt(a[2])), int(w.conInt(a[3])))
	}
	intr["strconv.AppendFloat"] = func(w *W, fr *frame, a []Value) Value {
		return w.bufAppend(a[0], w.fmtFloat(a[1], byte(w.conInt(a[2])), int(w.conInt(a[3])), int(w.conInt(a[4]))))
	}
	intr["strconv.ParseFloat"] = func(w *W, fr *frame, a []Value) Value {
		f, err := w.parseFloat(str(a[0]), int(w.conInt(a[1])))
		if err != nil {
			return Tuple{f, w.mkErr(err.Error())}
		}
		return Tuple{f, Iface{}}
	}
	concStr1 := func(name string, f func(string) string) {
		old := name
		intr[name] = func(w *W, fr *frame, a []Value) Value {
			s := str(a[0])
			if s.concrete() {
				return cstr(f(s.s))
			}
			i := strings.LastIndex(old, ".")
			return w.fallback(fr, old[:i], old[i+1:], a)
		}
	}
	concStr1("strconv.Quote", strconv.Quote)
	concStr1("strings.TrimSpace", strings.TrimSpace)
	// math
	intr["math.Float64bits"] = func(w *W, fr *frame, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			unsup("bits of symbolic float")
		}
		return mkConst(64, math.Float64bits(f))
	}
	intr["math.Float32bits"] = func(w *W, fr *frame, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			unsup("bits of symbolic float")
		}
		return mkConst(32, uint64(math.Float32bits(float32(f))))
	}
	intr["math.Float64frombits"] = func(w *W, fr *frame, a []Value) Value {
		return math.Float64frombits(w.concretize(a[0].(*Expr)))
	}
	intr["math.Float32frombits"] = func(w *W, fr *frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(w.concretize(a[0].(*Expr)))))
	}
	intr["math.IsInf"] = func(w *W, fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return mkBool(math.IsInf(f, int(w.conInt(a[1]))))
		}
		return False
	}
	intr["math.IsNaN"] = func(w *W, fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return mkBool(math.IsNaN(f))
		}
		return False
	}
	intr["math.Inf"] = func(w *W, fr *frame, a []Value) Value { return math.Inf(int(w.conInt(a[0]))) }
	intr["math.NaN"] = func(w *W, fr *frame, a []Value) Value { return math.NaN() }
	intr["math.Trunc"] = math1(math.Trunc, idF)
	intr["math.Floor"] = math1(math.Floor, idF)
	intr["math.Ceil"] = math1(math.Ceil, idF)
	intr["math.Round"] = math1(math.Round, idF)
	intr["math.RoundToEven"] = math1(math.RoundToEven, idF)
	intr["math.Sqrt"] = math1(math.Sqrt, nil)
	intr["math.Abs"] = math1(math.Abs, func(w *W, s SymF) Value {
		return SymF{w.eb.Ite(w.eb.Cmp(OSlt, s.e, mkConst(64, 0)), w.eb.Un(ONeg, s.e), s.e)}
	})
	// sort
	intr["sort.Slice"] = sortSlice
	intr["sort.SliceStable"] = sortSlice
	// errors
	intr["errors.Is"] = func(w *W, fr *frame, a []Value) Value {
		err, target := a[0].(Iface), a[1].(Iface)
		for err.t != nil {
			if types.Comparable(err.t) && w.branch(w.equal(err, target)) {
				return True
			}
			next, ok := w.callMethodByName(fr, err, "Unwrap")
			if !ok {
				return False
			}
			n, isI := next.(Iface)
			if !isI {
				return False
			}
			err = n
		}
		return mkBool(target.t == nil)
	}
	initFmt()
	initRegexp()
}

func isASCII(s Str) bool {
	if !s.concrete() {
		return true // toCase succeeded, hence all bytes are ASCII on this path
	}
	for i := 0; i < len(s.s); i++ {
		if s.s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func sortSlice(w *W, fr *frame, a []Value) Value {
	s, ok := a[0].(Iface).v.(Slice)
	if !ok {
		unsup("sort.Slice of %T", a[0].(Iface).v)
	}
	if len(s) > 12 {
		conc := sort.SearchInts // keep the import honest
		_ = conc
		unsup("sort.Slice of %d elements", len(s))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !w.branch(w.callValue(fr, a[1], []Value{int64c(j), int64c(j - 1)}).(*Expr)) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			w.store(Ptr(&s[j]), y)
			w.store(Ptr(&s[j-1]), x)
		}
	}
	return nil
}

// callMethodByName calls a niladic method when the dynamic type has it.
func (w *W) callMethodByName(fr *frame, v Iface, name string) (Value, bool) {
	f := w.eng.methodByName(v.t, name)
	if f == nil || f.Signature.Params().Len() != 0 {
		return nil, false
	}
	return w.callFn(fr, f, []Value{v.v}, nil), true
}

// inSet says that the rune is one of the string's (ASCII) characters, as few ranges as possible.
func (w *W) inSet(set string, r *Expr) *Expr {
	var has [129]bool
	for i := 0; i < len(set); i++ {
		has[set[i]] = true
	}
	in := False
	for i := 0; i < 128; i++ {
		if !has[i] {
			continue
		}
		j := i
		for has[j+1] {
			j++
		}
		c := func(k int) *Expr { return mkConst(32, uint64(k)) }
		if i == j {
			in = w.eb.Or(in, w.eb.Eq(r, c(i)))
		} else {
			in = w.eb.Or(in, w.eb.And(w.eb.Cmp(OUle, c(i), r), w.eb.Cmp(OUle, r, c(j))))
		}
		i = j
	}
	return in
}
