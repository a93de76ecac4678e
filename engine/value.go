package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Expr            integers and booleans (constant or symbolic)
//	float64          floating point (float32 values are kept rounded)
//	SymF             a float64 that is exactly equal to a symbolic integer
//	complex128
//	Str              strings
//	Struct, Array    aggregates, immutable while in registers
//	Slice            []Value with identity
//	Ptr              *Value
//	SymPtr           &base[idx] with a symbolic idx (load/store only)
//	Iface            interfaces
//	*MapV            maps (nil pointer is the nil map)
//	*Closure         functions (nil pointer is the nil func)
//	Tuple
//	UPtr             unsafe.Pointer / *byte obtained from unsafe.SliceData or unsafe.StringData
//	*Iter            range iterators
//	Native           opaque engine objects (compiled regexps, ...)
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Ptr *Value
type Tuple []Value

type SymPtr struct {
	base []Value
	idx  *Expr
}

type SymF struct {
	e *Expr // signed 64-bit integer value
}

// SymT is a float64 known only by its canonical text: decimal digits with a fraction whose last digit is not zero, or with an
// exponent.  It is never integral unless it has an exponent.
type SymT struct {
	s Str
	n int // 64, or 32 for the float32 nearest to the text
}

// symtBits says whether the text has few enough digits to survive the given width.
func symtBits(s Str, bits int) bool {
	d := 0
	for i := 0; i < s.Len(); i++ {
		c := s.at(i)
		if c.isConst() && c.k == 'e' && bits == 32 {
			return false
		}
		if !c.isConst() || c.k >= '0' && c.k <= '9' {
			d++
		}
	}
	return bits == 64 || d <= 6
}

// Str is a string of concrete length whose bytes may be symbolic.
type Str struct {
	s string
	b []*Expr // nil: concrete s
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
	nat func(w *W, fr *frame, args []Value) Value
}

type UPtr struct {
	sl  Slice
	str *Str
	p   Value
}

type Native struct{ v any }

type mapEntry struct {
	k, v Value
	live bool
}

type MapV struct {
	ents  []*mapEntry
	idx   map[any]int // concrete keys
	n     int
	hasSy bool // some key is symbolic
	keyT  types.Type
}

func cstr(s string) Str { return Str{s: s} }

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) at(i int) *Expr {
	if s.b != nil {
		return s.b[i]
	}
	return const8[s.s[i]]
}

func (s Str) concrete() bool { return s.b == nil }

func mkStr(b []*Expr) Str {
	for _, x := range b {
		if x.op != OConst {
			return Str{b: b}
		}
	}
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(x.k)
	}
	return Str{s: string(out)}
}

func (s Str) slice(i, j int) Str {
	if s.b != nil {
		return mkStr(s.b[i:j:j])
	}
	return Str{s: s.s[i:j]}
}

func (s Str) bytes() []*Expr {
	if s.b != nil {
		return s.b
	}
	out := make([]*Expr, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = const8[s.s[i]]
	}
	return out
}

func concat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	out := make([]*Expr, 0, a.Len()+b.Len())
	out = append(out, a.bytes()...)
	out = append(out, b.bytes()...)
	return Str{b: out}
}

func (s Str) String() string {
	if s.b == nil {
		return s.s
	}
	var sb strings.Builder
	for _, x := range s.b {
		if x.op == OConst {
			sb.WriteByte(byte(x.k))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// ---- types ----

func basicInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isComplex(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

type unsupported struct{ msg string }

func unsup(format string, args ...any) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return UPtr{}
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsBoolean != 0:
			return False
		case t.Info()&types.IsInteger != 0:
			w, _, _ := basicInfo(t)
			return mkConst(w, 0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return Str{}
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Array:
		n := int(t.Len())
		out := make(Array, n)
		if n > 0 {
			switch t.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range out {
					out[i] = zero(t.Elem())
				}
			default:
				z := zero(t.Elem())
				for i := range out {
					out[i] = z
				}
			}
		}
		return out
	case *types.Struct:
		out := make(Struct, t.NumFields())
		for i := range out {
			out[i] = zero(t.Field(i).Type())
		}
		return out
	case *types.Slice:
		return Slice(nil)
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return Native{nil}
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.TypeParam:
		unsup("zero of type parameter %s", t)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		out := make(Tuple, t.Len())
		for i := range out {
			out[i] = zero(t.At(i).Type())
		}
		return out
	}
	unsup("zero of %T %s", t, t)
	return nil
}

// copyVal copies aggregates deeply (for stores into fresh cells and loads).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		out := make(Struct, len(v))
		for i, x := range v {
			out[i] = copyVal(x)
		}
		return out
	case Array:
		out := make(Array, len(v))
		for i, x := range v {
			out[i] = copyVal(x)
		}
		return out
	}
	return v
}

// ---- map keys ----

type kInt struct {
	w uint8
	k uint64
}
type kPair struct{ a, b any }
type kIface struct {
	t types.Type
	v any
}
type kNil struct{}

// concKey returns a comparable Go value identifying a concrete key; ok is false when the key is (partly) symbolic.
func (w *W) concKey(v Value) (any, bool) {
	switch v := v.(type) {
	case *Expr:
		if v.op != OConst {
			return nil, false
		}
		return kInt{v.w, v.k}, true
	case Str:
		if v.b != nil {
			return nil, false
		}
		return v.s, true
	case float64:
		if v == 0 {
			v = 0
		}
		if math.IsNaN(v) {
			unsup("NaN map key")
		}
		return v, true
	case Ptr:
		return v, true
	case UPtr:
		return kNil{}, v.sl == nil && v.p == nil
	case Iface:
		if v.t == nil {
			return kNil{}, true
		}
		k, ok := w.concKey(v.v)
		if !ok {
			return nil, false
		}
		return kIface{w.eng.canonType(v.t), k}, true
	case Struct:
		var acc any = kInt{99, uint64(len(v))}
		for _, x := range v {
			k, ok := w.concKey(x)
			if !ok {
				return nil, false
			}
			acc = kPair{acc, k}
		}
		return acc, true
	case Array:
		var acc any = kInt{98, uint64(len(v))}
		for _, x := range v {
			k, ok := w.concKey(x)
			if !ok {
				return nil, false
			}
			acc = kPair{acc, k}
		}
		return acc, true
	case Native:
		return v, true
	case SymF, SymT:
		return nil, false
	}
	unsup("map key of type %T", v)
	return nil, false
}

// find returns the entry for the key (forking on equality with symbolic keys).
func (w *W) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ck, ok := w.concKey(k)
	if ok {
		if i, ok := m.idx[ck]; ok && m.ents[i].live {
			return m.ents[i]
		}
		if !m.hasSy {
			return nil
		}
	}
	for _, e := range m.ents {
		if !e.live {
			continue
		}
		if w.branch(w.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *MapV, k, v Value) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	if e := w.mapFind(m, k); e != nil {
		w.setEntry(e, v)
		return
	}
	ck, ok := w.concKey(k)
	e := &mapEntry{k: copyVal(k), v: copyVal(v), live: true}
	i := len(m.ents)
	m.ents = append(m.ents, e)
	m.n++
	old, had := 0, false
	oldSy := m.hasSy
	if ok {
		old, had = m.idx[ck]
		m.idx[ck] = i
	} else {
		m.hasSy = true
	}
	if w.journalOn {
		w.undo = append(w.undo, undoRec{f: func() {
			m.ents = m.ents[:i]
			m.n--
			m.hasSy = oldSy
			if ok {
				if had {
					m.idx[ck] = old
				} else {
					delete(m.idx, ck)
				}
			}
		}})
	}
}

func (w *W) setEntry(e *mapEntry, v Value) {
	if w.journalOn {
		old := e.v
		w.undo = append(w.undo, undoRec{f: func() { e.v = old }})
	}
	e.v = copyVal(v)
}

func (w *W) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	if e := w.mapFind(m, k); e != nil {
		e.live = false
		m.n--
		if w.journalOn {
			w.undo = append(w.undo, undoRec{f: func() { e.live = true; m.n++ }})
		}
	}
}

func newMap(keyT types.Type) *MapV { return &MapV{idx: map[any]int{}, keyT: keyT} }

// ---- equality ----

func (w *W) strEq(a, b Str) *Expr {
	if a.b == nil && b.b == nil {
		return mkBool(a.s == b.s)
	}
	if a.Len() != b.Len() {
		return False
	}
	r := True
	for i, n := 0, a.Len(); i < n; i++ {
		e := w.eb.Eq(a.at(i), b.at(i))
		if e.isFalse() {
			return False
		}
		r = w.eb.And(r, e)
	}
	return r
}

func (w *W) strLess(a, b Str, orEq bool) *Expr {
	if a.b == nil && b.b == nil {
		if orEq {
			return mkBool(a.s <= b.s)
		}
		return mkBool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	var r *Expr
	if a.Len() < b.Len() || orEq && a.Len() == b.Len() {
		r = True
	} else {
		r = False
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = w.eb.Or(w.eb.Cmp(OUlt, x, y), w.eb.And(w.eb.Eq(x, y), r))
	}
	return r
}

func (w *W) equal(x, y Value) *Expr {
	switch x := x.(type) {
	case *Expr:
		if y, ok := y.(*Expr); ok {
			return w.eb.Eq(x, y)
		}
	case Str:
		if y, ok := y.(Str); ok {
			return w.strEq(x, y)
		}
	case float64:
		switch y := y.(type) {
		case float64:
			return mkBool(x == y)
		case SymF:
			return w.symfCmp(OEq, x, y)
		case SymT:
			return w.symtEq(y, x)
		}
	case SymF:
		if _, ok := y.(SymT); ok {
			return False
		}
		return w.symfCmp(OEq, x, y)
	case SymT:
		return w.symtEq(x, y)
	case complex128:
		return mkBool(x == y.(complex128))
	case Ptr:
		switch y := y.(type) {
		case Ptr:
			return mkBool(x == y)
		case UPtr:
			return mkBool(x == nil && y.p == nil && y.sl == nil && y.str == nil)
		}
	case UPtr:
		switch y := y.(type) {
		case UPtr:
			if x.p != nil || y.p != nil {
				if x.p == nil || y.p == nil {
					return False
				}
				return w.equal(x.p, y.p)
			}
			if len(x.sl) > 0 && len(y.sl) > 0 {
				return mkBool(&x.sl[0] == &y.sl[0])
			}
			return mkBool(x.sl == nil && y.sl == nil)
		case Ptr:
			return w.equal(y, x)
		}
	case Iface:
		if y, ok := y.(Iface); ok {
			if x.t == nil || y.t == nil {
				return mkBool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return False
			}
			if !types.Comparable(x.t) {
				w.rtPanic("comparing uncomparable type " + x.t.String())
			}
			return w.equal(x.v, y.v)
		}
	case Struct:
		r := True
		for i, a := range x {
			r = w.eb.And(r, w.equal(a, y.(Struct)[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		r := True
		for i, a := range x {
			r = w.eb.And(r, w.equal(a, y.(Array)[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Slice:
		if y, ok := y.(Slice); ok {
			if x == nil || y == nil {
				return mkBool(x == nil && y == nil)
			}
		}
	case *MapV:
		return mkBool(x == y.(*MapV))
	case *Closure:
		if y, ok := y.(*Closure); ok && (x == nil || y == nil) {
			return mkBool(x == nil && y == nil)
		}
	case Native:
		if y, ok := y.(Native); ok {
			return mkBool(x.v == y.v)
		}
	}
	unsup("equality of %T and %T", x, y)
	return nil
}

func (w *W) symfInt(v Value) *Expr {
	switch v := v.(type) {
	case SymF:
		return v.e
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1<<53 {
			return mkConst(64, uint64(int64(v)))
		}
	}
	return nil
}

func (w *W) symfCmp(op Op, x, y Value) *Expr {
	a, b := w.symfInt(x), w.symfInt(y)
	if a == nil || b == nil {
		if op == OEq {
			return False
		}
		unsup("comparison of a symbolic float with a non-integer")
	}
	if op == OEq {
		return w.eb.Eq(a, b)
	}
	return w.eb.Cmp(op, a, b)
}

// symtEq compares canonical texts (two different canonical texts may only be equal when an exponent is involved; such a
// candidate does not survive the native replay).
func (w *W) symtEq(x SymT, y Value) *Expr {
	switch y := y.(type) {
	case SymT:
		if x.n != y.n {
			unsup("comparison of floats of different width")
		}
		return w.strEq(x.s, y.s)
	case float64:
		if x.n == 32 && float64(float32(y)) != y {
			return False
		}
		for _, f := range "fe" {
			if t := cstr(strconv.FormatFloat(y, byte(f), -1, x.n)); t.Len() == x.s.Len() {
				return w.strEq(x.s, t)
			}
		}
	}
	return False
}
