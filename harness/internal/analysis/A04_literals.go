package analysis

import (
	"go/token"
	"go/types"
)

// vpT is a Go type together with what the analysis should say about it.
type vpT struct {
	t     types.Type
	lit   string // literal with pointers spelled out
	basic string // name of the basic kind underneath, if there is one
	kind  TypeKind
	elem  *vpT
	key   *vpT
	named bool
	imp   bool
	n     int64
}

var vpBasics = []struct {
	k    types.BasicKind
	name string
	kind TypeKind
}{
	{types.Bool, "bool", TypeKindBool}, {types.Int, "int", TypeKindInt}, {types.Int8, "int8", TypeKindInt8},
	{types.Int16, "int16", TypeKindInt16}, {types.Int32, "int32", TypeKindInt32}, {types.Int64, "int64", TypeKindInt64},
	{types.Uint, "uint", TypeKindUint}, {types.Uint8, "uint8", TypeKindUint8}, {types.Uint16, "uint16", TypeKindUint16},
	{types.Uint32, "uint32", TypeKindUint32}, {types.Uint64, "uint64", TypeKindUint64}, {types.Float32, "float32", TypeKindFloat32},
	{types.Float64, "float64", TypeKindFloat64}, {types.Complex64, "complex64", TypeKindComplex64},
	{types.Complex128, "complex128", TypeKindComplex128}, {types.String, "string", TypeKindString}, {types.Uintptr, "uintptr", TypeKindUintptr},
}

func vpLeafType(all bool) vpT {
	n := 9
	if all {
		n = 6 + len(vpBasics)
	}
	switch i := vpChoose(n); i {
	case 0:
		return vpT{t: types.Universe.Lookup("byte").Type(), lit: "byte", basic: "byte", kind: TypeKindUint8}
	case 1:
		return vpT{t: types.Universe.Lookup("rune").Type(), lit: "rune", basic: "rune", kind: TypeKindInt32}
	case 2:
		return vpT{t: types.NewInterfaceType(nil, nil), lit: "interface{}", kind: TypeKindInterface}
	case 3: // the predeclared alias
		return vpT{t: types.Universe.Lookup("any").Type(), lit: "interface{}", kind: TypeKindInterface}
	case 4:
		return vpT{t: vpNamed(vpModel, "Key", types.NewStruct(nil, nil)), lit: "model.Key", kind: TypeKindStruct, named: true, imp: true}
	case 5:
		return vpT{t: types.Universe.Lookup("error").Type(), lit: "error", kind: TypeKindInterface, named: true}
	default:
		if !all {
			i = []int{6 + 7, 6 + 4, 6 + 15}[i-6] // uint8, int32, string
		}
		b := vpBasics[i-6]
		return vpT{t: types.Typ[b.k], lit: b.name, basic: b.name, kind: b.kind}
	}
}

// vpAnyType is any type of the given depth.
func vpAnyType(depth int, all bool) vpT {
	if depth == 0 {
		return vpLeafType(all)
	}
	switch vpChoose(7) {
	case 1:
		e := vpAnyType(depth-1, all)
		return vpT{t: types.NewSlice(e.t), lit: "[]" + e.lit, kind: TypeKindSlice, elem: &e}
	case 2:
		e := vpAnyType(depth-1, all)
		n := []int64{0, 2, 16}[vpChoose(3)]
		return vpT{t: types.NewArray(e.t, n), lit: "[" + vpItoa(n) + "]" + e.lit, kind: TypeKindArray, elem: &e, n: n}
	case 3:
		e := vpAnyType(depth-1, all)
		k := vpT{t: types.Typ[types.String], lit: "string", basic: "string", kind: TypeKindString}
		if vpBool() {
			k = vpT{t: types.Typ[types.Int], lit: "int", basic: "int", kind: TypeKindInt}
		}
		return vpT{t: types.NewMap(k.t, e.t), lit: "map[" + k.lit + "]" + e.lit, kind: TypeKindMap, elem: &e, key: &k}
	case 4:
		e := vpAnyType(depth-1, all)
		return vpT{t: types.NewPointer(e.t), lit: "*" + e.lit, kind: TypeKindPtr, elem: &e}
	case 5: // a named type: the name counts, the structure stays
		e := vpAnyType(depth-1, all)
		if e.named {
			vpSkip()
		}
		pkg := vpPkg
		if vpBool() {
			pkg = vpModel
		}
		under := types.Unalias(e.t)
		e.t, e.lit, e.named, e.imp = vpNamed(pkg, "Named", under), pkg.Name()+".Named", true, pkg == vpModel
		return e
	case 6: // an alias is the type it stands for
		e := vpAnyType(depth-1, all)
		e.t = types.NewAlias(types.NewTypeName(token.NoPos, vpPkg, "Alias", nil), e.t)
		return e
	}
	return vpLeafType(all)
}

func vpItoa(n int64) string {
	if n >= 10 {
		return vpItoa(n/10) + string(rune('0'+n%10))
	}
	return string(rune('0' + n))
}

func (w *vpT) check(t *TypeInfo) {
	vpAssert(t.Kind == w.kind, "wrong kind")
	vpAssert((t.Name != "") == w.named, "a type is wrongly (not) named")
	vpAssert(t.IsImported == w.imp, "a type is wrongly (not) imported")
	vpAssert((t.Elem != nil) == (w.elem != nil), "wrong element type")
	vpAssert((t.Key != nil) == (w.key != nil), "wrong key type")
	vpAssert(t.ArrayLen == w.n, "wrong array length")
	if w.elem != nil {
		w.elem.check(t.Elem)
	}
	if w.key != nil {
		w.key.check(t.Key)
	}
}

// Every type of the stated depth, as the type of a record's field.
func VP_A04_Literal() {
	depth := vpBound("type constructors above a basic type", 3, 4)
	w := vpAnyType(depth, false)
	vpLiteral(w)
}

// Every basic kind under up to one constructor.
func VP_A04_Basic() { vpLiteral(vpAnyType(1, true)) }

func vpLiteral(w vpT) {
	f := vpRecord(vpStruct().add("F", w.t, `sql:"f"`))
	vpAssert(len(f) == 1, "a field is lost")
	t := &f[0].Type
	w.check(t)
	lit := w.lit
	if !w.named && w.kind == TypeKindPtr { // an outermost pointer is not spelled out
		lit = w.elem.lit
	}
	vpAssert(string(t.Literal()) == lit, "the literal is not the type")
	if w.basic != "" { // a named basic type converts like its kind
		lit = w.basic
	}
	vpAssert(string(t.GenericLiteral()) == lit, "the generic literal is not the type")
	vpReach("literal")
}

// The shapes of a query's record: T, *T, and slices and arrays of either; of an
// unnamed struct only by itself. Aliases change nothing.
func VP_A04_Record() {
	alias := func(t types.Type) types.Type {
		if vpBool() {
			return types.NewAlias(types.NewTypeName(token.NoPos, vpPkg, vpFresh("Alias"), nil), t)
		}
		return t
	}
	st := vpStruct().add("F", vpBasic(types.Int), `sql:"f"`).typ()
	name := vpFresh("User")
	pkg := vpPkg
	if vpBool() {
		pkg = vpModel
	}
	var t types.Type
	ok, named := true, true
	switch vpChoose(5) {
	case 1:
		t, named = st, false
	case 2:
		t, ok = types.Universe.Lookup("error").Type(), false
	case 3:
		t, ok, named = types.Typ[types.Int], false, false
	case 4:
		t, ok = vpNamed(pkg, name, types.Typ[types.String]), false
	default:
		t = vpNamed(pkg, name, st)
	}
	t = alias(t)
	ptr := vpBool()
	if ptr {
		t = alias(types.NewPointer(t))
	}
	n := int64(0)
	seq := vpChoose(3)
	switch seq {
	case 1:
		t = alias(types.NewSlice(t))
	case 2:
		n = int64(1 + vpChoose(2))
		t = alias(types.NewArray(t, n))
	}
	if !named && (ptr || seq > 0) {
		ok = false
	}
	info, err := vpRun("SelectUser", vpStruct().add("User", t, `rel:"u"`))
	if err != nil {
		vpAssert(!ok, "a record type is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a type that is no record is accepted")
	rt := info.Struct.(*QueryStruct).Rel.Type
	vpAssert(vpAnd(rt.IsPointer == ptr, rt.IsSlice == (seq == 1), rt.IsArray == (seq == 2), rt.ArrayLen == n), "wrong shape of a record")
	vpAssert(rt.IsSingle() == (seq == 0), "a record is wrongly (not) single")
	vpAssert(rt.Base.Kind == TypeKindStruct, "wrong kind of record")
	if named {
		vpAssert(vpAnd(rt.Base.Name == name, rt.Base.PkgPath == pkg.Path(), rt.Base.IsImported == (pkg == vpModel)), "wrong record type")
	} else {
		vpAssert(rt.Base.Name == "", "wrong record type")
	}
	vpAssert(len(rt.Fields) == 1, "wrong fields of a record")
	vpReach("record")
}

// Iterators: a function taking the record and returning an error, or an
// interface with one such method.
func VP_A04_Iterator() {
	st := vpStruct().add("F", vpBasic(types.Int), `sql:"f"`).typ()
	name := vpFresh("User")
	pkg := vpPkg
	if vpBool() {
		pkg = vpModel
	}
	var rec types.Type = vpNamed(pkg, name, st)
	ok := true
	switch vpChoose(3) {
	case 1:
		rec, ok = st, false
	case 2:
		rec, ok = types.Typ[types.String], false
	}
	if vpBool() {
		rec = types.NewAlias(types.NewTypeName(token.NoPos, vpPkg, vpFresh("Alias"), nil), rec)
	}
	ptr := vpBool()
	if ptr {
		rec = types.NewPointer(rec)
	}
	v := func(t types.Type) *types.Var { return types.NewParam(token.NoPos, vpPkg, "", t) }
	params := []*types.Var{v(rec)}
	results := []*types.Var{v(types.Universe.Lookup("error").Type())}
	switch vpChoose(5) {
	case 1:
		params, ok = nil, false
	case 2:
		params, ok = append(params, v(rec)), false
	case 3:
		results, ok = nil, false
	case 4:
		results, ok = []*types.Var{v(types.Typ[types.Bool])}, false
	}
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(params...), types.NewTuple(results...), false)
	var t types.Type = sig
	mname := ""
	if vpBool() {
		ipkg := vpPkg
		mname = "Next"
		switch vpChoose(3) {
		case 1:
			mname = "next"
		case 2:
			mname = "next"
			ipkg, ok = vpModel, false // not accessible
		}
		ms := []*types.Func{types.NewFunc(token.NoPos, ipkg, mname, sig)}
		if vpBool() {
			ms, ok = append(ms, types.NewFunc(token.NoPos, ipkg, "Other", sig)), false
		}
		// only the methods that the interface declares itself count
		var embeds []types.Type
		if vpBool() {
			e := types.NewInterfaceType([]*types.Func{types.NewFunc(token.NoPos, ipkg, "Close", types.NewSignatureType(nil, nil, nil, nil, nil, false))}, nil)
			e.Complete()
			embeds = []types.Type{vpNamed(ipkg, vpFresh("Closer"), e)}
			if vpBool() {
				ms, ok = ms[:0], false
			}
		}
		it := types.NewInterfaceType(ms, embeds)
		it.Complete()
		t = vpNamed(ipkg, vpFresh("Iter"), it)
		if ipkg == vpPkg && vpBool() {
			t = it
		}
	}
	info, err := vpRun("SelectUser", vpStruct().add("User", t, `rel:"u"`))
	if err != nil {
		vpAssert(!ok, "an iterator is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "something that is no iterator is accepted")
	rt := info.Struct.(*QueryStruct).Rel.Type
	vpAssert(vpAnd(rt.IsIter, rt.IsPointer == ptr, rt.IterMethod == mname, !rt.IsSingle()), "wrong iterator")
	vpAssert(vpAnd(rt.Base.Name == name, rt.Base.PkgPath == pkg.Path(), rt.Base.IsImported == (pkg == vpModel)), "wrong record type of an iterator")
	vpAssert(len(rt.Fields) == 1, "wrong fields of an iterator's record")
	vpReach("iterator")
}

// Types that refer to themselves.
func VP_A04_Recursive() {
	n := vpNamed(vpPkg, vpFresh("Tree"), nil)
	wrap := func(t types.Type, k int) types.Type {
		switch k {
		case 0:
			return types.NewSlice(t)
		case 1:
			return types.NewMap(vpBasic(types.String), t)
		case 2:
			return types.NewPointer(t)
		case 3:
			return types.NewArray(t, 2)
		}
		return t
	}
	outer, inner := vpChoose(3), vpChoose(5)
	n.SetUnderlying(wrap(wrap(n, inner), outer))
	fk := vpChoose(5)
	fs := vpRecord(vpStruct().add("F", wrap(n, fk), `sql:"f"`).add("G", vpBasic(types.Int), `sql:"g"`))
	vpAssert(len(fs) == 2, "wrong number of columns")
	t := &fs[0].Type
	if fk < 4 {
		t = t.Elem
	}
	kinds := []TypeKind{TypeKindSlice, TypeKindMap, TypeKindPtr, TypeKindArray}
	vpAssert(vpAnd(t.Name == n.Obj().Name(), t.PkgPath == "example.com/app/db", t.Kind == kinds[outer]), "a type that refers to itself is misread")
	e := t.Elem
	if inner < 4 {
		vpAssert(e.Kind == kinds[inner], "the element of a type that refers to itself is misread")
		e = e.Elem
	}
	vpAssert(vpAnd(e.Name == n.Obj().Name(), e.Kind == kinds[outer]), "a type that refers to itself loses itself")
	lit := string(fs[0].Type.Literal())
	name := "db." + n.Obj().Name()
	vpAssert(lit == []string{"[]" + name, "map[string]" + name, name, "[2]" + name, name}[fk], "wrong literal of a type that refers to itself")
	vpReach("recursive")
}
