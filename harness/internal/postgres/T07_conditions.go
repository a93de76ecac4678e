package postgres

import (
	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

// vpGo is a Go type of a condition's field, and the converter its values need
// for each type of the model database it can be sent as.
type vpGo struct {
	typ   analysis.TypeInfo
	needs map[oid.OID]string
	elems map[oid.OID]string // of the elements, one by one
}

func vpGoTypes() []vpGo {
	str := analysis.TypeInfo{Kind: analysis.TypeKindString}
	num := analysis.TypeInfo{Kind: analysis.TypeKindInt}
	ptr := analysis.TypeInfo{Kind: analysis.TypeKindPtr, Elem: &num}
	bytes := analysis.TypeInfo{Kind: analysis.TypeKindSlice, Elem: &analysis.TypeInfo{Kind: analysis.TypeKindUint8, IsByte: true}}
	id := analysis.TypeInfo{Kind: analysis.TypeKindStruct, Name: "ID", PkgPath: "example.com/app", PkgName: "app", IsValuer: true}
	st := analysis.TypeInfo{Kind: analysis.TypeKindStruct, Name: "S", PkgPath: "example.com/app", PkgName: "app"}
	slice := func(t analysis.TypeInfo) analysis.TypeInfo {
		return analysis.TypeInfo{Kind: analysis.TypeKindSlice, Elem: &t}
	}
	text := map[oid.OID]string{oid.Int4: "", oid.Int8: "", oid.Text: "", oid.Int4Arr: "", oid.TextArr: "", oid.VarChar: "", oid.Int8Arr: "", oid.VarCharArr: ""}
	ints := map[oid.OID]string{oid.Int4: "", oid.Int8: ""}
	return []vpGo{
		{str, text, nil},
		{num, ints, nil},
		{ptr, ints, nil},
		{bytes, text, nil}, // its elements are characters
		{id, text, nil}, // the user's own conversion
		{st, nil, nil},
		{slice(bytes), map[oid.OID]string{oid.TextArr: "TextArrayFromByteSliceSlice"}, text},
		{slice(ptr), nil, ints},
		{slice(id), nil, text},
		{slice(st), nil, nil},
		{slice(num), map[oid.OID]string{oid.Int4Arr: "Int4ArrayFromIntSlice", oid.Int8Arr: "Int8ArrayFromIntSlice"}, ints},
		{slice(str), map[oid.OID]string{oid.TextArr: "TextArrayFromStringSlice"}, text},
	}
}

func vpWhere(db *DB, typ *Type, f *analysis.WhereStructField) (*FieldConditional, error) {
	rel := analysis.RelIdent{Name: "t", Alias: "a"}
	vpTable(db, rel, vpColumn("c", typ))
	f.Name, f.ColIdent = "F", analysis.ColIdent{Qualifier: "a", Name: "c"}
	qs := &analysis.QueryStruct{
		TypeName: "SelectQuery", Kind: analysis.QueryKindSelect,
		Rel:   &analysis.RelField{FieldName: "R", Id: rel},
		Where: &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{f}},
	}
	res, err := vpCheckTarget(db, qs)
	if err != nil {
		return nil, err
	}
	cond, _ := res.Where[0].(*FieldConditional)
	vpAssert(cond != nil, "a condition is lost")
	if cond == nil {
		vpSkip()
	}
	vpAssert(cond.FieldName == "F" && cond.Column.Name == "c" && cond.ColIdent == f.ColIdent, "the operands of a condition are mixed up")
	vpAssert(cond.Predicate == f.Predicate && cond.Quantifier == f.Quantifier && cond.FuncName == f.FuncName, "the predicate of a condition is lost")
	return cond, nil
}

var vpOpNames = map[analysis.Predicate]string{
	analysis.IsEQ: "=", analysis.NotEQ: "<>", analysis.IsLT: "<", analysis.IsGTE: ">=", analysis.IsDistinct: "<>",
	analysis.IsLike: "~~", analysis.NotMatchi: "!~*", analysis.IsIn: "=", analysis.NotIn: "<>",
}

// A condition on a field, with every predicate and quantifier.
func VP_T07_Fields() {
	enum := &Type{OID: 90001, Name: "color", NameFmt: "color", Type: TypeTypeEnum, Category: TypeCategoryEnum}
	varchar := &Type{OID: oid.VarChar, Name: "varchar", NameFmt: "character varying", Length: -1, Type: TypeTypeBase, Category: TypeCategoryString}
	types := []*Type{vpInt4, vpText, enum, vpInt4Arr}
	int8Arr := &Type{OID: oid.Int8Arr, Name: "_int8", NameFmt: "bigint[]", Length: -1, Type: TypeTypeBase, Category: TypeCategoryArray, Elem: oid.Int8}
	db := vpDatabase(vpInt4, vpInt8, vpText, vpInt4Arr, vpTextArr, int8Arr, enum, varchar)
	ctyp := types[vpChoose(len(types))]
	gotypes := vpGoTypes()
	g := gotypes[vpChoose(len(gotypes))]
	preds := []analysis.Predicate{analysis.IsEQ, analysis.NotEQ, analysis.IsLT, analysis.IsGTE, analysis.IsDistinct, analysis.IsLike, analysis.NotMatchi, analysis.IsIn, analysis.NotIn}
	pred := preds[vpChoose(len(preds))]
	list := pred == analysis.IsIn || pred == analysis.NotIn
	qua := analysis.Quantifier(0)
	if !list && vpBool() {
		qua = 1
	}
	if list && g.typ.Elem == nil || g.typ.Kind == analysis.TypeKindPtr && list {
		vpSkip() // not a list
	}
	name := vpOpNames[pred]

	// an enum's labels are text
	left := ctyp
	if ctyp == enum {
		left = vpText
	}
	same := vpBool()
	if same {
		db.catalog.Operators[OpKey{Name: name, Left: left.OID, Right: left.OID}] = &Operator{}
	} else {
		db.catalog.Operators[OpKey{Name: "@@", Left: left.OID, Right: left.OID}] = &Operator{}
	}
	right := []*Type{nil, vpInt8, varchar, vpTextArr}[vpChoose(4)]
	if right != nil {
		db.catalog.Operators[OpKey{Name: name, Left: left.OID, Right: right.OID}] = &Operator{}
	}

	arrays := map[oid.OID]oid.OID{oid.Int4: oid.Int4Arr, oid.Int8: oid.Int8Arr, oid.Text: oid.TextArr}

	// the type the value is sent as
	code := dbErrorCode(0)
	sent := left
	if list || qua > 0 {
		switch ctyp {
		case vpInt4:
			sent = vpInt4Arr
		case vpText:
			sent = vpTextArr
		default: // no array type is known
			code = errPredicateOperandQuantifier
			if list {
				code = errPredicateOperandArray
			}
		}
	}
	if list {
		sent, g.needs = left, g.elems
	}
	needs := map[string]bool{}
	if code == 0 {
		if v, ok := g.needs[sent.OID]; ok && same {
			needs[v] = true
		} else if right != nil {
			// or as the other type the operator takes, or an array of these
			id := right.OID
			if qua > 0 {
				id = arrays[id]
			}
			if v, ok := g.needs[id]; ok && id != 0 {
				needs[v] = true
			}
		}
		if len(needs) == 0 {
			code = errColumnFieldComparison
		}
	}
	cond, err := vpWhere(db, ctyp, &analysis.WhereStructField{Type: g.typ, Predicate: pred, Quantifier: qua})
	if err != nil {
		vpAssert(code != 0, "a condition PostgreSQL can evaluate is rejected")
		vpAssert(vpCode(err) == code, "another error is reported for a condition")
		vpReach("rejected")
		return
	}
	vpAssert(code == 0, "a condition PostgreSQL cannot evaluate is accepted")
	vpAssert(needs[cond.Valuer], "the value of a condition is sent with another converter")
	vpReach("accepted")
}

// A condition on a field with a modifier function around both operands.
func VP_T07_Functions() {
	db := vpDatabase(vpInt4, vpInt8, vpText, vpBoolean, vpInt4Arr, vpTextArr)
	ctyp := []*Type{vpText, vpInt4}[vpChoose(2)]
	gotypes := vpGoTypes()[:2]
	g := gotypes[vpChoose(len(gotypes))]
	type sig struct {
		arg, ret *Type
		agg      bool
	}
	var sigs []sig
	args := []*Type{vpText, vpInt8, {OID: oid.Any}}
	rets := []*Type{vpText, vpInt4}
	for i, n := 0, vpChoose(vpBound("functions of a name", 2, 3)+1); i < n; i++ {
		s := sig{arg: args[vpChoose(3)], ret: rets[vpChoose(2)], agg: vpBool()}
		sigs = append(sigs, s)
		db.catalog.Procs["f"] = append(db.catalog.Procs["f"], &Proc{Name: "f", ArgType: s.arg.OID, RetType: s.ret.OID, IsAgg: s.agg})
	}
	db.catalog.Types[oid.Any] = args[2]
	// functions with another name
	db.catalog.Procs["g"] = []*Proc{{Name: "g", ArgType: ctyp.OID, RetType: vpInt4.OID}}
	castKind := vpChoose(4)
	if castKind > 0 {
		ctx := []CastContext{CastContextImplicit, CastContextAssignment, CastContextExplicit}[castKind-1]
		db.catalog.Casts[CastKey{Source: vpInt4.OID, Target: vpInt8.OID}] = &Cast{Context: ctx}
		db.catalog.Casts[CastKey{Source: vpInt8.OID, Target: vpInt4.OID}] = &Cast{Context: CastContextImplicit}
	}
	mixed := vpBool() // text and integer are comparable
	if mixed {
		db.catalog.Operators[OpKey{Name: "=", Left: vpText.OID, Right: vpInt4.OID}] = &Operator{}
	}
	// PostgreSQL converts a column to the function's argument only if there is an implicit cast
	takes := func(arg *Type) bool {
		return arg.OID == ctyp.OID || arg.OID == oid.Any || (ctyp == vpInt4 && arg == vpInt8 && castKind == 1)
	}
	ok := false
	for _, l := range sigs {
		for _, r := range sigs {
			if l.agg || r.agg || !takes(l.arg) {
				continue
			}
			if l.ret != r.ret && !(mixed && l.ret == vpText) {
				continue
			}
			_, fits := g.needs[r.arg.OID]
			ok = ok || fits
		}
	}
	name := analysis.FuncName("f")
	if vpBool() {
		name, ok = "h", false
	}
	cond, err := vpWhere(db, ctyp, &analysis.WhereStructField{Type: g.typ, Predicate: analysis.IsEQ, FuncName: name})
	if err != nil {
		vpAssert(!ok, "a condition PostgreSQL can evaluate is rejected")
		vpAssert(vpCode(err) == errProcedureUnknown, "another error is reported for a condition")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a condition PostgreSQL cannot evaluate is accepted")
	vpAssert(cond.Valuer == "", "the value of a condition is sent with another converter")
	vpReach("accepted")
}

// The bounds of a range that are fields.
func VP_T07_Between() {
	db := vpDatabase(vpInt4, vpInt8, vpText, vpInt4Arr, vpTextArr)
	ctyp := []*Type{vpInt4, vpText}[vpChoose(2)]
	gotypes := vpGoTypes()
	preds := []analysis.Predicate{analysis.IsBetween, analysis.NotBetween, analysis.IsBetweenSym, analysis.NotBetweenSym}
	k := vpChoose(len(preds))
	names := []string{">=", "<="}
	if k%2 == 1 {
		names = []string{"<", ">"}
	}
	ok := true
	wb := &analysis.WhereBetweenStruct{FieldName: "B", ColIdent: analysis.ColIdent{Qualifier: "a", Name: "c"}, Predicate: preds[k]}
	for i, name := range names {
		g := gotypes[vpChoose(len(gotypes))]
		has := vpBool()
		if has {
			db.catalog.Operators[OpKey{Name: name, Left: ctyp.OID, Right: ctyp.OID}] = &Operator{}
		}
		_, fits := g.needs[ctyp.OID]
		ok = ok && has && fits
		b := &analysis.BetweenStructField{Name: string([]byte{'F', byte('0' + i)}), Type: g.typ}
		if i == 0 {
			wb.LowerBound = b
		} else {
			wb.UpperBound = b
		}
	}
	rel := analysis.RelIdent{Name: "t", Alias: "a"}
	vpTable(db, rel, vpColumn("c", ctyp))
	qs := &analysis.QueryStruct{
		TypeName: "SelectQuery", Kind: analysis.QueryKindSelect,
		Rel:   &analysis.RelField{FieldName: "R", Id: rel},
		Where: &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{wb}},
	}
	res, err := vpCheckTarget(db, qs)
	if err != nil {
		vpAssert(!ok, "a range PostgreSQL can evaluate is rejected")
		vpAssert(vpCode(err) == errBetweenFieldComparison, "another error is reported for a range")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a range PostgreSQL cannot evaluate is accepted")
	b, _ := res.Where[0].(*BetweenConditional)
	vpAssert(b != nil, "a range is lost")
	if b == nil {
		return
	}
	x, _ := b.LowerBound.(*FieldConditional)
	y, _ := b.UpperBound.(*FieldConditional)
	vpAssert(x != nil && y != nil, "a bound is lost")
	if x != nil && y != nil {
		vpAssert(b.Predicate == preds[k] && b.Column.Name == "c", "the predicate of a range is lost")
		vpAssert(x.FieldName == "F0" && y.FieldName == "F1", "the bounds of a range are mixed up")
		vpAssert(x.Valuer == "" && y.Valuer == "", "the value of a bound is sent with another converter")
	}
	vpReach("accepted")
}
