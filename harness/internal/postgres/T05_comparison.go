package postgres

import (
	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

// The operators a predicate is evaluated with.
func vpOprname(p analysis.Predicate) string {
	switch p {
	case analysis.IsEQ, analysis.NotDistinct, analysis.IsIn:
		return "="
	case analysis.NotEQ, analysis.NotEQ2, analysis.IsDistinct, analysis.NotIn:
		return "<>"
	case analysis.IsLT:
		return "<"
	case analysis.IsGT:
		return ">"
	case analysis.IsLTE:
		return "<="
	case analysis.IsGTE:
		return ">="
	case analysis.IsMatch:
		return "~"
	case analysis.IsMatchi:
		return "~*"
	case analysis.NotMatch:
		return "!~"
	case analysis.NotMatchi:
		return "!~*"
	case analysis.IsLike, analysis.IsSimilar:
		return "~~"
	case analysis.NotLike, analysis.NotSimilar:
		return "!~~"
	case analysis.IsILike:
		return "~~*"
	case analysis.NotILike:
		return "!~~*"
	}
	return ""
}

var vpBinary = []analysis.Predicate{
	analysis.IsEQ, analysis.NotEQ, analysis.NotEQ2, analysis.IsLT, analysis.IsGT, analysis.IsLTE, analysis.IsGTE,
	analysis.IsDistinct, analysis.NotDistinct, analysis.IsMatch, analysis.IsMatchi, analysis.NotMatch, analysis.NotMatchi,
	analysis.IsLike, analysis.NotLike, analysis.IsILike, analysis.NotILike, analysis.IsSimilar, analysis.NotSimilar,
	analysis.IsIn, analysis.NotIn,
}

func vpIsArrayPred(p analysis.Predicate) bool { return p == analysis.IsIn || p == analysis.NotIn }

// vpModel is the part of the catalog that decides comparisons of two types.
type vpModel struct {
	db                             *DB
	lr, rl, ll, rr, castLR, castRL bool
}

// vpOperators fills in operators and casts between the types l and r.
func vpOperators(db *DB, l, r *Type, name string, casts bool) vpModel {
	m := vpModel{db: db}
	cat := db.catalog
	op := func(a, b *Type) bool {
		if !vpBool() {
			// the same operator of other types, or another operator
			cat.Operators[OpKey{Name: "@@", Left: a.OID, Right: b.OID}] = &Operator{Name: "@@", Left: a.OID, Right: b.OID}
			return false
		}
		cat.Operators[OpKey{Name: name, Left: a.OID, Right: b.OID}] = &Operator{Name: name, Left: a.OID, Right: b.OID}
		return true
	}
	if !casts {
		m.lr = op(l, r)
		if l == r {
			m.ll, m.rr, m.rl = m.lr, m.lr, m.lr
		}
		return m
	}
	m.ll = op(l, l)
	if l == r {
		m.lr, m.rl, m.rr = m.ll, m.ll, m.ll
		return m
	}
	m.rr, m.lr, m.rl = op(r, r), op(l, r), op(r, l)
	cast := func(a, b *Type) bool {
		k := vpChoose(4)
		if k == 0 {
			return false
		}
		ctx := []CastContext{CastContextImplicit, CastContextAssignment, CastContextExplicit}[k-1]
		cat.Casts[CastKey{Source: a.OID, Target: b.OID}] = &Cast{Source: a.OID, Target: b.OID, Context: ctx}
		return k == 1
	}
	m.castLR, m.castRL = cast(l, r), cast(r, l)
	return m
}

// comparable: the types are the same, or there is an operator for them, or for
// one of them after an implicit cast of the other.
func (m vpModel) comparable(l, r *Type) bool {
	if l.OID == r.OID {
		return true
	}
	if r.OID == oid.Unknown && (l.Category == TypeCategoryString || l.Type == TypeTypeEnum) {
		return true
	}
	return m.lr || (m.castLR && m.rr) || (m.castRL && m.ll)
}

// Two columns in a WHERE or a JOIN, with every predicate and quantifier.
func VP_T05_Columns() {
	enum := &Type{OID: 90001, Name: "color", NameFmt: "color", Type: TypeTypeEnum, Category: TypeCategoryEnum}
	enumArr := &Type{OID: 90002, Name: "_color", NameFmt: "color[]", Type: TypeTypeBase, Category: TypeCategoryArray, Elem: 90001}
	lost := &Type{OID: 90003, Name: "_hidden", NameFmt: "hidden[]", Type: TypeTypeBase, Category: TypeCategoryArray, Elem: 90004} // the element type is not visible
	db := vpDatabase(vpInt4, vpInt8, vpText, vpInt4Arr, vpTextArr, enum, enumArr, lost)

	ltypes := []*Type{vpInt4, vpInt8, vpText, enum}
	l := ltypes[vpChoose(vpBound("left types", 3, 4))]
	elem := []*Type{vpInt4, vpText, enum}[vpChoose(3)]
	r, eff := elem, elem
	switch vpChoose(3) {
	case 1: // an array of it
		r = map[*Type]*Type{vpInt4: vpInt4Arr, vpText: vpTextArr, enum: enumArr}[elem]
		eff = r
	case 2:
		vpAssume(elem == vpInt4)
		r, eff = lost, lost
	}

	// either every predicate, or every state of the catalog
	casts := vpBool()
	qua := analysis.Quantifier(vpChoose(4))
	preds := vpBinary
	if casts {
		preds = []analysis.Predicate{analysis.IsEQ, analysis.IsLT, analysis.IsLike, analysis.NotIn}
		vpAssume(qua < 2)
	}
	pred := preds[vpChoose(len(preds))]
	vpAssume(qua == 0 || !vpIsArrayPred(pred))
	code := dbErrorCode(0)
	if vpIsArrayPred(pred) || qua > 0 {
		if r.Category != TypeCategoryArray {
			code = errPredicateOperandQuantifier
			if vpIsArrayPred(pred) {
				code = errPredicateOperandArray
			}
		} else if r == lost {
			code = errColumnComparison
		} else {
			eff = elem
		}
	}
	m := vpOperators(db, l, eff, vpOprname(pred), casts)
	if code == 0 && !m.comparable(l, eff) {
		code = errColumnComparison
	}

	rel := analysis.RelIdent{Name: "t", Alias: "a"}
	other := analysis.RelIdent{Name: "o", Alias: "b"}
	vpTable(db, rel, vpColumn("l", l), vpColumn("q", vpBoolean))
	vpTable(db, other, vpColumn("r", r))
	qs := &analysis.QueryStruct{
		TypeName: "SelectQuery", Kind: analysis.QueryKindSelect,
		Rel:  &analysis.RelField{FieldName: "R", Id: rel},
		Join: &analysis.JoinStruct{FieldName: "Join"},
	}
	wcd := &analysis.WhereColumnDirective{
		LHSColIdent: analysis.ColIdent{Qualifier: "a", Name: "l"},
		RHSColIdent: analysis.ColIdent{Qualifier: "b", Name: "r"},
		Predicate:   pred, Quantifier: qua,
	}
	join := &analysis.JoinDirective{RelIdent: other}
	qs.Join.Directives = []*analysis.JoinDirective{join}
	where := vpBool()
	if where {
		qs.Where = &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{wcd}}
		join.TagItems = []analysis.JoinTagItem{&analysis.JoinBoolTagItem{Value: analysis.BoolAnd}}
	} else {
		// a join condition's first column is the joined relation's
		join.RelIdent, qs.Rel.Id = rel, other
		join.TagItems = []analysis.JoinTagItem{(*analysis.JoinConditionTagItem)(wcd)}
	}
	res, err := vpCheckTarget(db, qs)
	if err != nil {
		vpAssert(code != 0, "a comparison PostgreSQL can evaluate is rejected")
		vpAssert(vpCode(err) == code, "another error is reported for a comparison")
		vpReach("rejected")
		return
	}
	vpAssert(code == 0, "a comparison PostgreSQL cannot evaluate is accepted")
	var cond *ColumnConditional
	if where && len(res.Where) == 1 {
		cond, _ = res.Where[0].(*ColumnConditional)
	} else if !where && len(res.Joins) == 1 && len(res.Joins[0]) == 1 {
		cond, _ = res.Joins[0][0].(*ColumnConditional)
	}
	vpAssert(cond != nil, "a condition is lost")
	if cond != nil {
		vpAssert(cond.LHSColumn.Type == l && cond.RHSColumn.Type == r && cond.RHSType == r, "the columns of a condition are mixed up")
		vpAssert(cond.LHSColIdent == wcd.LHSColIdent && cond.RHSColIdent == wcd.RHSColIdent, "the operands of a condition are mixed up")
		vpAssert(cond.Predicate == pred && cond.Quantifier == qua, "the predicate of a condition is lost")
	}
	vpReach("accepted")
}

// Unary predicates.
func VP_T05_Unary() {
	db := vpDatabase(vpInt4, vpBoolean)
	typ := []*Type{vpInt4, vpBoolean}[vpChoose(2)]
	col := vpColumn("l", typ)
	col.HasNotNull = vpBool()
	rel := analysis.RelIdent{Name: "t", Alias: "a"}
	other := analysis.RelIdent{Name: "o", Alias: "b"}
	joined := vpBool() // the column is the joined relation's
	if joined {
		vpTable(db, rel, vpColumn("q", vpInt4))
		vpTable(db, other, col)
	} else {
		vpTable(db, rel, col)
		vpTable(db, other, vpColumn("q", vpInt4))
	}
	preds := []analysis.Predicate{analysis.IsNull, analysis.NotNull, analysis.IsTrue, analysis.NotTrue, analysis.IsFalse, analysis.NotFalse, analysis.IsUnknown, analysis.NotUnknown}
	k := vpChoose(len(preds))
	id := analysis.ColIdent{Qualifier: "a", Name: "l"}
	if joined {
		id.Qualifier = "b"
	}
	wcd := &analysis.WhereColumnDirective{LHSColIdent: id, Predicate: preds[k]}
	qs := &analysis.QueryStruct{
		TypeName: "SelectQuery", Kind: analysis.QueryKindSelect,
		Rel:  &analysis.RelField{FieldName: "R", Id: rel},
		Join: &analysis.JoinStruct{FieldName: "Join"},
	}
	join := &analysis.JoinDirective{RelIdent: other}
	qs.Join.Directives = []*analysis.JoinDirective{join}
	where := vpBool()
	missing := false
	if where {
		wcd2 := *wcd
		if vpBool() {
			missing = true
			wcd2.LHSColIdent.Name = "x"
		}
		qs.Where = &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{&wcd2}}
		if vpBool() { // nested
			qs.Where.Items = []analysis.WhereItem{&analysis.WhereStruct{FieldName: "N", Items: []analysis.WhereItem{&wcd2}}}
		}
	} else {
		vpAssume(joined)
		join.TagItems = []analysis.JoinTagItem{(*analysis.JoinConditionTagItem)(wcd)}
	}
	code := dbErrorCode(0)
	switch {
	case missing:
		code = errColumnUnknown
	case k < 2 && col.HasNotNull && !(where && joined):
		code = errPredicateOperandNull
	case k >= 2 && typ != vpBoolean:
		code = errPredicateOperandBool
	}
	_, err := vpCheckTarget(db, qs)
	if err != nil {
		vpAssert(code != 0, "a predicate PostgreSQL can evaluate is rejected")
		vpAssert(vpCode(err) == code, "another error is reported for a predicate")
		vpReach("rejected")
		return
	}
	vpAssert(code == 0, "a predicate PostgreSQL cannot evaluate is accepted")
	vpReach("accepted")
}

// The bounds of a range.
func VP_T05_Between() {
	db := vpDatabase(vpInt4, vpInt8, vpText)
	l := []*Type{vpInt4, vpText}[vpChoose(2)]
	r := []*Type{vpInt8, vpText, vpInt4}[vpChoose(3)]
	preds := []analysis.Predicate{analysis.IsBetween, analysis.NotBetween, analysis.IsBetweenSym, analysis.NotBetweenSym, analysis.IsBetweenAsym, analysis.NotBetweenAsym}
	k := vpChoose(len(preds))
	names := []string{">=", "<="}
	if k%2 == 1 {
		names = []string{"<", ">"}
	}
	lo := vpOperators(db, l, r, names[0], false)
	hi := vpOperators(db, l, r, names[1], false)
	id := analysis.ColIdent{Qualifier: "a", Name: "l"}
	rid := analysis.ColIdent{Qualifier: "a", Name: "r"}
	lid := analysis.ColIdent{Qualifier: "a", Name: "s"}
	rel := analysis.RelIdent{Name: "t", Alias: "a"}
	vpTable(db, rel, vpColumn("l", l), vpColumn("r", r), vpColumn("s", l))
	wb := &analysis.WhereBetweenStruct{FieldName: "B", ColIdent: id, Predicate: preds[k]}
	lower, upper := vpBool(), vpBool() // which bound is of the other type
	bound := func(other bool) *analysis.BetweenColumnDirective {
		if other {
			return &analysis.BetweenColumnDirective{ColIdent: rid}
		}
		return &analysis.BetweenColumnDirective{ColIdent: lid}
	}
	wb.LowerBound, wb.UpperBound = bound(lower), bound(upper)
	qs := &analysis.QueryStruct{
		TypeName: "SelectQuery", Kind: analysis.QueryKindSelect,
		Rel:   &analysis.RelField{FieldName: "R", Id: rel},
		Where: &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{wb}},
	}
	ok := (!lower || lo.comparable(l, r)) && (!upper || hi.comparable(l, r))
	res, err := vpCheckTarget(db, qs)
	if err != nil {
		vpAssert(!ok, "a range PostgreSQL can evaluate is rejected")
		vpAssert(vpCode(err) == errBetweenColumnComparison, "another error is reported for a range")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a range PostgreSQL cannot evaluate is accepted")
	b, _ := res.Where[0].(*BetweenConditional)
	vpAssert(b != nil, "a range is lost")
	if b == nil {
		return
	}
	x, _ := b.LowerBound.(*ColumnConditional)
	y, _ := b.UpperBound.(*ColumnConditional)
	vpAssert(x != nil && y != nil, "a bound is lost")
	if x != nil && y != nil {
		vpAssert(b.Predicate == preds[k], "the predicate of a range is lost")
		vpAssert((x.RHSColIdent == rid) == lower && (y.RHSColIdent == rid) == upper, "the bounds of a range are mixed up")
	}
	vpReach("accepted")
}

// Comparisons with the type of a literal, which the database reports.
func VP_T05_Literals() {
	unknown := &Type{OID: oid.Unknown, Name: "unknown", NameFmt: "unknown", Type: TypeTypePseudo, Category: TypeCategoryUnknown}
	enum := &Type{OID: 90001, Name: "color", NameFmt: "color", Type: TypeTypeEnum, Category: TypeCategoryEnum}
	db := vpDatabase(vpInt4, vpInt8, vpText, vpInt4Arr, unknown, enum)
	l := []*Type{vpInt4, vpText, enum}[vpChoose(3)]
	rtypes := []*Type{vpInt4, vpInt8, unknown, vpInt4Arr, nil}
	r := rtypes[vpChoose(len(rtypes))]
	pred := vpBinary[vpChoose(len(vpBinary))]
	qua := analysis.Quantifier(vpChoose(2))
	vpAssume(qua == 0 || !vpIsArrayPred(pred))
	array := vpIsArrayPred(pred) || qua > 0
	eff := r
	code := dbErrorCode(0)
	switch {
	case r == nil:
		code = errColumnComparison // a type that is not in the catalog
	case array && r != vpInt4Arr && vpIsArrayPred(pred):
		code = errPredicateOperandArray
	case array && r != vpInt4Arr:
		code = errPredicateOperandQuantifier
	case array:
		eff = vpInt4
	}
	if code == 0 {
		if m := vpOperators(db, l, eff, vpOprname(pred), false); !m.comparable(l, eff) {
			code = errColumnComparison
		}
	}
	c := &checker{db: db, info: &analysis.Info{}}
	var got dbErrorCode
	ok := !vpPanics(func() { got = typeCheckComparison(c, l, r, pred, qua) })
	vpAssert(ok, "the type checker panics")
	if !ok {
		return
	}
	if r == nil {
		vpAssert(got != 0, "a comparison with an unknown type is accepted")
	} else {
		vpAssert(got == code, "a comparison is judged wrongly")
	}
	vpReach("judged")
}
