package postgres

import (
	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

func vpSliceOf(e analysis.TypeInfo) analysis.TypeInfo {
	return analysis.TypeInfo{Kind: analysis.TypeKindSlice, Elem: &e}
}

// vpRepeats is how often the second check is done.  A symbolic run takes the internal tables in every order; a native
// run, which confirms a counterexample, leaves the order to chance.
func vpRepeats() int { return 200 }

//vp:stub github.com/frk/gosql/internal/postgres.vpRepeats
func vpRepeatsSymbolic() int { return 1 }

// The same condition, checked twice with the internal tables in any order, gets
// the same converter.
func VP_T06_Conditions() {
	vpPermuteMaps(true)
	uuidArr := &Type{OID: oid.UUIDArr, Name: "_uuid", NameFmt: "uuid[]", Length: -1, Type: TypeTypeBase, Category: TypeCategoryArray, Elem: oid.UUID}
	int8Arr := &Type{OID: oid.Int8Arr, Name: "_int8", NameFmt: "bigint[]", Length: -1, Type: TypeTypeBase, Category: TypeCategoryArray, Elem: oid.Int8}
	id := oid.OID(vpU32())
	vpAssume(id >= 16384) // a type of the user's
	other := &Type{OID: id, Name: "other", NameFmt: "other", Type: TypeTypeBase, Category: TypeCategoryUserdefined}
	db := vpDatabase(vpText, vpInt4, uuidArr, vpTextArr, vpInt4Arr, int8Arr, other)
	ftyp := vpSliceOf(vpKind(analysis.TypeKindString))
	rights := []*Type{vpTextArr, uuidArr}
	switch vpChoose(3) {
	case 1:
		ftyp = vpSliceOf(vpKind(analysis.TypeKindInt))
		rights = []*Type{vpInt4Arr, int8Arr}
	case 2:
		ftyp = vpKind(analysis.TypeKindString)
		rights = []*Type{vpText, vpTextArr}
	}
	for _, r := range append(rights, vpInt4) {
		if vpBool() {
			db.catalog.Operators[OpKey{Name: "=", Left: other.OID, Right: r.OID}] = &Operator{}
		}
	}
	rel := analysis.RelIdent{Name: "t", Alias: "a"}
	vpTable(db, rel, vpColumn("c", other))
	var codes [2]dbErrorCode
	var valuers [2]string
	for k := 0; k <= vpRepeats(); k++ {
		i := min(k, 1)
		valuers[i] = ""
		qs := &analysis.QueryStruct{
			TypeName: "SelectQuery", Kind: analysis.QueryKindSelect,
			Rel: &analysis.RelField{FieldName: "R", Id: rel},
			Where: &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{
				&analysis.WhereStructField{Name: "F", Type: ftyp, ColIdent: analysis.ColIdent{Qualifier: "a", Name: "c"}, Predicate: analysis.IsEQ},
			}},
		}
		res, err := vpCheckTarget(db, qs)
		codes[i] = vpCode(err)
		if err == nil {
			f, _ := res.Where[0].(*FieldConditional)
			vpAssert(f != nil, "a condition is lost")
			if f != nil {
				valuers[i] = f.Valuer
			}
		}
		if k > 0 && (codes[0] != codes[1] || valuers[0] != valuers[1]) {
			break
		}
	}
	vpObs("first converter", valuers[0])
	vpObs("second converter", valuers[1])
	vpAssert(codes[0] == codes[1], "the same target is accepted once and rejected once")
	vpAssert(valuers[0] == valuers[1], "the same target gets another converter when it is checked again")
	vpReach("checked twice")
}
