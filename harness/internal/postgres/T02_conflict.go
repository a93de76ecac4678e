package postgres

import "github.com/frk/gosql/internal/analysis"

func vpInsert(db *DB, oc *analysis.OnConflictStruct, fields ...*analysis.FieldInfo) (*TargetInfo, error) {
	if len(fields) == 0 { // something to insert
		fields = append(fields, vpField("a", vpKind(analysis.TypeKindInt)))
	}
	qs := &analysis.QueryStruct{
		TypeName:   "InsertQuery",
		Kind:       analysis.QueryKindInsert,
		Rel:        &analysis.RelField{FieldName: "R", Id: vpRel, Type: analysis.RelType{Fields: fields}},
		OnConflict: oc,
	}
	return vpCheckTarget(db, qs)
}

func vpSubset(a, b []int16) bool {
	all := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = vpOr(in, x == y)
		}
		all = vpAnd(all, in)
	}
	return all
}

// A conflict target given as columns.
func VP_T02_Columns() {
	db := vpDatabase(vpInt4)
	cols := []*Column{vpColumn("a", vpInt4), vpColumn("b", vpInt4), vpColumn("c", vpInt4)}
	rel := vpTable(db, vpRel, cols...)
	// a dropped column leaves a gap in the numbers
	if vpBool() {
		cols[2].Num = 5
	}

	for i, n := 0, vpChoose(vpBound("indexes", 2, 3)+1); i < n; i++ {
		ind := &Index{Name: string([]byte{'i', byte('0' + i)}), IsReady: true, IsImmediate: true}
		ind.IsUnique = vpBool()
		ind.IsPrimary = vpAnd(vpBool(), ind.IsUnique)
		for j, k := 0, 1+vpChoose(vpBound("index columns", 2, 3)); j < k; j++ {
			num := vpI16()
			vpAssume(vpOr(vpOr(num == 0, num == 1), vpOr(num == 2, num == cols[2].Num)))
			ind.Key = append(ind.Key, num)
		}
		ind.NumAtts = len(ind.Key)
		ind.Expression = ind.Name
		ind.Predicate = ind.Name + "p"
		rel.Indexes = append(rel.Indexes, ind)
	}

	var ids []analysis.ColIdent
	var nums []int16
	unknown := false
	for i, n := 0, 1+vpChoose(vpBound("listed columns", 3, 3)); i < n; i++ {
		k := vpChoose(4)
		if k == 3 {
			unknown = true
			ids = append(ids, vpID("x"))
			continue
		}
		nums = append(nums, cols[k].Num)
		ids = append(ids, vpID(cols[k].Name))
	}

	any, uniq := false, false
	for _, ind := range rel.Indexes {
		m := vpAnd(vpSubset(ind.Key, nums), vpSubset(nums, ind.Key))
		any = vpOr(any, m)
		uniq = vpOr(uniq, vpAnd(m, vpOr(ind.IsUnique, ind.IsPrimary)))
	}

	oc := &analysis.OnConflictStruct{Column: &analysis.ColumnDirective{ColIdents: ids}, Ignore: &analysis.IgnoreDirective{}}
	res, err := vpInsert(db, oc)
	if err != nil {
		switch vpCode(err) {
		case errColumnUnknown:
			vpAssert(unknown, "a known column of a conflict target is reported as unknown")
			vpReach("unknown column")
		case errOnConflictIndexColumnsUnknown:
			vpAssert(!any, "an existing index is reported as missing")
			vpReach("no index")
		case errOnConflictIndexColumnsNotUnique:
			vpAssert(vpAnd(any, !uniq), "an existing unique index is reported as missing")
			vpReach("no unique index")
		default:
			vpAssert(false, "another error is reported for a conflict target")
		}
		return
	}
	vpAssert(!unknown, "an unknown column of a conflict target is accepted")
	target, ok := res.Conflict.Target.(*ConflictIndex)
	vpAssert(ok, "no index is used as the target of a column list")
	if !ok {
		return
	}
	good := false
	for _, ind := range rel.Indexes {
		m := vpAnd(vpSubset(ind.Key, nums), vpSubset(nums, ind.Key))
		m = vpAnd(m, vpOr(ind.IsUnique, ind.IsPrimary))
		good = vpOr(good, vpAnd(m, vpAnd(target.Expression == ind.Expression, target.Predicate == ind.Predicate)))
	}
	vpAssert(good, "the target is not a unique index over exactly the listed columns")
	vpReach("resolved")
}

// A conflict target given by name.
func VP_T02_Names() {
	db := vpDatabase(vpInt4)
	rel := vpTable(db, vpRel, vpColumn("a", vpInt4))
	n := vpBound("indexes and constraints", 2, 3)
	byName := vpBytes(1)
	found, uniq := false, false
	oc := &analysis.OnConflictStruct{Ignore: &analysis.IgnoreDirective{}}
	index := vpBool()
	for i, k := 0, vpChoose(n+1); i < k; i++ {
		nm := vpBytes(1)
		// an unrelated index next to constraints, and the other way round
		same := nm[0] == byName[0]
		vpAssume(vpOr(!same, !found))
		found = vpOr(found, same)
		if index {
			ind := &Index{Name: string(nm), IsReady: true, IsImmediate: true, Key: []int16{1}, NumAtts: 1}
			ind.IsUnique = vpBool()
			ind.IsPrimary = vpAnd(ind.IsUnique, vpBool())
			ind.Expression = string([]byte{'e', byte('0' + i)})
			ind.Predicate = string([]byte{'p', byte('0' + i)})
			rel.Indexes = append(rel.Indexes, ind)
			uniq = vpOr(uniq, vpAnd(same, vpOr(ind.IsUnique, ind.IsPrimary)))
			continue
		}
		kinds := []ConstraintType{ConstraintTypePKey, ConstraintTypeUnique, ConstraintTypeCheck, ConstraintTypeFKey, ConstraintTypeTrigger, ConstraintTypeExclusion}
		kind := vpChoose(len(kinds))
		rel.Constraints = append(rel.Constraints, &Constraint{Name: string(nm), Type: kinds[kind]})
		uniq = vpOr(uniq, vpAnd(same, kind < 2))
	}
	other := string(byName)
	if index {
		rel.Constraints = append(rel.Constraints, &Constraint{Name: other, Type: ConstraintTypeUnique})
		oc.Index = &analysis.IndexDirective{Name: other}
	} else {
		rel.Indexes = append(rel.Indexes, &Index{Name: other, IsUnique: true, Expression: "z"})
		oc.Constraint = &analysis.ConstraintDirective{Name: other}
	}

	res, err := vpInsert(db, oc)
	if err != nil {
		switch vpCode(err) {
		case errOnConflictIndexUnknown:
			vpAssert(vpAnd(index, !found), "an existing index is reported as missing")
		case errOnConflictConstraintUnknown:
			vpAssert(vpAnd(!index, !found), "an existing constraint is reported as missing")
		case errOnConflictIndexNotUnique:
			vpAssert(vpAnd(index, vpAnd(found, !uniq)), "a unique index is reported as not unique")
		case errOnConflictConstraintNotUnique:
			vpAssert(vpAnd(!index, vpAnd(found, !uniq)), "a unique constraint is reported as not unique")
		default:
			vpAssert(false, "another error is reported for a conflict target")
		}
		vpReach("rejected")
		return
	}
	vpAssert(uniq, "a missing or non-unique conflict target is accepted")
	switch target := res.Conflict.Target.(type) {
	case *ConflictIndex:
		good := false
		for _, ind := range rel.Indexes {
			good = vpOr(good, vpAnd(ind.Name == other, vpAnd(target.Expression == ind.Expression, target.Predicate == ind.Predicate)))
		}
		vpAssert(vpAnd(index, good), "another index is used as the target")
		vpReach("index")
	case *ConflictConstraint:
		vpAssert(vpAnd(!index, target.Name == other), "another constraint is used as the target")
		vpReach("constraint")
	default:
		vpAssert(false, "the conflict target is lost")
	}
}

// The action: columns to be updated, and that there is one.
func VP_T02_Action() {
	db := vpDatabase(vpInt4)
	rel := vpTable(db, vpRel, vpColumn("a", vpInt4), vpColumn("b", vpInt4), vpColumn("c", vpInt4))
	rel.Indexes = []*Index{{Name: "i", IsUnique: true, IsReady: true, IsImmediate: true, Key: []int16{1}, NumAtts: 1, Expression: "a"}}
	fields := []*analysis.FieldInfo{vpField("a", vpKind(analysis.TypeKindInt)), vpField("b", vpKind(analysis.TypeKindInt)), vpField("c", vpKind(analysis.TypeKindInt))}
	var written []string
	for _, f := range fields {
		if vpBool() {
			f.Mode = 3 // read-only
		} else {
			written = append(written, f.ColIdent.Name)
		}
	}
	oc := &analysis.OnConflictStruct{}
	if vpBool() {
		oc.Index = &analysis.IndexDirective{Name: "i"}
	}
	var want []string
	unknown, none := false, false
	switch vpChoose(4) {
	case 0:
		none = true
	case 1:
		oc.Ignore = &analysis.IgnoreDirective{}
	case 2:
		vpAssume(oc.Index != nil)
		oc.Update = &analysis.UpdateDirective{ColIdentList: analysis.ColIdentList{All: true}}
		want = written
	case 3:
		vpAssume(oc.Index != nil)
		oc.Update = &analysis.UpdateDirective{}
		for i, n := 0, 1+vpChoose(3); i < n; i++ {
			name := []string{"a", "b", "c", "x"}[vpChoose(4)]
			unknown = unknown || name == "x"
			oc.Update.Items = append(oc.Update.Items, vpID(name))
			want = append(want, name)
		}
	}
	vpAssume(len(written) > 0)
	res, err := vpInsert(db, oc, fields...)
	if err != nil {
		vpAssert(unknown || none, "a well formed conflict clause is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(!none, "a conflict clause without an action is accepted")
	vpAssert(!unknown, "an unknown column to be updated is accepted")
	vpAssert((res.Conflict.Target != nil) == (oc.Index != nil), "a conflict target is lost or made up")
	vpAssert(len(res.Conflict.Update) == len(want), "a column to be updated on a conflict is lost or made up")
	for i, c := range res.Conflict.Update {
		if i < len(want) {
			vpAssert(c.Name == want[i], "another column is updated on a conflict")
		}
	}
	vpReach("accepted")
}
