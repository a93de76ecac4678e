package postgres

import (
	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

// The bits of a field's mode: what the options of the field allow.
const (
	vpSelect = 1 << iota
	vpFilter
	vpInsertM
	vpUpdateM
)

type vpF struct {
	f     *analysis.FieldInfo
	col   *Column // nil: there is no such column
	modes []analysis.FieldMode
}

// can reports whether the options of the field, and of the fields it is nested in, allow m.
func (f vpF) can(m analysis.FieldMode) bool {
	ok := true
	for _, x := range f.modes {
		ok = vpAnd(ok, x&m != 0)
	}
	return ok
}

func (f vpF) readOnly() bool {
	ro := false
	for _, x := range f.modes {
		ro = vpOr(ro, x&(vpSelect|vpInsertM|vpUpdateM) == vpSelect)
	}
	return ro
}

func vpMode() analysis.FieldMode {
	m := vpByte()
	vpAssume(m < 16)
	return analysis.FieldMode(m)
}

// vpRecord is a record with n fields of any mode, and the table for it.
func vpRecord(db *DB, id analysis.RelIdent, n int) (fs []vpF, rel *Relation) {
	var cols []*Column
	for i := 0; i < n; i++ {
		name := string([]byte{'a' + byte(i)})
		x := vpF{f: vpField(name, vpKind(analysis.TypeKindInt))}
		x.f.Mode = vpMode()
		x.modes = append(x.modes, x.f.Mode)
		if vpBool() {
			node := &analysis.FieldSelectorNode{Name: "N", Mode: vpMode()}
			x.f.Selector = append(x.f.Selector, node)
			x.modes = append(x.modes, node.Mode)
		}
		if vpBool() {
			x.col = vpColumn(name, vpInt4)
			x.col.IsPrimary = vpBool()
			x.col.HasNotNull = vpBool()
			cols = append(cols, x.col)
		}
		fs = append(fs, x)
	}
	cols = append(cols, vpColumn("z", vpText)) // a column without a field
	return fs, vpTable(db, id, cols...)
}

func vpInfos(fs []vpF) (out []*analysis.FieldInfo) {
	for _, x := range fs {
		out = append(out, x.f)
	}
	return out
}

// vpList is a list of some of the fields' columns, or "*", or nothing.
func vpList(fs []vpF, qual string) (l analysis.ColIdentList, has func(name string) bool) {
	k := vpChoose(2 + len(fs))
	if k == 0 {
		return analysis.ColIdentList{All: true}, func(string) bool { return true }
	}
	var names []string
	for i := 1; i < k; i++ {
		names = append(names, fs[vpChoose(len(fs))].f.ColIdent.Name)
	}
	for i, n := range names {
		id := analysis.ColIdent{Name: n}
		if i == 0 {
			id.Qualifier = qual
		}
		l.Items = append(l.Items, id)
	}
	return l, func(name string) bool {
		for _, n := range names {
			if n == name {
				return true
			}
		}
		return false
	}
}

func vpSeen(want, got []*Column, msg string) {
	vpAssert(len(want) == len(got), msg)
	for i := range want {
		if i < len(got) {
			vpAssert(want[i] == got[i], msg)
		}
	}
}

var vpAliased = analysis.RelIdent{Name: "t", Alias: "x"}

// What an INSERT or UPDATE writes, and the keys it knows.
func VP_T04_Writes() {
	db := vpDatabase(vpInt4, vpText)
	id := vpRel
	if vpBool() {
		id = vpAliased
	}
	fs, rel := vpRecord(db, id, vpBound("fields", 2, 3))
	partial := vpBool() // the key has a column without a field
	rel.Columns[len(rel.Columns)-1].IsPrimary = partial
	qs := &analysis.QueryStruct{
		TypeName: "InsertQuery", Kind: analysis.QueryKindInsert,
		Rel: &analysis.RelField{FieldName: "R", Id: id, Type: analysis.RelType{Fields: vpInfos(fs)}},
	}
	bit := analysis.FieldMode(vpInsertM)
	if vpBool() {
		qs.Kind, bit = analysis.QueryKindUpdate, vpUpdateM
	}
	forced := func(string) bool { return false }
	badForce := false
	if vpBool() {
		var l analysis.ColIdentList
		l, forced = vpList(fs, id.Alias)
		qs.Force = &analysis.ForceDirective{ColIdentList: l}
		for _, it := range l.Items {
			for _, x := range fs {
				if x.f.ColIdent.Name == it.Name && x.col == nil {
					badForce = true
				}
			}
		}
	}
	missing := false
	for _, x := range fs {
		if x.col == nil {
			missing = vpOr(missing, !x.readOnly())
		}
	}
	empty := true // nothing is written
	primaries := 0
	for _, x := range fs {
		if x.col == nil {
			continue
		}
		empty = vpAnd(empty, !x.can(bit), !forced(x.col.Name))
		if x.col.IsPrimary {
			primaries++
		}
	}
	keyless := qs.Kind == analysis.QueryKindUpdate && (partial || primaries == 0)
	if keyless && vpBool() {
		qs.All = &analysis.AllDirective{}
		keyless = false
	}
	res, err := vpCheckTarget(db, qs)
	if err != nil {
		vpAssert(vpOr(missing, badForce, empty, keyless), "a well formed record is rejected")
		if code := vpCode(err); code == errWriteColumnsMissing {
			vpAssert(empty, "columns to write are said to be missing")
			vpReach("nothing to write")
		} else if code == errPrimaryKeyMissing {
			vpAssert(keyless, "the primary key is said to be missing")
			vpReach("no key")
		} else {
			vpAssert(code == errColumnUnknown && vpOr(missing, badForce), "another error is reported for a missing column")
			vpReach("rejected")
		}
		return
	}
	vpAssert(!vpOr(missing, badForce), "a field without a column is not reported")
	vpAssert(!empty, "a record without columns to write is accepted")
	vpAssert(!keyless, "an update whose record lacks part of the primary key is accepted")
	var writes, keys []*Column
	for _, x := range fs {
		if x.col == nil {
			continue
		}
		if x.col.IsPrimary {
			keys = append(keys, x.col)
		}
		if x.can(bit) || forced(x.col.Name) {
			writes = append(writes, x.col)
		}
	}
	vpWrites(res.Writes, writes, fs, id, "the written columns are not those the fields' options ask for")
	vpWrites(res.PKeys, keys, fs, id, "the primary key columns are not those of the table")
	vpAssert(len(res.Reads) == 0, "a column is read although nothing is returned")
	vpReach("checked")
}

func vpWrites(got []*FieldWrite, want []*Column, fs []vpF, id analysis.RelIdent, msg string) {
	var cols []*Column
	for _, w := range got {
		cols = append(cols, w.Column)
		paired := false
		for _, x := range fs {
			paired = paired || (x.f == w.Field && x.col == w.Column)
		}
		vpAssert(paired, "a column is paired with another field")
		vpAssert(w.ColIdent == analysis.ColIdent{Name: w.Column.Name, Qualifier: id.Alias}, "a column is referred to by another name")
	}
	vpSeen(want, cols, msg)
}

func vpReads(got []*FieldRead, want []*Column, fs []vpF, id analysis.RelIdent) {
	var cols []*Column
	for _, w := range got {
		cols = append(cols, w.Column)
		paired := false
		for _, x := range fs {
			paired = paired || (x.f == w.Field && x.col == w.Column)
		}
		vpAssert(paired, "a column is paired with another field")
		vpAssert(w.ColIdent == analysis.ColIdent{Name: w.Column.Name, Qualifier: id.Alias}, "a column is referred to by another name")
	}
	vpSeen(want, cols, "the columns read are not those the fields' options and lists ask for")
}

// What a SELECT reads.
func VP_T04_Select() {
	db := vpDatabase(vpInt4, vpText)
	id := vpRel
	if vpBool() {
		id = vpAliased
	}
	fs, _ := vpRecord(db, id, vpBound("fields", 2, 3))
	qs := &analysis.QueryStruct{
		TypeName: "SelectQuery", Kind: analysis.QueryKindSelect,
		Rel: &analysis.RelField{FieldName: "R", Id: id, Type: analysis.RelType{Fields: vpInfos(fs)}},
	}
	optional := func(string) bool { return false }
	if vpBool() {
		var l analysis.ColIdentList
		l, optional = vpList(fs, id.Alias)
		qs.Optional = &analysis.OptionalDirective{ColIdentList: l}
	}
	missing := false
	var reads []*Column
	for _, x := range fs {
		if x.col == nil {
			missing = missing || !optional(x.f.ColIdent.Name)
		}
	}
	res, err := vpCheckTarget(db, qs)
	if err != nil {
		vpAssert(vpCode(err) == errColumnUnknown, "another error is reported for a missing column")
		vpAssert(missing, "a well formed record is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(!missing, "a field without a column is not reported")
	for _, x := range fs {
		if x.col != nil && x.can(vpSelect) {
			reads = append(reads, x.col)
		}
	}
	vpReads(res.Reads, reads, fs, id)
	vpAssert(len(res.Writes) == 0 && len(res.PKeys) == 0, "a SELECT writes")
	vpReach("checked")
}

// What an INSERT, UPDATE or DELETE returns.
func VP_T04_Return() {
	db := vpDatabase(vpInt4, vpText)
	id := vpRel
	if vpBool() {
		id = vpAliased
	}
	fs, _ := vpRecord(db, id, vpBound("returned fields", 2, 2))
	for _, x := range fs {
		x.f.Mode |= vpInsertM | vpUpdateM // not the subject
		x.modes[0] = x.f.Mode
		for i, s := range x.f.Selector {
			s.Mode |= vpInsertM | vpUpdateM
			x.modes[i+1] = s.Mode
		}
	}
	kinds := []analysis.QueryKind{analysis.QueryKindInsert, analysis.QueryKindUpdate, analysis.QueryKindDelete}
	kind := vpChoose(3)
	qs := &analysis.QueryStruct{
		TypeName: "Query", Kind: kinds[kind],
		Rel: &analysis.RelField{FieldName: "R", Id: id, Type: analysis.RelType{Fields: vpInfos(fs)}},
	}
	if kind > 0 {
		qs.All = &analysis.AllDirective{}
	}
	forced := func(string) bool { return false }
	if kind < 2 && vpBool() {
		var l analysis.ColIdentList
		l, forced = vpList(fs, id.Alias)
		qs.Force = &analysis.ForceDirective{ColIdentList: l}
	}
	column := func(name string) *Column {
		for _, x := range fs {
			if x.f.ColIdent.Name == name {
				return x.col
			}
		}
		return nil
	}
	bad := false
	if qs.Force != nil {
		for _, it := range qs.Force.Items {
			bad = bad || column(it.Name) == nil
		}
	}
	var reads []*Column
	switch vpChoose(3) {
	case 0: // RETURNING of everything
		qs.Return = &analysis.ReturnDirective{ColIdentList: analysis.ColIdentList{All: true}}
		for _, x := range fs {
			if x.col != nil && (x.can(vpSelect) || forced(x.col.Name)) {
				reads = append(reads, x.col)
			}
		}
	case 1: // some columns
		qs.Return = &analysis.ReturnDirective{}
		for i, n := 0, 1+vpChoose(2); i < n; i++ {
			x := fs[vpChoose(len(fs))]
			qs.Return.Items = append(qs.Return.Items, x.f.ColIdent)
			if x.col == nil {
				bad = true
				continue
			}
			// whether listing a write-only column reads it is not specified
			vpAssume(x.can(vpSelect) || forced(x.col.Name))
			reads = append(reads, x.col)
		}
	case 2: // a record of its own
		qs.Result = &analysis.ResultField{FieldName: "Result", Type: analysis.RelType{Fields: vpInfos(fs)}}
		for _, x := range fs {
			if x.col == nil {
				bad = true
			} else if x.can(vpSelect) || forced(x.col.Name) {
				reads = append(reads, x.col)
			}
		}
	}
	if kind < 2 {
		for _, x := range fs {
			bad = bad || x.col == nil
		}
	}
	res, err := vpCheckTarget(db, qs)
	if err != nil {
		vpAssert(vpCode(err) == errColumnUnknown, "another error is reported for a missing column")
		vpAssert(bad, "a well formed query is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(!bad, "a field without a column is not reported")
	vpReads(res.Reads, reads, fs, id)
	vpReach("checked")
}

// What a filter may filter by.
func VP_T04_Filter() {
	tsv := &Type{OID: oid.TSVector, Name: "tsvector", Type: TypeTypeBase, Category: TypeCategoryUserdefined}
	db := vpDatabase(vpInt4, vpText, tsv)
	id := vpRel
	if vpBool() {
		id = vpAliased
	}
	fs, rel := vpRecord(db, id, vpBound("fields", 2, 3))
	rel.Columns = append(rel.Columns, &Column{Num: 9, Name: "v", Type: tsv, Relation: rel})
	s := &analysis.FilterStruct{
		TypeName: "F",
		Rel:      &analysis.RelField{FieldName: "R", Id: id, Type: analysis.RelType{Fields: vpInfos(fs)}},
	}
	code := dbErrorCode(0)
	switch vpChoose(4) {
	case 1:
		s.TextSearch = &analysis.TextSearchDirective{ColIdent: vpID("v")}
	case 2:
		s.TextSearch = &analysis.TextSearchDirective{ColIdent: vpID("z")}
		code = errColumnTextSearchType
	case 3:
		s.TextSearch = &analysis.TextSearchDirective{ColIdent: vpID("w")}
		code = errColumnUnknown
	}
	res, err := vpCheckTarget(db, s)
	if err != nil {
		vpAssert(code != 0 && vpCode(err) == code, "a well formed filter is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(code == 0, "a text search of a column that is no tsvector is accepted")
	var want, got []*Column
	for _, x := range fs {
		if x.col != nil && x.can(vpFilter) {
			want = append(want, x.col)
		}
	}
	for _, f := range res.Filters {
		got = append(got, f.Column)
		paired := false
		for _, x := range fs {
			paired = paired || (x.f == f.Field && x.col == f.Column)
		}
		vpAssert(paired, "a column is paired with another field")
		vpAssert(f.ColIdent == analysis.ColIdent{Name: f.Column.Name, Qualifier: id.Alias}, "a column is referred to by another name")
	}
	vpSeen(want, got, "the columns to filter by are not those the fields' options ask for")
	vpReach("checked")
}

// The lists of the default and order-by directives name columns that exist, of
// the relation they are qualified with.
func VP_T04_Lists() {
	db := vpDatabase(vpInt4, vpText)
	rel := vpTable(db, vpAliased, vpColumn("a", vpInt4), vpColumn("b", vpInt4))
	other := analysis.RelIdent{Name: "o", Alias: "y"}
	vpTable(db, other, vpColumn("a", vpInt4), vpColumn("c", vpInt4))
	rel.Columns[0].HasDefault = vpBool()
	f := vpField("b", vpKind(analysis.TypeKindInt))
	f.UseDefault = vpBool()
	rel.Columns[1].HasDefault = vpBool()
	qs := &analysis.QueryStruct{
		TypeName: "Query", Kind: analysis.QueryKindUpdate,
		Rel:  &analysis.RelField{FieldName: "R", Id: vpAliased, Type: analysis.RelType{Fields: []*analysis.FieldInfo{f}}},
		All:  &analysis.AllDirective{},
		Join: &analysis.JoinStruct{FieldName: "From", Relation: &analysis.RelationDirective{RelIdent: other}},
	}
	id := analysis.ColIdent{Name: []string{"a", "b", "c", "d"}[vpChoose(4)], Qualifier: []string{"", "x", "y", "t"}[vpChoose(4)]}
	target := id.Qualifier != "y" && id.Qualifier != "t" && (id.Name == "a" || id.Name == "b")
	joined := id.Qualifier == "y" && (id.Name == "a" || id.Name == "c")
	code := dbErrorCode(0)
	switch {
	case id.Qualifier == "t":
		code = errColumnQualifierUnknown // the alias hides the name
	case !target && !joined:
		code = errColumnUnknown
	}
	switch vpChoose(5) {
	case 0:
		qs.Default = &analysis.DefaultDirective{ColIdentList: analysis.ColIdentList{Items: []analysis.ColIdent{id}}}
		switch {
		case id.Qualifier == "y":
			code = errColumnQualifierUnknown
		case code == 0 && id.Name == "a" && !rel.Columns[0].HasDefault:
			code = errColumnDefaultUnset
		case code == 0 && id.Name == "b" && !rel.Columns[1].HasDefault:
			code = errColumnDefaultUnset
		}
	case 1:
		qs.OrderBy = &analysis.OrderByDirective{Items: []analysis.OrderByTagItem{{ColIdent: id}}}
	case 2:
		qs.Force = &analysis.ForceDirective{ColIdentList: analysis.ColIdentList{Items: []analysis.ColIdent{id}}}
	case 3:
		vpAssume(id.Name == "b") // analysis finds a field for every listed column
		qs.Return = &analysis.ReturnDirective{ColIdentList: analysis.ColIdentList{Items: []analysis.ColIdent{id}}}
		if id.Qualifier == "y" {
			code = errColumnQualifierUnknown
		}
	case 4:
		code = 0
	}
	if code == 0 && f.UseDefault && !rel.Columns[1].HasDefault {
		code = errColumnDefaultUnset
	}
	_, err := vpCheckTarget(db, qs)
	if err != nil {
		vpAssert(code != 0, "a well formed query is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(code == 0, "a column that does not exist, or has no default, is accepted")
	vpReach("accepted")
}

// vpAnyName is any identifier of two characters.
func vpAnyName() string {
	b := []byte{vpByte(), vpByte()}
	for i, c := range b {
		letter := vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z'), c == '_')
		vpAssume(vpOr(letter, vpAnd(i > 0, c >= '0', c <= '9')))
	}
	return string(b)
}

// Names: whatever the columns are called, a field, a list's item or a condition
// refers to the one that has exactly its name.
func VP_T04_Names() {
	db := vpDatabase(vpInt4, vpText)
	db.catalog.Operators[OpKey{Name: "=", Left: oid.Int4, Right: oid.Int4}] = &Operator{}
	cols := []*Column{vpColumn(vpAnyName(), vpInt4), vpColumn(vpAnyName(), vpInt4)}
	vpAssume(cols[0].Name != cols[1].Name)
	for _, c := range cols {
		c.HasDefault = true
	}
	vpTable(db, vpAliased, cols...)
	name := vpAnyName()
	var want *Column
	for _, c := range cols {
		if c.Name == name {
			want = c
		}
	}
	id := analysis.ColIdent{Name: name, Qualifier: "x"}
	list := analysis.ColIdentList{Items: []analysis.ColIdent{id}}
	other := vpField(cols[0].Name, vpKind(analysis.TypeKindInt))
	qs := &analysis.QueryStruct{
		TypeName: "Query", Kind: analysis.QueryKindSelect,
		Rel: &analysis.RelField{FieldName: "R", Id: vpAliased, Type: analysis.RelType{Fields: []*analysis.FieldInfo{other}}},
	}
	place := vpChoose(8)
	switch place {
	case 0:
		f := vpField(name, vpKind(analysis.TypeKindInt))
		qs.Rel.Type.Fields = []*analysis.FieldInfo{f}
	case 1:
		qs.Kind = analysis.QueryKindInsert
		f := vpField(name, vpKind(analysis.TypeKindInt))
		qs.Rel.Type.Fields = []*analysis.FieldInfo{f}
	case 2:
		qs.OrderBy = &analysis.OrderByDirective{Items: []analysis.OrderByTagItem{{ColIdent: id}}}
	case 3:
		qs.Kind = analysis.QueryKindInsert
		qs.Default = &analysis.DefaultDirective{ColIdentList: list}
	case 4:
		qs.Kind = analysis.QueryKindInsert
		qs.Force = &analysis.ForceDirective{ColIdentList: list}
	case 5:
		qs.Where = &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{
			&analysis.WhereStructField{Name: "A", Type: vpKind(analysis.TypeKindInt), ColIdent: id, Predicate: analysis.IsEQ}}}
	case 6:
		qs.Where = &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{
			&analysis.WhereColumnDirective{LHSColIdent: analysis.ColIdent{Name: cols[1].Name, Qualifier: "x"}, RHSColIdent: id, Predicate: analysis.IsEQ}}}
	case 7:
		qs.Kind = analysis.QueryKindInsert
		qs.OnConflict = &analysis.OnConflictStruct{FieldName: "OnConflict", Ignore: &analysis.IgnoreDirective{},
			Update: &analysis.UpdateDirective{ColIdentList: list}}
	}
	res, err := vpCheckTarget(db, qs)
	if want == nil {
		vpAssert(err != nil, "a column that does not exist is accepted")
		vpReach("rejected")
		return
	}
	vpAssert(err == nil, "a column that exists is rejected")
	if err != nil {
		return
	}
	var got *Column
	switch place {
	case 0:
		vpAssert(len(res.Reads) == 1, "a column is not read")
		got = res.Reads[0].Column
	case 1:
		vpAssert(len(res.Writes) == 1, "a column is not written")
		got = res.Writes[0].Column
	case 5:
		got = res.Where[0].(*FieldConditional).Column
	case 6:
		c := res.Where[0].(*ColumnConditional)
		vpAssert(c.LHSColumn == cols[1], "a condition is about another column")
		got = c.RHSColumn
	case 7:
		vpAssert(len(res.Conflict.Update) == 1, "a column is not updated")
		got = res.Conflict.Update[0]
	default:
		vpReach("listed")
		return
	}
	vpAssert(got == want, "a name refers to a column with another name")
	vpReach("named")
}
