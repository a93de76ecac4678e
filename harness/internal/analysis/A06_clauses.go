package analysis

import "go/types"

// vpWide is a record type with the columns a, ab and b.
func vpWide() types.Type {
	return vpNamed(vpPkg, "Wide", vpStruct().
		add("A", vpBasic(types.Int), `sql:"a"`).
		add("AB", vpBasic(types.Int), `sql:"ab"`).
		add("B", vpBasic(types.Int), `sql:"b"`).typ())
}

func vpQ(s *vpS) *vpS { return vpStruct().add("Rel", vpWide(), `rel:"t:u"`) }

// One order-by item is taken apart as documented.
func VP_A06_OrderByItem() {
	var txt string
	if vpBool() {
		txt = vpASCII(1 + vpChoose(vpBound("characters of an order-by item", 4, 6)))
	} else {
		txt = []string{"", "-", " -", "--"}[vpChoose(4)] + []string{"", "u.", "x."}[vpChoose(3)] +
			vpASCII(vpChoose(3)) + []string{":", ":nullsfirst", ":nullslast", ":NULLSLAST", ":nullsfirst ", ": nullslast", ":nullsfirs"}[vpChoose(7)]
	}
	info, err := vpRun("SelectT", vpQ(nil).dir("OrderBy", vpTag("sql", txt)))
	if _, _, has := vpSplit(txt, ','); has {
		return // a list; see OrderByList
	}
	val := vpTrim(txt)
	if val == "" {
		return // no item at all
	}
	dir, nulls := OrderAsc, NullsPosition(0)
	if val[0] == '-' {
		dir, val = OrderDesc, val[1:]
	}
	ok := true
	col, opt, has := vpSplit(val, ':')
	if has {
		first, last := opt == "nullsfirst", opt == "nullslast"
		ok = vpOr(first, last)
		if first {
			nulls = NullsFirst
		} else if last {
			nulls = NullsLast
		}
	}
	c := vpColRef(col)
	ok = vpAnd(ok, c.ok, vpOr(!c.hasQual, c.qual == "u"))
	if err != nil {
		vpAssert(!ok, "an order-by item is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed order-by item is accepted")
	o := info.Struct.(*QueryStruct).OrderBy
	vpAssert(len(o.Items) == 1, "wrong number of order-by items")
	i := o.Items[0]
	vpAssert(vpAnd(i.ColIdent.Name == c.name, i.ColIdent.Qualifier == c.qual), "wrong order-by column")
	vpAssert(i.Direction == dir, "wrong direction")
	vpAssert(i.Nulls == nulls, "wrong position of nulls")
	vpReach("accepted")
}

// A list of order-by items is kept in order, each with its own options.
func VP_A06_OrderByList() {
	n := 1 + vpChoose(vpBound("order-by items in a list", 3, 4))
	tag := ""
	type item struct {
		col   string
		desc  bool
		nulls NullsPosition
	}
	var want []item
	for k := 0; k < n; k++ {
		if k > 0 {
			tag += []string{",", ", "}[k%2]
		}
		if vpChoose(4) == 0 {
			continue // an empty item is no item
		}
		it := item{col: vpNames[k]}
		if vpBool() {
			it.desc = true
			tag += "-"
		}
		tag += it.col
		switch vpChoose(3) {
		case 1:
			tag += ":nullsfirst"
			it.nulls = NullsFirst
		case 2:
			tag += ":nullslast"
			it.nulls = NullsLast
		}
		want = append(want, it)
	}
	info, err := vpRun("SelectT", vpQ(nil).dir("OrderBy", vpTag("sql", tag)))
	if err != nil {
		vpAssert(len(want) == 0, "a list of order-by items is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(len(want) > 0, "an order-by clause without items is accepted")
	o := info.Struct.(*QueryStruct).OrderBy
	vpAssert(len(o.Items) == len(want), "wrong number of order-by items")
	for i, w := range want {
		got := o.Items[i]
		d := OrderAsc
		if w.desc {
			d = OrderDesc
		}
		vpAssert(got.ColIdent.Name == w.col, "wrong order-by column")
		vpAssert(got.Direction == d, "wrong direction")
		vpAssert(got.Nulls == w.nulls, "wrong position of nulls")
	}
	vpReach("accepted")
}

// Limits and offsets, as directives and as fields.
func VP_A06_Limit() {
	offset := vpBool()
	field := vpBool()
	var v string
	switch vpChoose(4) {
	case 0:
		v = vpASCII(vpChoose(vpBound("characters of a limit", 3, 5) + 1))
	case 1: // around the largest number
		v = "1844674407370955161" + vpASCII(1)
	case 2:
		v = "18446744073709551615" + vpASCII(1)
	case 3:
		v = "0000000000000000000000000" + vpASCII(2)
	}
	tag := vpTag("sql", v)
	if vpBool() {
		v, tag = "", ""
	}
	s := vpQ(nil)
	name := "_"
	tint := true
	switch {
	case !field && !offset:
		s.dir("Limit", tag)
	case !field:
		s.dir("Offset", tag)
	default:
		name = []string{"Limit", "limit", "LIMIT"}[vpChoose(3)]
		if offset {
			name = []string{"Offset", "offset", "oFFset"}[vpChoose(3)]
		}
		ks := []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64,
			types.String, types.Float64, types.Bool, types.Uintptr}
		k := vpChoose(len(ks))
		tint = k < 10
		s.add(name, vpBasic(ks[k]), tag)
	}
	info, err := vpRun("SelectT", s)
	txt, _, _ := vpSplit(v, ',')
	num, isNum := uint64(0), true
	var sat bool
	for i := 0; i < len(txt); i++ {
		d := txt[i] - '0'
		isNum = vpAnd(isNum, d <= 9)
		sat = vpOr(sat, num > 1844674407370955161, vpAnd(num == 1844674407370955161, d > 5))
		num = num*10 + uint64(d)
	}
	ok := vpAnd(isNum, !sat, tint)
	if txt == "" {
		num = 0
		ok = tint && field
	}
	if err != nil {
		vpAssert(!ok, "a limit or offset is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed limit or offset is accepted")
	q := info.Struct.(*QueryStruct)
	if name == "_" {
		name = ""
	}
	if offset {
		vpAssert(q.Limit == nil, "an offset became a limit")
		vpAssert(vpAnd(q.Offset.Value == num, q.Offset.Name == name), "wrong offset")
	} else {
		vpAssert(q.Offset == nil, "a limit became an offset")
		vpAssert(vpAnd(q.Limit.Value == num, q.Limit.Name == name), "wrong limit")
	}
	vpReach("accepted")
}

// The overriding clause.
func VP_A06_Override() {
	v := vpASCII([]int{0, 1, 3, 4, 5, 6, 7}[vpChoose(7)])
	info, err := vpRun("InsertT", vpQ(nil).dir("Override", vpTag("sql", v)))
	txt, _, _ := vpSplit(v, ',')
	txt = vpTrim(txt)
	sys, usr := vpEqFold(txt, "system"), vpEqFold(txt, "user")
	if err != nil {
		vpAssert(vpAnd(!sys, !usr), "an overriding clause is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(vpOr(sys, usr), "an unknown overriding clause is accepted")
	o := info.Struct.(*QueryStruct).Override
	vpAssert((o.Kind == OverridingSystem) == sys, "wrong overriding clause")
	vpAssert((o.Kind == OverridingUser) == usr, "wrong overriding clause")
	vpReach("accepted")
}

// The column lists of the return, force, optional, default and update directives.
func VP_A06_Lists() {
	which := vpChoose(5)
	var v string
	if vpBool() {
		v = vpASCII(vpChoose(vpBound("characters of a column list", 3, 4) + 1))
	} else {
		v = []string{"u.", "x.", ""}[vpChoose(3)] + vpASCII(2) + []string{"", ",", ",u.", ",*"}[vpChoose(4)] + vpASCII(1)
	}
	tag := vpTag("sql", v)
	s := vpQ(nil)
	kind := "InsertT"
	switch which {
	case 0:
		kind = []string{"InsertT", "UpdateT", "DeleteT"}[vpChoose(3)]
		s.dir("Return", tag)
	case 1:
		kind = []string{"InsertT", "UpdateT"}[vpChoose(2)]
		s.dir("Force", tag)
	case 2:
		kind = "SelectT"
		s.dir("Optional", tag)
	case 3:
		kind = []string{"InsertT", "UpdateT"}[vpChoose(2)]
		s.dir("Default", tag)
	case 4:
		s.add("OnConflict", vpStruct().dir("Index", `sql:"i"`).dir("Update", tag).typ(), "")
	}
	info, err := vpRun(kind, s)
	all := v == "*"
	ok := true
	var want []vpCid
	if !all {
		for _, p := range vpSplitAll(v, ',') {
			c := vpColRef(p)
			known := vpOr(c.name == "a", c.name == "b", c.name == "ab")
			ok = vpAnd(ok, c.ok, vpOr(!c.hasQual, c.qual == "u"), vpOr(known, which >= 3))
			want = append(want, c)
		}
	}
	if err != nil {
		vpAssert(!ok, "a list of columns is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed list of columns, or one with unknown columns, is accepted")
	q := info.Struct.(*QueryStruct)
	var list ColIdentList
	switch which {
	case 0:
		list = q.Return.ColIdentList
	case 1:
		list = q.Force.ColIdentList
	case 2:
		list = q.Optional.ColIdentList
	case 3:
		list = q.Default.ColIdentList
	case 4:
		list = q.OnConflict.Update.ColIdentList
	}
	vpAssert(list.All == all, "a star is not kept")
	vpAssert(len(list.Items) == len(want), "wrong number of columns")
	for i, w := range want {
		vpAssert(vpAnd(list.Items[i].Name == w.name, list.Items[i].Qualifier == w.qual), "wrong column in a list")
	}
	vpReach("accepted")
}

// Conflict targets and actions.
func VP_A06_OnConflict() {
	n := vpChoose(vpBound("directives in a conflict clause", 3, 4) + 1)
	s := vpStruct()
	targets, actions, bad := 0, 0, false
	var column, index, constraint, ignore, update bool
	for i := 0; i < n; i++ {
		switch vpChoose(7) {
		case 0:
			s.dir("Column", `sql:"a,u.b"`)
			column, targets = true, targets+1
		case 1:
			s.dir("Index", `sql:"idx"`)
			index, targets = true, targets+1
		case 2:
			s.dir("Constraint", `sql:"con"`)
			constraint, targets = true, targets+1
		case 3:
			s.dir("Ignore", "")
			ignore, actions = true, actions+1
		case 4:
			s.dir("Update", `sql:"b,a"`)
			update, actions = true, actions+1
		case 5:
			s.dir("Return", `sql:"a"`)
			bad = true
		case 6:
			s.add(vpNames[i], vpBasic(types.Int), "") // not a directive: of no account
		}
	}
	name := []string{"OnConflict", "onconflict", "ONCONFLICT"}[vpChoose(3)]
	info, err := vpRun("InsertT", vpQ(nil).add(name, s.typ(), ""))
	ok := !bad && targets <= 1 && actions <= 1 && (!update || targets == 1)
	if ok && actions == 0 {
		return // the type checker's business
	}
	if err != nil {
		vpAssert(!ok, "a conflict clause is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed conflict clause is accepted")
	c := info.Struct.(*QueryStruct).OnConflict
	vpAssert(c.FieldName == name, "wrong conflict field")
	vpAssert((c.Column != nil) == column, "wrong conflict target")
	vpAssert((c.Index != nil) == index, "wrong conflict target")
	vpAssert((c.Constraint != nil) == constraint, "wrong conflict target")
	vpAssert((c.Ignore != nil) == ignore, "wrong conflict action")
	vpAssert((c.Update != nil) == update, "wrong conflict action")
	if column {
		i := c.Column.ColIdents
		vpAssert(len(i) == 2 && i[0].Name == "a" && i[1].Name == "b" && i[1].Qualifier == "u", "wrong conflict columns")
	}
	if index {
		vpAssert(c.Index.Name == "idx", "wrong conflict index")
	}
	if constraint {
		vpAssert(c.Constraint.Name == "con", "wrong conflict constraint")
	}
	if update {
		i := c.Update.Items
		vpAssert(!c.Update.All && len(i) == 2 && i[0].Name == "b" && i[1].Name == "a", "wrong columns to update")
	}
	vpReach("accepted")
}

// The names of a conflict target.
func VP_A06_Target() {
	v := vpASCII(vpChoose(vpBound("characters of a conflict target", 4, 6) + 1))
	dir := []string{"Index", "Constraint"}[vpChoose(2)]
	info, err := vpRun("InsertT", vpQ(nil).add("OnConflict", vpStruct().dir(dir, vpTag("sql", v)).dir("Ignore", "").typ(), ""))
	txt, _, _ := vpSplit(v, ',')
	ok := vpIdentOK(txt)
	if err != nil {
		vpAssert(!ok, "the name of a conflict target is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed name of a conflict target is accepted")
	c := info.Struct.(*QueryStruct).OnConflict
	if dir == "Index" {
		vpAssert(c.Index.Name == txt, "wrong conflict index")
	} else {
		vpAssert(c.Constraint.Name == txt, "wrong conflict constraint")
	}
	vpReach("accepted")
}

const (
	vpIns = 1 << iota
	vpUpd
	vpDel
	vpSel
	vpCount
	vpExists
	vpNotExists
	vpSliceUpd
)

const vpAnySel = vpSel | vpCount | vpExists | vpNotExists

// vpClauses lists every clause with the kinds of query it is legal for; clauses
// of one nonzero group exclude one another.
var vpClauses = []struct {
	kinds int
	group int
	add   func(s *vpS)
	get   func(q *QueryStruct) bool
}{
	{vpUpd | vpDel, 1, func(s *vpS) { s.dir("All", "") }, func(q *QueryStruct) bool { return q.All != nil }},
	{vpUpd | vpDel | vpAnySel, 1, func(s *vpS) { s.add(vpN(s, "Where"), vpStruct().dir("Column", `sql:"a"`).typ(), "") }, func(q *QueryStruct) bool { return q.Where != nil }},
	{vpUpd | vpDel | vpAnySel, 1, func(s *vpS) { s.add(vpN(s, "F"), vpNamed(vpGosql, "Filter", types.NewStruct(nil, nil)), "") }, func(q *QueryStruct) bool { return q.Filter != nil }},
	{vpIns | vpUpd | vpDel | vpSliceUpd, 2, func(s *vpS) { s.dir("Return", `sql:"*"`) }, func(q *QueryStruct) bool { return q.Return != nil }},
	{vpIns | vpUpd | vpDel | vpSliceUpd, 2, func(s *vpS) { s.add(vpN(s, "Result"), vpWide(), "") }, func(q *QueryStruct) bool { return q.Result != nil }},
	{vpIns | vpUpd | vpDel | vpSliceUpd, 2, func(s *vpS) { s.add(vpN(s, "RowsAffected"), vpBasic(types.Int), "") }, func(q *QueryStruct) bool { return q.RowsAffected != nil }},
	{vpIns | vpUpd | vpSliceUpd, 3, func(s *vpS) { s.dir("Default", `sql:"a"`) }, func(q *QueryStruct) bool { return q.Default != nil }},
	{vpIns | vpUpd | vpSliceUpd, 4, func(s *vpS) { s.dir("Force", `sql:"*"`) }, func(q *QueryStruct) bool { return q.Force != nil }},
	{vpAnySel, 5, func(s *vpS) { s.dir("Optional", `sql:"*"`) }, func(q *QueryStruct) bool { return q.Optional != nil }},
	{vpAnySel, 6, func(s *vpS) { s.dir("Limit", `sql:"1"`) }, func(q *QueryStruct) bool { return q.Limit != nil && q.Limit.Value == 1 }},
	{vpAnySel, 6, func(s *vpS) { s.add(vpN(s, "Limit"), vpBasic(types.Int), "") }, func(q *QueryStruct) bool { return q.Limit != nil && q.Limit.Name != "" }},
	{vpAnySel, 7, func(s *vpS) { s.dir("Offset", `sql:"1"`) }, func(q *QueryStruct) bool { return q.Offset != nil && q.Offset.Value == 1 }},
	{vpAnySel, 7, func(s *vpS) { s.add(vpN(s, "Offset"), vpBasic(types.Int), "") }, func(q *QueryStruct) bool { return q.Offset != nil && q.Offset.Name != "" }},
	{vpAnySel, 8, func(s *vpS) { s.dir("OrderBy", `sql:"a"`) }, func(q *QueryStruct) bool { return q.OrderBy != nil }},
	{vpIns, 9, func(s *vpS) { s.dir("Override", `sql:"user"`) }, func(q *QueryStruct) bool { return q.Override != nil }},
	{vpIns, 10, func(s *vpS) { s.add(vpN(s, "OnConflict"), vpStruct().dir("Ignore", "").typ(), "") }, func(q *QueryStruct) bool { return q.OnConflict != nil }},
	{vpAnySel, 11, func(s *vpS) { s.add(vpN(s, "Join"), vpStruct().dir("LeftJoin", `sql:"j,j.a=u.a"`).typ(), "") }, func(q *QueryStruct) bool { return q.Join != nil && tolower(q.Join.FieldName) == "join" }},
	{vpUpd | vpSliceUpd, 11, func(s *vpS) { s.add(vpN(s, "From"), vpStruct().dir("Relation", `sql:"k"`).typ(), "") }, func(q *QueryStruct) bool { return q.Join != nil && tolower(q.Join.FieldName) == "from" }},
	{vpDel, 11, func(s *vpS) { s.add(vpN(s, "Using"), vpStruct().dir("Relation", `sql:"l"`).typ(), "") }, func(q *QueryStruct) bool { return q.Join != nil && tolower(q.Join.FieldName) == "using" }},
	{255, 12, func(s *vpS) { s.add(vpN(s, "Ctx"), vpContext, "") }, func(q *QueryStruct) bool { return q.Context != nil && tolower(q.Context.Name) == "ctx" }},
	{255, 13, func(s *vpS) { s.add(vpN(s, "eh"), vpHandler("HandleError", types.Universe.Lookup("error").Type()), "") }, func(q *QueryStruct) bool {
		return q.ErrorHandler != nil && !q.ErrorHandler.IsInfo && tolower(q.ErrorHandler.Name) == "eh"
	}},
	{255, 13, func(s *vpS) {
		s.add(vpN(s, "Ei"), vpHandler("HandleErrorInfo", types.NewPointer(vpNamed(vpGosql, "ErrorInfo", types.NewStruct(nil, nil)))), "")
	}, func(q *QueryStruct) bool {
		return q.ErrorHandler != nil && q.ErrorHandler.IsInfo && tolower(q.ErrorHandler.Name) == "ei"
	}},
	{0, 14, func(s *vpS) { s.dir("Column", `sql:"a"`) }, nil},
	{0, 14, func(s *vpS) { s.dir("TextSearch", `sql:"a"`) }, nil},
	{0, 14, func(s *vpS) { s.dir("Ignore", "") }, nil},
	// fields that mean nothing
	{255, 0, func(s *vpS) { s.add(vpN(s, "Other"), vpBasic(types.Int), `sql:"a"`) }, nil},
	{255, 0, func(s *vpS) { s.add("_", types.Universe.Lookup("error").Type(), "") }, nil},
	{255, 0, func(s *vpS) { s.add("_", vpNamed(vpPkg, "Limit", vpStruct().add("_isdir", vpBasic(types.Int), "").typ()), `sql:"x"`) }, nil},
}

var vpContext = vpNamed(types.NewPackage("context", "context"), "Context", types.NewInterfaceType(nil, nil))

// vpHandler is a type with a method that turns a value of type t into an error.
func vpHandler(name string, t types.Type) types.Type {
	n := vpNamed(vpPkg, "Handler", types.NewStruct(nil, nil))
	errT := types.Universe.Lookup("error").Type()
	sig := types.NewSignatureType(types.NewParam(0, vpPkg, "", n), nil, nil,
		types.NewTuple(types.NewParam(0, vpPkg, "", t)), types.NewTuple(types.NewParam(0, vpPkg, "", errT)), false)
	n.AddMethod(types.NewFunc(0, vpPkg, name, sig))
	return n
}

// vpN is name, or the same in another letter case if s has a field of that name.
func vpN(s *vpS, name string) string {
	for _, f := range s.fields {
		if f.Name() == name {
			if name[0] >= 'a' {
				return string(name[0]-32) + name[1:]
			}
			return string(name[0]+32) + name[1:]
		}
	}
	return name
}

// vpBase is a query struct of one of the kinds with its relation.
func vpBase(k int) (string, *vpS) {
	s := vpStruct()
	switch k {
	case 0:
		return "InsertT", s.add("Rel", vpWide(), `rel:"t:u"`)
	case 1:
		return "UpdateT", s.add("Rel", vpWide(), `rel:"t:u"`)
	case 2:
		return "DeleteT", s.add("Rel", vpWide(), `rel:"t:u"`)
	case 3:
		return "SelectT", s.add("Rel", vpWide(), `rel:"t:u"`)
	case 4:
		return "SelectT", s.add("Count", vpBasic(types.Int), `rel:"t:u"`)
	case 5:
		return "SelectT", s.add("Exists", vpBasic(types.Bool), `rel:"t:u"`)
	case 6:
		return "SelectT", s.add("NotExists", vpBasic(types.Bool), `rel:"t:u"`)
	}
	return "UpdateT", s.add("Rel", types.NewSlice(vpWide()), `rel:"t:u"`)
}

// Every clause is accepted exactly for the kinds of query that support it, and
// together exactly with clauses that do not contradict it.
func VP_A06_Legality() {
	k := vpChoose(8)
	name, s := vpBase(k)
	n := 1 + vpChoose(2)
	ok := true
	var cs []int
	for i := 0; i < n; i++ {
		c := vpChoose(len(vpClauses))
		cl := vpClauses[c]
		ok = ok && cl.kinds&(1<<k) != 0
		for _, d := range cs {
			if cl.group != 0 && vpClauses[d].group == cl.group {
				ok = false
			}
		}
		cs = append(cs, c)
		cl.add(s)
	}
	info, err := vpRun(name, s)
	if err != nil {
		vpAssert(!ok, "a legal clause is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "an illegal clause or a pair of contradicting clauses is accepted")
	q := info.Struct.(*QueryStruct)
	for c, cl := range vpClauses {
		if cl.get == nil {
			continue
		}
		has := false
		for _, d := range cs {
			has = has || c == d
		}
		vpAssert(cl.get(q) == has, "a clause is missing, or there is one not declared")
	}
	vpReach("accepted")
}

// The field with the relation decides what a select yields.
func VP_A06_RelField() {
	name := []string{"Count", "count", "COUNT", "Exists", "exists", "NotExists", "notexists", "Other", "_"}[vpChoose(9)]
	kind := []string{"InsertT", "UpdateT", "DeleteT", "SelectT"}[vpChoose(4)]
	s := vpStruct()
	tint, tbool, trec, dir := false, false, false, false
	switch t := vpChoose(6); t {
	case 0:
		s.add(name, vpWide(), `rel:"t"`)
		trec = true
	case 1:
		s.add(name, vpBasic([]types.BasicKind{types.Int, types.Int64, types.Uint8}[vpChoose(3)]), `rel:"t"`)
		tint = true
	case 2:
		s.add(name, vpBasic(types.Bool), `rel:"t"`)
		tbool = true
	case 3:
		s.add(name, vpBasic(types.String), `rel:"t"`)
	case 4:
		if name != "_" {
			vpSkip()
		}
		s.dir("Relation", `rel:"t"`)
		dir = true
	case 5: // two relations
		s.add(name, vpWide(), `rel:"t"`).add("Second", vpWide(), `rel:"v"`)
	}
	want := QueryKind(0)
	low := tolower(name)
	switch {
	case low == "count" && tint:
		want = QueryKindSelectCount
	case low == "exists" && tbool:
		want = QueryKindSelectExists
	case low == "notexists" && tbool:
		want = QueryKindSelectNotExists
	}
	ok := len(s.fields) == 1 && (trec && (name != "_" || kind == "DeleteT") || want != 0 && kind == "SelectT" || dir && kind == "DeleteT")
	info, err := vpRun(kind, s)
	if err != nil {
		vpAssert(!ok, "a relation field is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "an illegal relation field is accepted")
	q := info.Struct.(*QueryStruct)
	if want == 0 {
		switch kind {
		case "InsertT":
			want = QueryKindInsert
		case "UpdateT":
			want = QueryKindUpdate
		case "DeleteT":
			want = QueryKindDelete
		case "SelectT":
			want = QueryKindSelect
		}
	}
	vpAssert(q.Kind == want, "wrong kind of query")
	vpAssert(q.Rel.IsDirective == dir, "wrong relation field")
	vpAssert(vpAnd(q.Rel.FieldName == name, q.Rel.Id.Name == "t"), "wrong relation field")
	vpReach("accepted")
}

// Filter types: one relation, one constructor, at most one text-search column.
func VP_A06_Filter() {
	n := 1 + vpChoose(vpBound("fields of a filter type", 3, 4))
	s := vpStruct()
	rel, ctor, ts, bad, v2 := 0, 0, 0, false, false
	col := ""
	for i := 0; i < n; i++ {
		switch vpChoose(6) {
		case 0:
			s.add([]string{"Rel", "Rel2", "Rel3", "Rel4"}[rel], vpWide(), `rel:"t:u"`)
			rel++
		case 1:
			s.add("FC"+vpNames[i], vpFilterIface(), "")
			ctor++
		case 2:
			s.add("FC"+vpNames[i], vpFilterIface(), `filter:"v2"`)
			ctor++
			v2 = true
		case 3:
			if rel == 0 {
				col = "Doc"
			} else {
				col = "u.Doc"
			}
			s.dir("TextSearch", vpTag("sql", " "+col))
			ts++
		case 4:
			s.dir([]string{"OrderBy", "Limit", "Column"}[vpChoose(3)], `sql:"1"`)
			bad = true
		case 5:
			s.add("X"+vpNames[i], vpBasic(types.Int), "")
		}
	}
	info, err := vpRun("FilterT", s)
	ok := rel == 1 && ctor == 1 && ts <= 1 && !bad
	if err != nil {
		vpAssert(!ok, "a filter type is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed filter type is accepted")
	f := info.Struct.(*FilterStruct)
	vpAssert(vpAnd(f.Rel.FieldName == "Rel", f.Rel.Id.Name == "t", f.Rel.Id.Alias == "u"), "wrong relation of a filter")
	vpAssert(f.FilterConstructor.IsV2 == v2, "wrong filter constructor")
	vpAssert((f.TextSearch != nil) == (ts == 1), "wrong text search")
	if ts == 1 {
		vpAssert(f.TextSearch.Name == "Doc", "wrong text search column")
	}
	vpReach("accepted")
}

// Fields recognised by their type keep what the type says, through aliases too.
func VP_A06_FieldTypes() {
	ks := []struct {
		k types.BasicKind
		t TypeKind
	}{{types.Int, TypeKindInt}, {types.Int8, TypeKindInt8}, {types.Int16, TypeKindInt16}, {types.Int32, TypeKindInt32}, {types.Int64, TypeKindInt64},
		{types.Uint, TypeKindUint}, {types.Uint8, TypeKindUint8}, {types.Uint16, TypeKindUint16}, {types.Uint32, TypeKindUint32}, {types.Uint64, TypeKindUint64},
		{types.String, 0}, {types.Bool, 0}}
	k := ks[vpChoose(len(ks))]
	alias := vpBool()
	as := func(t types.Type) types.Type {
		if alias {
			return types.NewAlias(types.NewTypeName(0, vpPkg, "Alias", nil), t)
		}
		return t
	}
	eh := as(vpHandler("HandleError", types.Universe.Lookup("error").Type()))
	ctx := as(vpContext)
	flt := as(vpNamed(vpGosql, "Filter", types.NewStruct(nil, nil)))
	isInt := k.t != 0
	switch vpChoose(3) {
	case 0:
		info, err := vpRun("DeleteT", vpQ(nil).add("RowsAffected", as(vpBasic(k.k)), "").add("E", eh, "").add("C", ctx, "").add("F", flt, ""))
		vpAssert((err == nil) == isInt, "a rows affected field is accepted or rejected wrongly")
		if err == nil {
			q := info.Struct.(*QueryStruct)
			vpAssert(q.RowsAffected.TypeKind == k.t, "wrong type of the rows affected field")
			vpAssert(q.ErrorHandler != nil && q.Context != nil && q.Filter != nil, "a handler, context or filter is missed")
		}
	case 1:
		info, err := vpRun("SelectT", vpQ(nil).add("Limit", as(vpBasic(k.k)), "").add("Offset", as(vpBasic(k.k)), ""))
		vpAssert((err == nil) == isInt, "a limit field is accepted or rejected wrongly")
		if err == nil {
			q := info.Struct.(*QueryStruct)
			vpAssert(q.Limit != nil && q.Offset != nil, "a limit or offset is missed")
		}
	case 2:
		name := "Count"
		ok := isInt
		if vpBool() {
			name, ok = "Exists", k.k == types.Bool
		}
		_, err := vpRun("SelectT", vpStruct().add(name, as(vpBasic(k.k)), `rel:"t"`))
		vpAssert((err == nil) == ok, "a count or exists field is accepted or rejected wrongly")
	}
	vpReach("checked")
}
