package analysis

import "go/types"

// vpItem is what one item of a where struct should be analysed to.
type vpItem struct {
	or    bool // connective before it
	kind  int  // 0 field, 1 column, 2 between, 3 nested
	name  string
	pred  Predicate
	xcol  bool // the lower bound of a between is a column
	ycol  bool
	items []vpItem
}

var vpBetweens = []struct {
	word string
	p    Predicate
}{{"isbetween", IsBetween}, {"notbetween", NotBetween}, {"isbetweensym", IsBetweenSym}, {"notbetweensym", NotBetweenSym}}


// vpWhere declares a where struct with n items, nesting at most depth deep, and
// says what to expect of it. ok becomes false when a declaration is illegal.
func vpWhere(n, depth int, rich bool, ok *bool) (*types.Struct, []vpItem) {
	s := vpStruct()
	var want []vpItem
	for i := 0; i < n; i++ {
		it := vpItem{name: vpNames[i]}
		bt := ""
		bad := false
		tags := 2
		if rich {
			tags = 4
		}
		switch vpChoose(tags) {
		case 1:
			bt, it.or = ` bool:"or"`, true
		case 2:
			bt = ` bool:" AND"`
		case 3:
			bt, bad = ` bool:"xor"`, true
		}
		// poor structs have a field, a skipped field and a nested struct
		kinds := []int{0, 1, 2, 3, 4, 5}
		if !rich {
			kinds = []int{0, 3 + i%3}
		}
		if depth > 0 {
			kinds = append(kinds, 6)
		}
		skip := false
		switch kinds[vpChoose(len(kinds))] {
		case 0:
			s.add(it.name, vpFieldType(0), vpTag("sql", "a >")+bt)
			it.pred = IsGT
		case 1:
			it.kind, it.pred = 1, NotNull
			s.dir("Column", vpTag("sql", "b notnull")+bt)
		case 2:
			it.kind = 2
			b, swap, long := vpBetweens[i%len(vpBetweens)], false, false
			if i == 0 && rich {
				b = vpBetweens[vpChoose(len(vpBetweens))]
				swap = vpBool()
				long = swap
				it.xcol, it.ycol = vpBool(), vpBool()
			}
			it.pred = b.p
			bs := vpStruct()
			bound := func(col bool, names []string) {
				p := names[0]
				if long {
					p = names[1]
				}
				if col {
					bs.dir("Column", vpTag("sql", "u."+names[0]+","+p))
				} else {
					bs.add("F"+names[0], vpFieldType(0), vpTag("sql", p))
				}
			}
			x, y := []string{"x", "lower"}, []string{"y", "upper"}
			if !swap {
				bound(it.xcol, x)
				bound(it.ycol, y)
			} else {
				bound(it.ycol, y)
				bound(it.xcol, x)
			}
			s.add(it.name, bs.typ(), vpTag("sql", "c "+b.word)+bt)
		case 3:
			skip = true
			s.add(it.name, vpFieldType(0), bt)
		case 4:
			skip = true
			s.add(it.name, vpFieldType(0), vpTag("sql", "-")+bt)
		case 5: // blank, but neither a column condition nor nested
			skip = true
			if i == 0 && rich && vpBool() {
				s.dir("Relation", vpTag("sql", "a")+bt)
			} else {
				s.add("_", vpFieldType(0), vpTag("sql", "a")+bt)
			}
		case 6:
			it.kind = 3
			n2 := 1
			if depth <= 2 {
				n2 += vpChoose(2)
			}
			var t *types.Struct
			t, it.items = vpWhere(n2, depth-1, false, ok)
			var ft types.Type = t
			if i == 0 && rich && vpBool() {
				ft = vpNamed(vpPkg, "Nested", t)
			}
			s.add(it.name, ft, vpTag("sql", ">")+bt)
		}
		if skip {
			continue
		}
		if it.kind == 3 && len(it.items) == 0 {
			*ok = false // nothing to put between the parentheses
		}
		if bad && len(want) > 0 {
			*ok = false
		}
		want = append(want, it)
	}
	return s.typ(), want
}

func vpCheckWhere(items []WhereItem, want []vpItem) {
	n := 2*len(want) - 1
	if len(want) == 0 {
		n = 0
	}
	vpAssert(len(items) == n, "wrong number of conditions")
	for i, w := range want {
		if i > 0 {
			b, is := items[2*i-1].(*WhereBoolTag)
			vpAssert(is, "a connective is missing")
			op := BoolAnd
			if w.or {
				op = BoolOr
			}
			vpAssert(b.Value == op, "wrong connective")
		}
		switch w.kind {
		case 0:
			f, is := items[2*i].(*WhereStructField)
			vpAssert(is, "a field condition is missing")
			vpAssert(vpAnd(f.Name == w.name, f.Predicate == w.pred, f.ColIdent.Name == "a"), "wrong field condition")
		case 1:
			f, is := items[2*i].(*WhereColumnDirective)
			vpAssert(is, "a column condition is missing")
			vpAssert(vpAnd(f.LHSColIdent.Name == "b", f.Predicate == w.pred), "wrong column condition")
		case 2:
			f, is := items[2*i].(*WhereBetweenStruct)
			vpAssert(is, "a between condition is missing")
			vpAssert(vpAnd(f.FieldName == w.name, f.Predicate == w.pred, f.ColIdent.Name == "c"), "wrong between condition")
			bound := func(b RangeBound, col bool, name string) {
				if col {
					c, is := b.(*BetweenColumnDirective)
					vpAssert(is, "a bound of a between condition is not the column")
					vpAssert(vpAnd(c.ColIdent.Qualifier == "u", c.ColIdent.Name == name), "wrong bound column")
				} else {
					c, is := b.(*BetweenStructField)
					vpAssert(is, "a bound of a between condition is not the field")
					vpAssert(vpAnd(c.Name == "F"+name, c.Type.Kind == TypeKindInt), "wrong bound field")
				}
			}
			bound(f.LowerBound, w.xcol, "x")
			bound(f.UpperBound, w.ycol, "y")
		case 3:
			f, is := items[2*i].(*WhereStruct)
			vpAssert(is, "a nested condition is missing")
			vpAssert(f.FieldName == w.name, "wrong nested condition")
			vpCheckWhere(f.Items, w.items)
		}
	}
}

// Every tree of conditions.
func VP_A05_Where() {
	ok := true
	q := vpChoose(3)
	kind, name := []string{"SelectUser", "UpdateUser", "DeleteUser"}[q], []string{"Where", "WHERE", "where"}[q]
	var t *types.Struct
	var want []vpItem
	if vpBool() {
		t, want = vpWhere(1+vpChoose(vpBound("conditions in one struct", 2, 3)), 0, true, &ok)
	} else {
		d := 1 + vpChoose(vpBound("levels of nesting", 2, 3))
		n := 1
		if d == 1 {
			n += vpChoose(2)
		}
		t, want = vpWhere(n, d, false, &ok)
	}
	info, err := vpRun(kind, vpStruct().add("User", vpUser(), `rel:"t:u"`).add(name, t, ""))
	if err != nil {
		vpAssert(!ok, "a well formed condition is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed connective or an empty group is accepted")
	w := info.Struct.(*QueryStruct).Where
	vpAssert(w.FieldName == name, "wrong where field")
	vpCheckWhere(w.Items, want)
	vpReach("tree")
}

// A long list of plain conditions: the connectives are exactly those named.
func VP_A05_Connectives() {
	n := 1 + vpChoose(vpBound("conditions in a list", 4, 6))
	s := vpStruct()
	or := make([]bool, n)
	for i := range or {
		switch vpChoose(3) {
		case 0:
			s.dir("Column", `sql:"a"`)
		case 1:
			or[i] = true
			s.dir("Column", `sql:"a" bool:"OR"`)
		case 2:
			s.dir("Column", `sql:"a" bool:"and"`)
		}
	}
	info, err := vpRun("DeleteUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).add("Where", s.typ(), ""))
	vpAssert(err == nil, "a list of conditions is rejected")
	items := info.Struct.(*QueryStruct).Where.Items
	vpAssert(len(items) == 2*n-1, "wrong number of conditions")
	for i := 1; i < n; i++ {
		b := items[2*i-1].(*WhereBoolTag)
		vpAssert((b.Value == BoolOr) == or[i], "wrong connective")
		vpAssert((b.Value == BoolAnd) == !or[i], "wrong connective")
	}
	vpReach("list")
}

// The text of a connective.
func VP_A05_BoolTag() {
	v := vpASCII(vpChoose(vpBound("characters of a bool tag", 4, 5) + 1))
	info, err := vpRun("SelectUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).
		add("Where", vpStruct().dir("Column", `sql:"a"`).dir("Column", `sql:"b" `+vpTag("bool", v)).typ(), ""))
	val, _, _ := vpSplit(v, ',')
	val = vpTrim(val)
	and, or := val == "" || vpEqFold(val, "and"), vpEqFold(val, "or")
	if err != nil {
		vpAssert(vpAnd(!and, !or), "a connective is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(vpOr(and, or), "something that is no connective is accepted")
	b := info.Struct.(*QueryStruct).Where.Items[1].(*WhereBoolTag)
	vpAssert((b.Value == BoolOr) == or, "wrong connective")
	vpAssert((b.Value == BoolAnd) == and, "wrong connective")
	vpReach("accepted")
}

// The bounds of a between condition are told apart by their tags.
func VP_A05_Bounds() {
	n := 1 + vpChoose(3)
	bs := vpStruct()
	x, y := -1, -1
	lab := make([]string, n)
	for i := 0; i < n; i++ {
		lab[i] = vpASCII(1)
		if vpBool() {
			lab[i] = []string{"lower", "UPPER", "low", "Lower"}[vpChoose(4)]
		}
		vpAssume(lab[i] != ",")
		bs.add(vpNames[i], vpFieldType(0), vpTag("sql", lab[i]))
		low, up := vpEqFold(lab[i], "x"), vpEqFold(lab[i], "y")
		if len(lab[i]) > 1 {
			low, up = vpEqFold(lab[i], "lower"), vpEqFold(lab[i], "upper")
		}
		if low {
			x = i
		} else if up {
			y = i
		}
	}
	info, err := vpRun("SelectUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).
		add("Where", vpStruct().add("F", bs.typ(), `sql:"a isbetween"`).typ(), ""))
	ok := n == 2 && x >= 0 && y >= 0
	if err != nil {
		vpAssert(!ok, "a between condition is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a between condition without its bounds is accepted")
	b := info.Struct.(*QueryStruct).Where.Items[0].(*WhereBetweenStruct)
	vpAssert(b.LowerBound.(*BetweenStructField).Name == vpNames[x], "wrong lower bound")
	vpAssert(b.UpperBound.(*BetweenStructField).Name == vpNames[y], "wrong upper bound")
	vpReach("between")
}

var vpJoins = []struct {
	name string
	t    JoinType
}{{"LeftJoin", JoinTypeLeft}, {"RightJoin", JoinTypeRight}, {"FullJoin", JoinTypeFull}, {"CrossJoin", JoinTypeCross}, {"InnerJoin", JoinTypeInner}}

// Every list of joins with their conditions.
func VP_A05_Join() {
	kind, name := "SelectUser", "Join"
	switch vpChoose(4) {
	case 1:
		kind, name = "UpdateUser", "FROM"
	case 2:
		kind, name = "DeleteUser", "using"
	case 3:
		kind, name = []string{"SelectUser", "UpdateUser", "DeleteUser", "InsertUser"}[vpChoose(4)], []string{"Join", "From", "Using"}[vpChoose(3)]
	}
	legal := kind == "SelectUser" && name == "Join" ||
		kind == "UpdateUser" && (name == "From" || name == "FROM") || kind == "DeleteUser" && (name == "Using" || name == "using")
	ok := legal
	s := vpStruct()
	withRel := vpBool()
	if withRel {
		s.dir("Relation", `sql:"s.base:b"`)
	}
	ok = ok && withRel == (name != "Join")
	type join struct {
		t    JoinType
		rel  string
		al   string
		cond []string
		or   []bool
	}
	var want []join
	n := vpChoose(3)
	known := []string{"u"}
	if withRel {
		known = append(known, "b")
	}
	for i := 0; i < n; i++ {
		jt := vpJoins[i]
		if n == 1 {
			jt = vpJoins[vpChoose(len(vpJoins))]
		}
		j := join{t: jt.t, rel: "j" + vpNames[i]}
		tag := j.rel
		switch vpChoose(3) {
		case 1:
			j.al = "r" + vpNames[i]
			tag += ":" + j.al
		case 2:
			if i > 0 {
				j.al = want[0].al
				if j.al == "" {
					vpSkip()
				}
				tag += ":" + j.al
				ok = false // the alias is taken
			} else {
				tag, j.rel, j.al = "t:u", "t", "u"
				ok = false
			}
		}
		q := j.rel
		if j.al != "" {
			q = j.al
		}
		nc := vpChoose(4)
		if n > 1 {
			nc = vpChoose(2)
		}
		for k := 0; k < nc; k++ {
			col := string(rune('a' + k))
			sep := ","
			if k > 0 && vpBool() {
				sep = ";"
			}
			tag += sep + q + "." + col + " = " + known[0] + "." + col
			j.cond = append(j.cond, col)
			j.or = append(j.or, sep == ";")
		}
		s.dir(jt.name, vpTag("sql", tag))
		want = append(want, j)
	}
	info, err := vpRun(kind, vpStruct().add("User", vpUser(), `rel:"t:u"`).add(name, s.typ(), ""))
	if err != nil {
		vpAssert(!ok, "a well formed join is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "an illegal join is accepted")
	j := info.Struct.(*QueryStruct).Join
	vpAssert(j.FieldName == name, "wrong join field")
	vpAssert((j.Relation != nil) == withRel, "wrong base relation")
	if withRel {
		r := j.Relation.RelIdent
		vpAssert(vpAnd(r.Qualifier == "s", r.Name == "base", r.Alias == "b"), "wrong base relation")
	}
	vpAssert(len(j.Directives) == len(want), "wrong number of joins")
	for i, w := range want {
		d := j.Directives[i]
		vpAssert(d.JoinType == w.t, "wrong join type")
		vpAssert(vpAnd(d.RelIdent.Name == w.rel, d.RelIdent.Alias == w.al), "wrong joined relation")
		m := 2*len(w.cond) - 1
		if len(w.cond) == 0 {
			m = 0
		}
		vpAssert(len(d.TagItems) == m, "wrong number of join conditions")
		for k, c := range w.cond {
			if k > 0 {
				b, is := d.TagItems[2*k-1].(*JoinBoolTagItem)
				vpAssert(is, "a join connective is missing")
				vpAssert((b.Value == BoolOr) == w.or[k], "wrong join connective")
				vpAssert((b.Value == BoolAnd) == !w.or[k], "wrong join connective")
			}
			t, is := d.TagItems[2*k].(*JoinConditionTagItem)
			vpAssert(is, "a join condition is missing")
			vpAssert(vpAnd(t.LHSColIdent.Name == c, t.RHSColIdent.Name == c, t.RHSColIdent.Qualifier == "u", t.Predicate == IsEQ), "wrong join condition")
		}
	}
	vpReach("join")
}

// A condition that is malformed, wherever it stands in the tag, makes the join illegal.
func VP_A05_JoinMalformed() {
	good := func() string {
		return []string{"j.a = u.b", "j.a isnull", "j.a", "j.a > 5", "a <> u.b"}[vpChoose(5)]
	}
	bad := []string{"", " ", "= u.b", "j.a =", "j. = u.b", "j.a isnull u.b", "u.a = j.a", "j.a any u.b",
		"j.a-b = u.b", "k.a = u.b", "j.a = k.b", "j.a isnull any"}
	pos := vpChoose(3)
	n := pos + 1 + vpChoose(2)
	if n > 3 {
		n = 3
	}
	tag := "j"
	for i := 0; i < n; i++ {
		sep := ","
		if i > 0 && vpBool() {
			sep = ";"
		}
		if i == pos {
			tag += sep + bad[vpChoose(len(bad))]
		} else {
			tag += sep + good()
		}
	}
	vpObs("tag", tag)
	s := vpStruct()
	s.dir("LeftJoin", vpTag("sql", tag))
	_, err := vpRun("SelectUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).add("Join", s.typ(), ""))
	vpAssert(err != nil, "a malformed join condition is accepted")
	vpReach("rejected")
}
