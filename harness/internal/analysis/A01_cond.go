package analysis

// The documented form of a condition is
//     column [ predicate [ quantifier ] [ column | literal ] ]
// with predicates = <> != < > <= >= ~ ~* !~ !~* or one of the words below.

type vpPredWord struct {
	word string
	p    Predicate
}

var vpWords = []vpPredWord{
	{"isdistinct", IsDistinct}, {"notdistinct", NotDistinct},
	{"islike", IsLike}, {"notlike", NotLike}, {"isilike", IsILike}, {"notilike", NotILike},
	{"issimilar", IsSimilar}, {"notsimilar", NotSimilar},
	{"isin", IsIn}, {"notin", NotIn},
	{"isbetween", IsBetween}, {"notbetween", NotBetween}, {"isbetweensym", IsBetweenSym}, {"notbetweensym", NotBetweenSym},
	{"isnull", IsNull}, {"notnull", NotNull}, {"istrue", IsTrue}, {"nottrue", NotTrue},
	{"isfalse", IsFalse}, {"notfalse", NotFalse}, {"isunknown", IsUnknown}, {"notunknown", NotUnknown},
}

// vpC is a condition taken apart.
type vpC struct {
	lhs string
	op  Predicate // 0: none written
	qua Quantifier
	rhs string
}

// vpWordAt reports whether s begins with the word w, in any letter case,
// ending at a space or at the end.
func vpWordAt(s, w string) bool {
	if len(s) < len(w) {
		return false
	}
	ok := vpEqFold(s[:len(w)], w)
	if len(s) > len(w) {
		ok = vpAnd(ok, s[len(w)] == ' ')
	}
	return ok
}

func vpSym(s string) (Predicate, int) {
	at := func(i int, c byte) bool { return i < len(s) && s[i] == c }
	switch {
	case at(0, '='):
		return IsEQ, 1
	case at(0, '!') && at(1, '='):
		return NotEQ2, 2
	case at(0, '!') && at(1, '~'):
		if at(2, '*') {
			return NotMatchi, 3
		}
		return NotMatch, 2
	case at(0, '<'):
		if at(1, '>') {
			return NotEQ, 2
		}
		if at(1, '=') {
			return IsLTE, 2
		}
		return IsLT, 1
	case at(0, '>'):
		if at(1, '=') {
			return IsGTE, 2
		}
		return IsGT, 1
	case at(0, '~'):
		if at(1, '*') {
			return IsMatchi, 2
		}
		return IsMatch, 1
	}
	return 0, 0
}

func vpCondRef(e string) vpC {
	e = vpTrim(e)
	c := vpC{lhs: e}
	for i := 0; i < len(e); i++ {
		p, n := vpSym(e[i:])
		if p == 0 && e[i] == ' ' {
			for _, w := range vpWords {
				if vpWordAt(e[i+1:], w.word) {
					p, n = w.p, 1+len(w.word)
				}
			}
		}
		if p == 0 {
			continue
		}
		c.lhs, c.op, c.rhs = vpTrim(e[:i]), p, vpTrim(e[i+n:])
		break
	}
	if c.op != 0 {
		switch {
		case vpWordAt(c.rhs, "any"):
			c.qua, c.rhs = QuantAny, vpTrim(c.rhs[3:])
		case vpWordAt(c.rhs, "all"):
			c.qua, c.rhs = QuantAll, vpTrim(c.rhs[3:])
		case vpWordAt(c.rhs, "some"):
			c.qua, c.rhs = QuantSome, vpTrim(c.rhs[4:])
		}
	}
	return c
}

func vpUnary(p Predicate) bool { return p >= IsNull && p <= NotUnknown && p != 0 }
func vpRange(p Predicate) bool { return p >= IsBetween && p <= NotBetweenAsym }
// vpQuantifiable: PostgreSQL's grammar takes ANY, SOME and ALL behind operators
// and LIKE, not behind IS [NOT] DISTINCT FROM or [NOT] SIMILAR TO.
func vpQuantifiable(p Predicate) bool {
	switch p {
	case IsEQ, NotEQ, NotEQ2, IsLT, IsGT, IsLTE, IsGTE, IsMatch, IsMatchi, NotMatch, NotMatchi, IsLike, NotLike, IsILike, NotILike:
		return true
	}
	return false
}

// vpCheckColumnCond checks one condition between columns or a column and a
// literal, as given to a gosql.Column directive or a join directive.
func vpCheckColumnCond(expr string, known string, failed bool, get func() (ColIdent, ColIdent, string, Predicate, Quantifier)) {
	vpCheckJoinCond(expr, known, known, failed, get)
}

// vpCheckJoinCond: the left operand belongs to the relation known, the right
// one to that or to the relation other.
func vpCheckJoinCond(expr, known, other string, failed bool, get func() (ColIdent, ColIdent, string, Predicate, Quantifier)) {
	c := vpCondRef(expr)
	l := vpColRef(c.lhs)
	ok := vpAnd(l.ok, vpOr(!l.hasQual, l.qual == known))
	if c.op != 0 && vpRange(c.op) {
		ok = false // these take two operands
	}
	var r vpCid
	if len(c.rhs) > 0 {
		r = vpColRef(c.rhs)
		ok = vpAnd(ok, !vpUnary(c.op), vpOr(c.qua == 0, vpQuantifiable(c.op)))
		ok = vpAnd(ok, vpOr(!r.ok, !r.hasQual, r.qual == known, r.qual == other))
	} else {
		ok = vpAnd(ok, vpOr(c.op == 0, vpUnary(c.op)), c.qua == 0)
	}
	if failed {
		vpAssert(!ok, "a well formed condition is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed condition is accepted")
	lid, rid, lit, p, q := get()
	vpAssert(vpAnd(lid.Qualifier == l.qual, lid.Name == l.name), "wrong left operand")
	if len(c.rhs) == 0 {
		want := c.op
		if want == 0 {
			want = IsTrue
		}
		vpAssert(p == want, "wrong unary predicate")
		vpAssert(vpAnd(q == 0, rid.Name == "", rid.Qualifier == "", lit == ""), "a unary condition has a right operand")
		vpReach("unary")
		return
	}
	vpAssert(p == c.op, "wrong predicate")
	vpAssert(q == c.qua, "wrong quantifier")
	if r.ok {
		vpAssert(vpAnd(rid.Qualifier == r.qual, rid.Name == r.name, lit == ""), "wrong right column")
		vpReach("column")
	} else {
		vpAssert(vpAnd(rid.Name == "", rid.Qualifier == "", lit == c.rhs), "wrong literal")
		vpReach("literal")
	}
}

func vpWhereColumn(expr string) {
	info, err := vpRun("SelectUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).
		add("Where", vpStruct().dir("Column", vpTag("sql", expr)).typ(), ""))
	vpCheckColumnCond(expr, "u", err != nil, func() (ColIdent, ColIdent, string, Predicate, Quantifier) {
		items := info.Struct.(*QueryStruct).Where.Items
		vpAssert(len(items) == 1, "wrong number of conditions")
		d, ok := items[0].(*WhereColumnDirective)
		vpAssert(ok, "wrong kind of condition")
		return d.LHSColIdent, d.RHSColIdent, d.RHSLiteral, d.Predicate, d.Quantifier
	})
}

// vpCondText is text that stays within one element of the tag and is neither
// of the two values with a meaning of their own.
func vpCondText(s string) {
	for i := 0; i < len(s); i++ {
		vpAssume(vpAnd(s[i] != ',', s[i] != ';'))
	}
	vpAssume(vpAnd(s != "", s != "-", s != ">"))
}

// Any short text as the condition of a Column directive.
func VP_A01_Short() {
	s := vpASCII(vpChoose(vpBound("condition characters", 4, 5)) + 1)
	vpCondText(s)
	vpWhereColumn(s)
}

// Every operator after a column, with any text around and behind it.
func VP_A01_Symbols() {
	lhs := vpASCII(1)
	mid := vpASCII(vpBound("characters of the operator", 3, 4))
	rhs := vpASCII(vpChoose(3))
	s := lhs + mid + rhs
	vpCondText(s)
	vpAssume(vpWord0(s[0]))
	op := vpOr(s[1] == '=', s[1] == '!', s[1] == '<', s[1] == '>', s[1] == '~')
	vpAssume(vpOr(op, vpAnd(s[1] == ' ', vpOr(s[2] == '=', s[2] == '!', s[2] == '<', s[2] == '>', s[2] == '~'))))
	vpWhereColumn(s)
}

// vpCased spells the word w with every letter in either case.
func vpCased(w string) string {
	s := vpASCII(len(w))
	vpAssume(vpEqFold(s, w))
	return s
}

func vpSpaces() string {
	if vpBool() {
		return "  "
	}
	return " "
}

// Every predicate word in every letter case, every quantifier and short right
// operands; the character behind the words is arbitrary.
func VP_A01_Words() {
	w := vpWords[vpChoose(len(vpWords))]
	s := "a" + vpSpaces() + vpCased(w.word)
	switch vpChoose(5) {
	case 1:
		s += vpASCII(1)
	case 2:
		s += vpASCII(2)
	case 3:
		s += " " + vpCased([]string{"any", "all", "some"}[vpChoose(3)]) + vpASCII(vpChoose(3))
	case 4:
		s += " " + vpASCII(vpChoose(3)+1)
	}
	vpCondText(s)
	vpWhereColumn(s)
}

// Words that differ from a predicate word in one character.
func VP_A01_NearWords() {
	w := vpWords[vpChoose(len(vpWords))].word
	i := vpChoose(len(w))
	s := "a " + w[:i] + vpASCII(1) + w[i+1:]
	if vpBool() {
		s += " b"
	}
	vpCondText(s)
	vpWhereColumn(s)
}

// Quantifiers behind a symbolic operator, with qualified columns.
func VP_A01_Quantified() {
	ops := []string{"=", "<>", "!=", "<", ">", "<=", ">=", "~", "~*", "!~", "!~*"}
	s := []string{"a", "u.a", "x.a"}[vpChoose(3)]
	if vpBool() {
		s += " "
	}
	s += ops[vpChoose(len(ops))]
	if vpBool() {
		s += " "
	}
	switch vpChoose(3) {
	case 0:
		s += vpCased([]string{"any", "all", "some"}[vpChoose(3)]) + vpASCII(vpChoose(4))
	case 1:
		s += []string{"u.", "x."}[vpChoose(2)] + vpASCII(2)
	case 2:
		s += vpASCII(vpBound("right operand characters behind an operator", 3, 4))
	}
	vpCondText(s)
	vpWhereColumn(s)
}

// vpFieldCond checks the condition of a plain field of a where struct.
func vpFieldCond(expr string) {
	types := []string{"int", "slice", "array"}
	ti := vpChoose(len(types))
	info, err := vpRun("DeleteUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).
		add("Where", vpStruct().add("F", vpFieldType(ti), vpTag("sql", expr)).typ(), ""))
	c := vpCondRef(expr)
	if len(c.rhs) > 0 {
		vpSkip() // a field is itself the right operand
	}
	l := vpColRef(c.lhs)
	ok := vpAnd(l.ok, vpOr(!l.hasQual, l.qual == "u"), vpOr(c.op == 0, !vpUnary(c.op)))
	list := c.op == IsIn || c.op == NotIn
	ok = vpAnd(ok, vpOr(c.qua == 0, vpAnd(vpQuantifiable(c.op), ti > 0)), vpOr(!list, ti > 0))
	if c.op != 0 && vpRange(c.op) {
		ok = false // needs a struct of two bounds: see A05
	}
	if err != nil {
		vpAssert(!ok, "a well formed condition on a field is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed condition on a field is accepted")
	items := info.Struct.(*QueryStruct).Where.Items
	vpAssert(len(items) == 1, "wrong number of conditions")
	f, isf := items[0].(*WhereStructField)
	vpAssert(isf, "wrong kind of condition")
	want := c.op
	if want == 0 {
		want = IsEQ
	}
	vpAssert(f.Name == "F", "wrong field")
	vpAssert(vpAnd(f.ColIdent.Qualifier == l.qual, f.ColIdent.Name == l.name), "wrong column of a field")
	vpAssert(f.Predicate == want, "wrong predicate of a field")
	vpAssert(f.Quantifier == c.qua, "wrong quantifier of a field")
	vpReach("accepted")
}

func VP_A01_FieldShort() {
	s := vpASCII(vpChoose(vpBound("field condition characters", 4, 5)) + 1)
	vpCondText(s)
	vpFieldCond(s)
}

func VP_A01_FieldWords() {
	s := []string{"a", "u.a", "x.a"}[vpChoose(3)] + " "
	if k := vpChoose(len(vpWords) + 3); k < len(vpWords) {
		s += vpCased(vpWords[k].word)
	} else {
		s += []string{"=", "!~*", "<="}[k-len(vpWords)]
	}
	switch vpChoose(3) {
	case 1:
		s += " " + vpCased([]string{"any", "all", "some"}[vpChoose(3)])
	case 2:
		s += vpASCII(2)
	}
	vpCondText(s)
	vpFieldCond(s)
}

// The function modifier of a field.
func VP_A01_FuncName() {
	opt1, opt2 := vpASCII(vpChoose(4)), vpASCII(vpChoose(3))
	for i := 0; i < len(opt1); i++ {
		vpAssume(opt1[i] != ',')
	}
	for i := 0; i < len(opt2); i++ {
		vpAssume(opt2[i] != ',')
	}
	info, err := vpRun("SelectUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).
		add("Where", vpStruct().add("F", vpFieldType(0), vpTag("sql", "a,"+opt1+","+opt2)).typ(), ""))
	vpAssert(err == nil, "options of a condition are rejected")
	f := info.Struct.(*QueryStruct).Where.Items[0].(*WhereStructField)
	want := ""
	if len(opt1) > 0 && opt1[0] == '@' {
		want = opt1[1:]
	} else if len(opt2) > 0 && opt2[0] == '@' {
		want = opt2[1:]
	}
	vpAssert(len(f.FuncName) == len(want), "wrong function modifier")
	for i := 0; i < len(want); i++ {
		c := want[i]
		low := vpIteByte(vpAnd(c >= 'A', c <= 'Z'), c+32, c)
		vpAssert(f.FuncName[i] == low, "wrong character of a function modifier")
	}
	vpReach("options")
}

// Text outside ASCII never makes the analysis panic.
func VP_A01_Bytes() {
	n := vpChoose(vpBound("arbitrary condition bytes", 3, 4)) + 1
	s := vpString(n)
	for i := 0; i < n; i++ {
		vpAssume(vpAnd(s[i] != '"', s[i] != '\\', s[i] != '\n', s[i] != ','))
	}
	tail := []string{"", " isnull", " b"}[vpChoose(3)]
	if vpPanics(func() {
		vpRun("SelectUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).
			add("Where", vpStruct().dir("Column", vpTag("sql", s+tail)).typ(), ""))
	}) {
		vpAssert(false, "a condition makes the analysis panic")
	}
	vpReach("ran")
}

// The conditions of a join, between the joined relation and the others.
func VP_A01_Join() {
	ops := []string{"=", "<>", " islike ", " notdistinct ", " isin ", " isnull", " any", "", " isbetween ", ">=all "}
	lhs := []string{"a", "r.a", "j.a", "u.a", "s.a"}[vpChoose(5)]
	alias := vpBool()
	jrel, known := "s.j", "j"
	if alias {
		jrel, known = "s.j:r", "r"
	}
	cond := lhs + ops[vpChoose(len(ops))] + vpASCII(vpChoose(vpBound("right operand characters of a join", 3, 4)))
	vpCondText(cond)
	info, err := vpRun("SelectUser", vpStruct().add("User", vpUser(), `rel:"t:u"`).
		add("Join", vpStruct().dir("LeftJoin", vpTag("sql", jrel+","+cond)).typ(), ""))
	vpCheckJoinCond(cond, known, "u", err != nil, func() (ColIdent, ColIdent, string, Predicate, Quantifier) {
		j := info.Struct.(*QueryStruct).Join
		vpAssert(len(j.Directives) == 1, "wrong number of joins")
		items := j.Directives[0].TagItems
		vpAssert(len(items) == 1, "wrong number of join conditions")
		d, ok := items[0].(*JoinConditionTagItem)
		vpAssert(ok, "wrong kind of join condition")
		return d.LHSColIdent, d.RHSColIdent, d.RHSLiteral, d.Predicate, d.Quantifier
	})
}
