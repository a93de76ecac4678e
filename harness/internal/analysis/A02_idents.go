package analysis

func vpRelCase(tag string) {
	name := "SelectUser"
	switch vpChoose(4) {
	case 1:
		name = "InsertUser"
	case 2:
		name = "DeleteUser"
	case 3:
		name = "updateuser"
	}
	info, err := vpRun(name, vpStruct().add("User", vpUser(), vpTag("rel", tag)))
	schema, rest, q := vpSplit(tag, '.')
	if !q {
		schema, rest = "", tag
	}
	rel, alias, al := vpSplit(rest, ':')
	ok := vpAnd(vpIdentOK(rel), vpOr(!q, vpIdentOK(schema)), vpOr(!al, vpIdentOK(alias)))
	if err != nil {
		vpAssert(!ok, "a well formed relation identifier is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed relation identifier is accepted")
	id := info.Struct.(*QueryStruct).Rel.Id
	vpAssert(id.Qualifier == schema, "wrong schema of a relation")
	vpAssert(id.Name == rel, "wrong relation name")
	vpAssert(id.Alias == alias, "wrong relation alias")
	vpReach("accepted")
}

// Every relation tag of printable ASCII characters.
func VP_A02_Rel() {
	tag := vpASCII(vpChoose(vpBound("relation tag characters", 8, 12) + 1))
	for i := 0; i < len(tag); i++ {
		vpAssume(tag[i] != ',') // starts a tag option
	}
	vpRelCase(tag)
}

// Every relation tag of arbitrary bytes.
func VP_A02_RelBytes() {
	n := vpChoose(vpBound("relation tag bytes", 3, 4) + 1)
	tag := vpString(n)
	for i := 0; i < n; i++ {
		vpAssume(vpAnd(tag[i] != '"', tag[i] != '\\', tag[i] != ',', tag[i] != '\n'))
	}
	vpRelCase(tag)
}

// The relation of a filter.
func VP_A02_FilterRel() {
	tag := vpASCII(vpChoose(vpBound("filter relation tag characters", 5, 10) + 1))
	for i := 0; i < len(tag); i++ {
		vpAssume(tag[i] != ',')
	}
	info, err := vpRun("FilterUser", vpStruct().add("_", vpUser(), vpTag("rel", tag)).add("FilterConstructor", vpFilterIface(), ""))
	schema, rest, q := vpSplit(tag, '.')
	if !q {
		schema, rest = "", tag
	}
	rel, alias, al := vpSplit(rest, ':')
	ok := vpAnd(vpIdentOK(rel), vpOr(!q, vpIdentOK(schema)), vpOr(!al, vpIdentOK(alias)))
	if err != nil {
		vpAssert(!ok, "a well formed relation identifier of a filter is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed relation identifier of a filter is accepted")
	id := info.Struct.(*FilterStruct).Rel.Id
	vpAssert(id.Qualifier == schema, "wrong schema of a filter's relation")
	vpAssert(id.Name == rel, "wrong relation name of a filter")
	vpAssert(id.Alias == alias, "wrong relation alias of a filter")
	vpReach("accepted")
}

// vpRelTag returns a relation tag and the one qualifier it makes known.
func vpRelTag() (tag, known string) {
	switch vpChoose(4) {
	case 1:
		return "u:a", "a"
	case 2:
		return "s.u", "u"
	case 3:
		return "s.u:ab", "ab"
	}
	return "u", "u"
}

// Lists of column identifiers: the Default directive of an insert.
func VP_A02_ColList() {
	rel, known := vpRelTag()
	tag := vpASCII(vpChoose(vpBound("column list characters", 6, 7) + 1))
	info, err := vpRun("InsertUser", vpStruct().add("User", vpUser(), vpTag("rel", rel)).dir("Default", vpTag("sql", tag)))
	star := tag == "*"
	if err != nil {
		vpAssert(!star, "the all-columns list is rejected")
		ok := true
		for _, e := range vpSplitAll(tag, ',') {
			c := vpColRef(e)
			ok = vpAnd(ok, c.ok, vpOr(!c.hasQual, c.qual == known))
		}
		vpAssert(!ok, "a well formed column list is rejected")
		vpReach("rejected")
		return
	}
	list := info.Struct.(*QueryStruct).Default.ColIdentList
	if star {
		vpAssert(vpAnd(list.All, len(list.Items) == 0), "the all-columns list is not recognised")
		vpReach("all")
		return
	}
	el := vpSplitAll(tag, ',')
	vpAssert(vpAnd(!list.All, len(list.Items) == len(el)), "wrong number of columns in a list")
	for i, e := range el {
		c := vpColRef(e)
		vpAssert(c.ok, "a malformed column list is accepted")
		vpAssert(vpOr(!c.hasQual, c.qual == known), "an unknown qualifier is accepted")
		vpAssert(list.Items[i].Qualifier == c.qual, "wrong qualifier of a listed column")
		vpAssert(list.Items[i].Name == c.name, "wrong name of a listed column")
	}
	vpReach("accepted")
}

// Reserved words are not columns, in any letter case, unless qualified.
func VP_A02_Reserved() {
	w := vpReserved[vpChoose(len(vpReserved))]
	s := vpASCII(len(w))
	for i := 0; i < len(w); i++ {
		vpAssume(vpOr(vpEqFold(s[i:i+1], w[i:i+1]), vpAnd(i == 0, s[i] == 'x')))
	}
	qual := vpBool()
	tag := s
	if qual {
		tag = "u." + s
	}
	info, err := vpRun("InsertUser", vpStruct().add("User", vpUser(), vpTag("rel", "u")).dir("Default", vpTag("sql", tag)))
	if err != nil {
		vpAssert(vpAnd(!qual, vpEqFold(s, w)), "a column identifier is rejected as reserved")
		vpReach("reserved")
		return
	}
	vpAssert(vpOr(qual, !vpEqFold(s, w)), "a reserved word is accepted as a column")
	vpAssert(info.Struct.(*QueryStruct).Default.Items[0].Name == s, "wrong column name")
	vpReach("column")
}

// The text-search column of a filter; blanks around it do not count.
func VP_A02_TextSearch() {
	rel, known := vpRelTag()
	tag := vpASCII(vpChoose(vpBound("text-search tag characters", 5, 7) + 1))
	for i := 0; i < len(tag); i++ {
		vpAssume(vpAnd(tag[i] != ',', tag[i] != ' '))
	}
	s := []string{"", " "}[vpChoose(2)] + tag + []string{"", " "}[vpChoose(2)]
	info, err := vpRun("FilterUser", vpStruct().add("_", vpUser(), vpTag("rel", rel)).dir("TextSearch", vpTag("sql", s)).add("FilterConstructor", vpFilterIface(), ""))
	c := vpColRef(tag)
	if err != nil {
		vpAssert(vpOr(!c.ok, vpAnd(c.hasQual, c.qual != known)), "a well formed text-search column is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(vpAnd(c.ok, vpOr(!c.hasQual, c.qual == known)), "a malformed text-search column is accepted")
	id := info.Struct.(*FilterStruct).TextSearch.ColIdent
	vpAssert(vpAnd(id.Name == c.name, id.Qualifier == c.qual), "wrong text-search column")
	vpReach("accepted")
}
