package generator

//vp:export internal/postgres

// The clauses that follow the condition: the order, the limit and the offset.

// vpSelected is a kind of select: its relation field, its text up to the relation's
// clauses, what follows them, whether it is of rows and whether of a single one.
func vpSelected(kind int) (rel, head, tail string, ordered, single bool) {
	cols := `SELECT u."id", u."name", u."active" FROM "users" AS u `
	switch kind {
	case 0:
		return "Users []User `rel:\"users:u\"`", cols, "", true, false
	case 1:
		return "User *User `rel:\"users:u\"`", cols, "", true, true
	case 2:
		return "Exists bool `rel:\"users:u\"`", `SELECT EXISTS(SELECT 1 FROM "users" AS u `, ")", true, true
	case 3:
		return "NotExists bool `rel:\"users:u\"`", `SELECT NOT EXISTS(SELECT 1 FROM "users" AS u `, ")", true, true
	case 4:
		return "Each func(*User) error `rel:\"users:u\"`", cols, "", true, false
	}
	return "Count int `rel:\"users:u\"`", `SELECT COUNT(*) FROM "users" AS u `, "", false, false
}

// vpCondition is what stands before the clauses: nothing, a condition, a condition with a list, or a filter.
func vpCondition(kind int) (decl, sql string) {
	switch kind {
	case 1:
		return "Where struct { Name string `sql:\"u.name\"` }", `WHERE u."name" = {q.Where.Name} `
	case 2:
		return "Where struct { Id int `sql:\"u.id >\"`; Names []string `sql:\"u.name isin\"` }", `WHERE u."id" > {q.Where.Id} AND u."name" IN ({q.Where.Names[0]}, {q.Where.Names[1]}) `
	case 3:
		return "Filter gosql.Filter", "FILTER {filter1} "
	}
	return "", ""
}

func vpPageLens(path string) int {
	if path == "q.Where.Names" {
		return 2
	}
	return 0
}

func vpClauses(src, want string, zero func(string) bool) {
	p := vpGenerate(vpUsers(), vpUser+src, "SelectQ")
	rt := &vpRT{nrows: 1, slices: vpPageLens, filter: 1, zero: zero}
	p.exec(rt, "SelectQ")
	got := vpBoundSQL(rt.calls[0])
	vpObs("sent", got)
	vpObs("want", vpSQL(want))
	vpAssert(got == vpSQL(want), "the clauses of the query are not those declared")
}

// Order: any list of columns, in any direction, with nulls anywhere.
func VP_N09_Order() {
	rel, head, tail, _, single := vpSelected(vpChoose(5))
	where, cond := vpCondition(vpChoose(4))
	n := 1 + vpChoose(vpBound("columns ordered by", 2, 3))
	tag, sql := "", "ORDER BY "
	cols := []string{"id", "name", "ref"}
	for i := 0; i < n; i++ {
		if i > 0 {
			tag, sql = tag+",", sql+", "
		}
		col := "u." + cols[i]
		dir := " ASC"
		if vpBool() {
			tag, dir = tag+"-", " DESC"
		}
		tag, sql = tag+col, sql+`u."`+cols[i]+`"`+dir
		switch vpChoose(3) {
		case 0:
			sql += " NULLS LAST"
		case 1:
			tag, sql = tag+":nullslast", sql+" NULLS LAST"
		case 2:
			tag, sql = tag+":nullsfirst", sql+" NULLS FIRST"
		}
	}
	if single && where != "Filter gosql.Filter" {
		sql += " LIMIT 1"
	}
	vpClauses(vpQ("type SelectQ", rel, where, vpTagged("_ gosql.OrderBy", "sql", tag)), head+cond+sql+tail, func(string) bool { return true })
	vpReach("ordered")
}

// vpPage is a LIMIT or OFFSET, of any number: its declaration, the clause, and what the field holds.
func vpPage(name string) (decl, sql string, zero bool) {
	word := map[string]string{"Limit": " LIMIT ", "Offset": " OFFSET "}[name]
	kind := vpChoose(6)
	if kind == 0 {
		return "", "", false
	}
	a, b := vpByte(), vpByte()
	vpAssume(vpAnd(a >= '1', a <= '9', b >= '0', b <= '9'))
	num := string([]byte{a, b})
	if name == "Limit" && kind%2 == 1 && vpBool() {
		num = string([]byte{a})
	}
	switch kind {
	case 1:
		return vpTagged("_ gosql."+name, "sql", num), word + num, false
	case 2:
		return name + " int", word + "{q." + name + "}", false
	case 3:
		return vpTagged(name+" int", "sql", num), word + "{" + num + "}", true
	case 4:
		return name + " uint8", word + "{q." + name + "}", true
	}
	return vpTagged(name+" int", "sql", num), word + "{q." + name + "}", false
}

// Page: any limit and offset, given by a directive, a field, or a field with a default.
func VP_N09_Page() {
	rel, head, tail, ordered, single := vpSelected(vpChoose(6))
	where, cond := vpCondition(vpChoose(4))
	lim, limSQL, limZero := vpPage("Limit")
	off, offSQL, offZero := vpPage("Offset")
	order, sql := "", ""
	if ordered && cond != "" {
		order, sql = vpTagged("_ gosql.OrderBy", "sql", "-u.id"), `ORDER BY u."id" DESC NULLS LAST`
	}
	if lim == "" && single && where != "Filter gosql.Filter" {
		limSQL = " LIMIT 1"
	}
	vpClauses(vpQ("type SelectQ", rel, off, where, lim, order), head+cond+sql+limSQL+offSQL+tail, func(path string) bool {
		return path == "q.Limit" && limZero || path == "q.Offset" && offZero
	})
	vpReach("paged")
}
