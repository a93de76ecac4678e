package generator

//vp:export internal/postgres

// Conditions: every predicate, in every position, on its declared operands.

var vpPreds = []struct{ word, sql string }{
	{"", "="}, {"=", "="}, {"<>", "<>"}, {"!=", "!="}, {"<", "<"}, {">", ">"}, {"<=", "<="}, {">=", ">="},
	{"isdistinct", "IS DISTINCT FROM"}, {"notdistinct", "IS NOT DISTINCT FROM"},
	{"~", "~"}, {"~*", "~*"}, {"!~", "!~"}, {"!~*", "!~*"}, {"islike", "LIKE"}, {"notlike", "NOT LIKE"},
	{"isilike", "ILIKE"}, {"notilike", "NOT ILIKE"}, {"issimilar", "SIMILAR TO"}, {"notsimilar", "NOT SIMILAR TO"},
}

var vpQuants = []string{"", "any", "some", "all"}

func vpUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// vpQuantifies says which predicates PostgreSQL compares with the elements of an array.
func vpQuantifies(pred int) bool { return pred < 8 || pred >= 10 && pred < 18 }

func vpSelectWhere(items string) string {
	return vpUser + vpQ("type SelectQ", "Users []User `rel:\"users:u\"`", "Where struct {\n"+items+"\n}")
}

const vpSelectHead = `SELECT u."id", u."name", u."active" FROM "users" AS u WHERE `

func vpSent(p *vpProgram, name, want string) {
	rt := &vpRT{nrows: 1, slices: vpSliceLens02}
	p.exec(rt, name)
	got := vpBoundSQL(rt.calls[0])
	vpObs("sent", got)
	vpObs("want", vpSQL(want))
	vpAssert(got == vpSQL(want), "a condition is not the declared one")
}

func vpSliceLens02(path string) int {
	if path == "q.Users" {
		return 0
	}
	return 2
}

// Field: a where field with every predicate, quantifier and function.
func VP_N02_Field() {
	pred := vpChoose(len(vpPreds))
	qua := vpChoose(4)
	fn := vpBool()
	if qua > 0 && (pred == 0 || fn) {
		vpSkip()
	}
	tag := "u.name"
	if vpPreds[pred].word != "" {
		tag += " " + vpPreds[pred].word
	}
	typ, arg := "string", "{q.Where.F}"
	if qua > 0 {
		tag += " " + vpQuants[qua]
		typ, arg = "[]string", "{TextArrayFromStringSlice([q.Where.F[0] q.Where.F[1]])}"
	}
	col := `u."name"`
	if fn {
		tag += ",@lower"
		col, arg = "lower("+col+")", "lower("+arg+")"
	}
	if qua > 0 {
		arg = vpUpper(vpQuants[qua]) + "(" + arg + "::text[])"
	}
	src := vpSelectWhere(vpTagged("F "+typ, "sql", tag))
	if qua > 0 && !vpQuantifies(pred) {
		vpRejectedBy(vpUsers(), src, "SelectQ", "a predicate PostgreSQL has no quantified form of is accepted with a quantifier")
		vpReach("rejected")
		return
	}
	vpSent(vpGenerate(vpUsers(), src, "SelectQ"), "SelectQ", vpSelectHead+col+" "+vpPreds[pred].sql+" "+arg)
	vpReach("field")
}

// Column: conditions on columns alone, in a where clause and in a join.
func VP_N02_Column() {
	join := vpBool()
	var tag, sql string
	pred := vpChoose(len(vpPreds) + 9)
	if pred < len(vpPreds) {
		if pred == 0 {
			vpSkip()
		}
		tag, sql = vpPreds[pred].word+" ", vpPreds[pred].sql+" "
		var qua int
		if qua = vpChoose(4); qua > 0 {
			if !vpQuantifies(pred) {
				vpSkip()
			}
			if pred == 1 && vpBool() {
				not, op := vpBool(), "= ANY"
				tag = "isin r.names"
				if not {
					tag, op = "notin r.names", "<> ALL"
				}
				sql = op + `(r."names")`
				goto done
			}
			tag += vpQuants[qua] + " r.names"
			sql += vpUpper(vpQuants[qua]) + `(r."names")`
		} else if vpBool() {
			tag += "r.name"
			sql += `r."name"`
		} else {
			tag += "r.lit"
			sql += `'x y'`
		}
	done:
		tag, sql = ".name "+tag, `."name" `+sql
	} else {
		un := []struct{ word, sql string }{{"", "IS TRUE"}, {" istrue", "IS TRUE"}, {" nottrue", "IS NOT TRUE"}, {" isfalse", "IS FALSE"}, {" notfalse", "IS NOT FALSE"},
			{" isunknown", "IS UNKNOWN"}, {" notunknown", "IS NOT UNKNOWN"}, {" isnull", "IS NULL"}, {" notnull", "IS NOT NULL"}}[pred-len(vpPreds)]
		tag, sql = ".flag"+un.word, `."flag" `+un.sql
	}
	db := vpUsers()
	rel := "Join struct {\n_ gosql.CrossJoin `sql:\"users:r\"`\n"
	head := `SELECT u."id", u."name", u."active" FROM "users" AS u CROSS JOIN "users" AS r `
	where := ""
	if join {
		rel += "_ gosql.InnerJoin `sql:\"users:p,p" + tag + "\"`\n"
		head += `INNER JOIN "users" AS p ON p` + sql
	} else {
		where = "Where struct {\n_ gosql.Column `sql:\"u" + tag + "\"`\n}"
		head += "WHERE u" + sql
	}
	p := vpGenerateWith(db, vpUser+vpQ("type SelectQ", "Users []User `rel:\"users:u\"`", rel+"}", where), vpLiteral("'x y'"), "SelectQ")
	vpSent(p, "SelectQ", head)
	vpReach("column")
}

// Between: every form of range, with every kind and order of bounds.
func VP_N02_Between() {
	forms := []struct{ word, sql string }{{"isbetween", "BETWEEN"}, {"notbetween", "NOT BETWEEN"}, {"isbetweensym", "BETWEEN SYMMETRIC"}, {"notbetweensym", "NOT BETWEEN SYMMETRIC"}}
	form := forms[vpChoose(4)]
	bound := func(name, mark string) (decl, sql string) {
		switch vpChoose(3) {
		case 0:
			return name + " int `sql:\"" + mark + "\"`", "{q.Where.R." + name + "}"
		case 1:
			if mark == "x" {
				mark = "lower"
			} else {
				mark = "UPPER"
			}
			return name + " int `sql:\"" + mark + "\"`", "{q.Where.R." + name + "}"
		}
		return "_ gosql.Column `sql:\"u." + name + "," + mark + "\"`", `u."` + name + `"`
	}
	lo, loSQL := bound("ref", "x")
	hi, hiSQL := bound("id", "y")
	if vpBool() {
		lo, hi = hi, lo
	}
	nested := vpBool()
	item := "R struct {\n" + lo + "\n" + hi + "\n} `sql:\"u.id " + form.word + "\"`"
	want := `u."id" ` + form.sql + " " + loSQL + " AND " + hiSQL
	src := vpSelectWhere("Z string `sql:\"u.name\"`\n" + item)
	if nested {
		src = vpSelectWhere("Z string `sql:\"u.name\"`\nN struct {\n" + item + "\nC int `sql:\"u.ref\"`\n} `sql:\">\" bool:\"or\"`")
		want = `OR (` + vpReplace(want, "q.Where.", "q.Where.N.") + ` AND u."ref" = {q.Where.N.C})`
	} else {
		want = "AND " + want
	}
	vpSent(vpGenerate(vpUsers(), src, "SelectQ"), "SelectQ", vpSelectHead+`u."name" = {q.Where.Z} `+want)
	vpReach("between")
}

func vpReplace(s, old, new string) string {
	out := ""
	for i := 0; i < len(s); {
		if len(s)-i >= len(old) && s[i:i+len(old)] == old {
			out += new
			i += len(old)
			continue
		}
		out += s[i : i+1]
		i++
	}
	return out
}

// Tree: connectives and parentheses follow the declaration.
func VP_N02_Tree() {
	n := 0
	src, want := vpTree(2, vpBound("items of a where group", 2, 3), "q.Where", &n)
	vpSent(vpGenerate(vpUsers(), vpSelectWhere(src), "SelectQ"), "SelectQ", vpSelectHead+want)
	vpReach("tree")
}

func vpTree(depth, max int, path string, n *int) (src, sql string) {
	items := 1 + vpChoose(max)
	for i := 0; i < items; i++ {
		*n++
		name := "F" + string(rune('0'+*n/10)) + string(rune('0'+*n%10))
		tag, con := "", ""
		if i > 0 {
			switch vpChoose(2) {
			case 0:
				con = " AND "
				if n := *n; n%2 == 0 {
					tag = ` bool:"AND"`
				}
			case 1:
				con, tag = " OR ", ` bool:"or"`
			}
		}
		if depth > i && vpBool() {
			s, w := vpTree(depth-1-i, max, path+"."+name, n)
			src += name + " struct {\n" + s + "} `sql:\">\"" + tag + "`\n"
			sql += con + "(" + w + ")"
			continue
		}
		src += name + " int `sql:\"u.id\"" + tag + "`\n"
		sql += con + `u."id" = {` + path + "." + name + "}"
	}
	return src, sql
}

// Joins: every kind of join in every statement, with several conditions.
func VP_N02_Joins() {
	kind := vpChoose(3)
	types := []struct{ dir, sql string }{{"InnerJoin", "INNER JOIN"}, {"LeftJoin", "LEFT JOIN"}, {"RightJoin", "RIGHT JOIN"}, {"FullJoin", "FULL JOIN"}, {"CrossJoin", "CROSS JOIN"}}
	var name, rel, blk, head string
	switch kind {
	case 0:
		name, rel, blk = "SelectQ", "Users []User `rel:\"users:u\"`", "Join"
		head = `SELECT u."id", u."name", u."active" FROM "users" AS u `
	case 1:
		name, rel, blk = "UpdateQ", "User User `rel:\"users:u\"`", "From"
		head = `UPDATE "users" AS u SET ("id", "name", "active") = ({q.User.Id}, {q.User.Name}, {q.User.Active}) FROM "users" AS r `
	case 2:
		name, rel, blk = "DeleteQ", "_ gosql.Relation `rel:\"users:u\"`", "Using"
		head = `DELETE FROM "users" AS u USING "users" AS r `
	}
	src, base := blk+" struct {\n", "u"
	if kind > 0 {
		base = "r" // the target of the statement is not visible in its joins
		src += "_ gosql.Relation `sql:\"users:r\"`\n"
	}
	for i := 0; i < 1+vpChoose(2); i++ {
		t := types[vpChoose(5)]
		al := "p"
		if i == 1 {
			al = "s"
		}
		src += "_ gosql." + t.dir + " `sql:\"users:" + al
		head += t.sql + ` "users" AS ` + al + ` `
		if t.dir != "CrossJoin" {
			src += "," + al + ".ref = " + base + ".id"
			head += `ON ` + al + `."ref" = ` + base + `."id" `
			for j := 0; j < 2 && i == 0; j++ {
				switch vpChoose(3) {
				case 1:
					src += "," + al + ".name <> u.lit"
					head += `AND ` + al + `."name" <> 'x' `
				case 2:
					src += ";" + al + ".active isfalse"
					head += `OR ` + al + `."active" IS FALSE `
				}
			}
		}
		src += "\"`\n"
	}
	p := vpGenerateWith(vpUsers(), vpUser+vpQ("type "+name, rel, src+"}", "Where struct { _ gosql.Column `sql:\"u.active\"` }"), vpLiteral("'x'"), name)
	vpSent(p, name, head+`WHERE u."active" IS TRUE`)
	vpReach("joins")
}

// Groups: a group of several conditions, joined in any way, beside other conditions.
func VP_N02_Groups() {
	con := func(i int) (string, string) {
		if i == 0 {
			return "", ""
		}
		if vpBool() {
			return " OR ", ` bool:"or"`
		}
		if i%2 == 0 {
			return " AND ", ""
		}
		return " AND ", ` bool:"and"`
	}
	n := 2 + vpChoose(vpBound("conditions of a group", 3, 4)) // of the group
	at := vpChoose(3)                                         // where it stands
	deep := vpChoose(3) == 1                                  // within another group
	src, want := "", ""
	for i := 0; i < 3; i++ {
		c, tag := con(i)
		name := "F" + string(rune('0'+i))
		if i != at {
			src += name + " int `sql:\"u.id\"" + tag + "`\n"
			want += c + `u."id" = {q.Where.` + name + "}"
			continue
		}
		path := "q.Where.G"
		in, sql := "", ""
		for j := 0; j < n; j++ {
			c, tag := con(j)
			name := "H" + string(rune('0'+j))
			if deep {
				in += name + " string `sql:\"u.name >\"" + tag + "`\n"
				sql += c + `u."name" > {` + path + ".G." + name + "}"
				continue
			}
			in += name + " string `sql:\"u.name >\"" + tag + "`\n"
			sql += c + `u."name" > {` + path + "." + name + "}"
		}
		if deep {
			c, tag := con(1)
			in = "A int `sql:\"u.ref\"`\nG struct {\n" + in + "} `sql:\">\"" + tag + "`\n"
			sql = `u."ref" = {q.Where.G.A}` + c + "(" + sql + ")"
		}
		src += "G struct {\n" + in + "} `sql:\">\"" + tag + "`\n"
		want += c + "(" + sql + ")"
	}
	vpSent(vpGenerate(vpUsers(), vpSelectWhere(src), "SelectQ"), "SelectQ", vpSelectHead+want)
	vpReach("group")
}
