package generator

//vp:export internal/postgres

import (
	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres"
	"github.com/frk/gosql/internal/postgres/oid"
)

// Placeholders and arguments: the bound text, in which each placeholder is
// replaced by the argument it refers to, says which value ends up where.

const vpDeepQuick, vpDeepThorough = 6, 9

// vpItem is the i-th item of a where clause: its declaration and its meaning.
func vpItem(kind int, i, path string) (decl, sql string) {
	f := path + ".F" + i
	switch kind {
	case 0:
		return vpTagged("F"+i+" int", "sql", "u.id"), `u."id" = {` + f + `}`
	case 1:
		return vpTagged("F"+i+" []int", "sql", "u.id isin"), `u."id" IN ({` + f + `[0]}, {` + f + `[1]})`
	case 2:
		return "F" + i + " struct { A int `sql:\"x\"`; B int `sql:\"y\"` } `sql:\"u.id isbetween\"`", `u."id" BETWEEN {` + f + `.A} AND {` + f + `.B}`
	case 3:
		return "F" + i + " struct { B int `sql:\"y\"`; A int `sql:\"x\"` } `sql:\"u.id isbetween\"`", `u."id" BETWEEN {` + f + `.A} AND {` + f + `.B}`
	case 4:
		return vpTagged("_ gosql.Column", "sql", "u.id > u.ref"), `u."id" > u."ref"`
	case 5:
		return vpTagged("F"+i+" []int", "sql", "u.id = any"), `u."id" = ANY({Int4ArrayFromIntSlice([` + f + `[0] ` + f + `[1]])}::integer[])`
	case 6:
		return "F" + i + " struct { _ gosql.Column `sql:\"u.ref,x\"`; B int `sql:\"y\"` } `sql:\"u.id isbetween\"`", `u."id" BETWEEN u."ref" AND {` + f + `.B}`
	case 7:
		return vpTagged("F"+i+" string", "sql", "u.name like,@lower"), `lower(u."name") LIKE lower({` + f + `})`
	case 8:
		return vpTagged("F"+i+" []string", "sql", "u.name notin"), `u."name" NOT IN ({` + f + `[0]}, {` + f + `[1]})`
	}
	return "F" + i + " struct { B int `sql:\"y\"`; _ gosql.Column `sql:\"u.ref,x\"` } `sql:\"u.id isbetween\"`", `u."id" BETWEEN u."ref" AND {` + f + `.B}`
}

func vpTwo(string) int { return 2 }

// vpHead is a kind of query with a where clause: its relation field and its text up to the condition.
func vpHead(kind int) (name, rel, head, tail string) {
	switch kind {
	case 0:
		return "SelectQ", "Users []User `rel:\"users:u\"`", `SELECT u."id", u."name", u."active" FROM "users" AS u WHERE`, ""
	case 1:
		return "DeleteQ", "_ gosql.Relation `rel:\"users:u\"`", `DELETE FROM "users" AS u WHERE`, ""
	case 2:
		return "UpdateQ", "User User `rel:\"users:u\"`", `UPDATE "users" AS u SET ("id", "name", "active") = ({q.User.Id}, {q.User.Name}, {q.User.Active}) WHERE`, ""
	case 3:
		return "SelectQ", "Count int `rel:\"users:u\"`", `SELECT COUNT(*) FROM "users" AS u WHERE`, ""
	}
	return "SelectQ", "Exists bool `rel:\"users:u\"`", `SELECT EXISTS(SELECT 1 FROM "users" AS u WHERE`, " LIMIT 1)"
}

// vpCheckBound runs the query and compares what it sends.
func (p *vpProgram) checkBound(name, want string) {
	rt := &vpRT{nrows: 1, slices: vpSliceLens}
	p.exec(rt, name)
	got := vpBoundSQL(rt.calls[0])
	vpObs("sent", got)
	vpObs("want", vpSQL(want))
	vpAssert(got == vpSQL(want), "the query does not send each argument to its placeholder")
}

func vpSliceLens(path string) int {
	if path == "q.Users" {
		return 0
	}
	return 2
}

func VP_N01_Where() {
	db := vpUsers()
	name, rel, head, tail := vpHead(vpChoose(5))
	n := vpBound("where item kinds", vpDeepQuick, 10)
	k1, k2 := vpChoose(n), vpChoose(n)
	d1, s1 := vpItem(k1, "1", "q.Where")
	d2, s2 := vpItem(k2, "2", "q.Where")
	d3, s3 := vpItem(0, "3", "q.Where")
	con, tag := "AND", ""
	if vpBool() {
		con, tag = "OR", ` bool:"or"`
	}
	d2 = d2[:len(d2)-1] + tag + "`"
	p := vpGenerate(db, vpUser+vpQ("type "+name, rel, "Where struct {\n"+d1+"\n"+d2+"\n"+d3+"\n}"), name)
	p.checkBound(name, head+" "+s1+" "+con+" "+s2+" AND "+s3+tail)
	vpReach("sent")
}

// vpTail is a LIMIT or OFFSET: its declaration, the clause, and what the field holds.
func vpTail(kind int, name string) (decl, sql string, zero bool) {
	word := "LIMIT "
	if name == "Offset" {
		word = "OFFSET "
	}
	switch kind {
	case 0:
		return "", "", false
	case 1:
		return vpTagged("_ gosql."+name, "sql", "50"), word + "50", false
	case 2:
		return name + " int", word + "{q." + name + "}", false
	case 3:
		return vpTagged(name+" int", "sql", "50"), word + "{50}", true
	}
	return vpTagged(name+" int", "sql", "50"), word + "{q." + name + "}", false
}

// Page: conditions, lists, limit and offset together.
func VP_N01_Page() {
	db := vpUsers()
	lim, limSQL, limZero := vpTail(vpChoose(5), "Limit")
	off, offSQL, offZero := vpTail(vpChoose(5), "Offset")
	where, cond := "", ""
	switch vpChoose(3) {
	case 1:
		where, cond = "Where struct { Name string `sql:\"u.name\"` }", `WHERE u."name" = {q.Where.Name}`
	case 2:
		where, cond = "Where struct { Id int `sql:\"u.id >\"`; Names []string `sql:\"u.name isin\"` }", `WHERE u."id" > {q.Where.Id} AND u."name" IN ({q.Where.Names[0]}, {q.Where.Names[1]})`
	}
	order := vpTagged("_ gosql.OrderBy", "sql", "u.id")
	p := vpGenerate(db, vpUser+vpQ("type SelectQ", "Users []User `rel:\"users:u\"`", where, order, lim, off), "SelectQ")
	rt := &vpRT{nrows: 1, slices: vpSliceLens, zero: func(path string) bool {
		return path == "q.Limit" && limZero || path == "q.Offset" && offZero
	}}
	p.exec(rt, "SelectQ")
	want := `SELECT u."id", u."name", u."active" FROM "users" AS u ` + cond + ` ORDER BY u."id" ASC NULLS LAST ` + limSQL + " " + offSQL
	got := vpBoundSQL(rt.calls[0])
	vpObs("sent", got)
	vpObs("want", vpSQL(want))
	vpAssert(got == vpSQL(want), "the query does not send each argument to its placeholder")
	vpReach("sent")
}

// Filter: the filter's parameters come after the query's own.
func VP_N01_Filter() {
	db := vpUsers()
	kind := vpChoose(9)
	rel, tail, head, after := "Users []User `rel:\"users:u\"`", "", "", ""
	name := "SelectQ"
	cols := `SELECT u."id", u."name", u."active" FROM "users" AS u `
	switch kind {
	case 0:
		head = cols
	case 1:
		rel, head = "Count int `rel:\"users:u\"`", `SELECT COUNT(*) FROM "users" AS u `
	case 2:
		rel, head, after = "Exists bool `rel:\"users:u\"`", `SELECT EXISTS(SELECT 1 FROM "users" AS u `, ")"
	case 3:
		rel, head, after = "NotExists bool `rel:\"users:u\"`", `SELECT NOT EXISTS(SELECT 1 FROM "users" AS u `, ")"
	case 4:
		name, rel, head = "DeleteQ", "_ gosql.Relation `rel:\"users:u\"`", `DELETE FROM "users" AS u `
	case 5:
		name, rel, head = "UpdateQ", "User User `rel:\"users:u\"`", `UPDATE "users" AS u SET ("id", "name", "active") = ({q.User.Id}, {q.User.Name}, {q.User.Active}) `
	case 6:
		name, rel, tail = "UpdateQ", "User User `rel:\"users:u\"`", "_ gosql.Return `sql:\"*\"`"
		head, after = `UPDATE "users" AS u SET ("id", "name", "active") = ({q.User.Id}, {q.User.Name}, {q.User.Active}) `, ` RETURNING u."id", u."name", u."active"`
	case 8:
		rel, head = "User User `rel:\"users:u\"`", cols
	case 7:
		name, rel, tail = "DeleteQ", "Users []User `rel:\"users:u\"`", "_ gosql.Return `sql:\"*\"`"
		head, after = `DELETE FROM "users" AS u `, ` RETURNING u."id", u."name", u."active"`
	}
	n := vpChoose(3)
	page, pageSQL := "", ""
	if name == "SelectQ" && vpBool() {
		if kind != 1 {
			page = vpTagged("_ gosql.OrderBy", "sql", "-u.id") + "\n"
			pageSQL = ` ORDER BY u."id" DESC NULLS LAST`
		}
		page += "Limit int\nOffset int `sql:\"50\"`"
		pageSQL += " LIMIT {q.Limit} OFFSET {50}"
	}
	p := vpGenerate(db, vpUser+vpQ("type "+name, rel, "Filter gosql.Filter", tail, page), name)
	rt := &vpRT{nrows: 1, slices: vpSliceLens, filter: n, zero: func(string) bool { return true }}
	p.exec(rt, name)
	want := head + "FILTER"
	for i := 1; i <= n; i++ {
		want += " {filter" + string(rune('0'+i)) + "}"
	}
	want += pageSQL + after
	got := vpBoundSQL(rt.calls[0])
	vpObs("sent", got)
	vpObs("want", vpSQL(want))
	vpAssert(got == vpSQL(want), "the query does not send each argument to its placeholder")
	vpReach("sent")
}

// vpFieldName is any name of two characters a field can have.
func vpFieldName(export bool) string {
	a, b := vpByte(), vpByte()
	upper := vpAnd(a >= 'A', a <= 'Z')
	if export {
		vpAssume(upper)
	} else {
		vpAssume(vpOr(upper, vpAnd(a >= 'a', a <= 'z')))
		vpAssume(vpAnd(vpOr(a != 'd', b != 'o'), vpOr(a != 'g', b != 'o'), vpOr(a != 'i', b != 'f')))
	}
	vpAssume(vpOr(vpAnd(b >= 'A', b <= 'Z'), vpAnd(b >= 'a', b <= 'z'), vpAnd(b >= '0', b <= '9')))
	return string([]byte{a, b})
}

// Lists: any number of lists of different lengths, with a value somewhere among them.
func VP_N01_Lists() {
	db := vpUsers()
	n := 1 + vpChoose(vpBound("lists", 5, 7))
	at := vpChoose(n + 1)
	lens := map[string]int{}
	src, want := "", ""
	add := func(decl, sql string) {
		if want != "" {
			want += " AND "
		}
		src += decl + "\n"
		want += sql
	}
	value := func() { add("V string `sql:\"u.name >\"`", `u."name" > {q.Where.V}`) }
	for i := 0; i < n; i++ {
		if at == i {
			value()
		}
		name := "L" + string(rune('0'+i))
		l := 1
		if i < 4 {
			l += vpChoose(2)
		}
		if i == 0 {
			l += 2 // more than there are conditions
		}
		lens["q.Where."+name] = l
		list := ""
		for j := 0; j < l; j++ {
			if j > 0 {
				list += ", "
			}
			list += "{q.Where." + name + "[" + string(rune('0'+j)) + "]}"
		}
		if i%2 == 0 {
			add(name+" []int `sql:\"u.id isin\"`", `u."id" IN (`+list+")")
		} else {
			add(name+" []string `sql:\"u.name notin\"`", `u."name" NOT IN (`+list+")")
		}
	}
	if at == n {
		value()
	}
	p := vpGenerate(db, vpUser+vpQ("type DeleteQ", "_ gosql.Relation `rel:\"users:u\"`", "Where struct {\n"+src+"}"), "DeleteQ")
	rt := &vpRT{slices: func(path string) int { return lens[path] }}
	p.exec(rt, "DeleteQ")
	got := vpBoundSQL(rt.calls[0])
	vpObs("sent", got)
	vpObs("want", vpSQL(`DELETE FROM "users" AS u WHERE `+want))
	vpAssert(got == vpSQL(`DELETE FROM "users" AS u WHERE `+want), "the query does not send each argument to its placeholder")
	vpReach("sent")
}

// Names: whatever the fields and columns are called, an argument is the value
// of the field whose condition or column its placeholder belongs to.
func VP_N01_Names() {
	db := vpUsers()
	f, g := vpFieldName(false), vpFieldName(false)
	vpAssume(f != g)
	var p *vpProgram
	name, want := "SelectQ", ""
	user := `
import "github.com/frk/gosql"
var _ gosql.Conn
type User struct {
	` + f + ` int ` + "`sql:\"id,pk\"`" + `
	` + g + ` string ` + "`sql:\"name\"`" + `
}
`
	cols := `SELECT u."id", u."name" FROM "users" AS u WHERE `
	switch vpChoose(6) {
	case 0: // conditions
		p = vpGenerate(db, vpUser+vpQ("type SelectQ", "Users []User `rel:\"users:u\"`", "Where struct {\n"+f+" int `sql:\"u.id\"`\n"+g+" int `sql:\"u.ref\"`\n}"), name)
		want = vpSelectN01 + `u."id" = {q.Where.` + f + `} AND u."ref" = {q.Where.` + g + `}`
	case 1: // a list and a range
		p = vpGenerate(db, vpUser+vpQ("type SelectQ", "Users []User `rel:\"users:u\"`",
			"Where struct {\n"+f+" []int `sql:\"u.id isin\"`\n"+g+" struct { B int `sql:\"y\"`; A int `sql:\"x\"` } `sql:\"u.ref isbetween\"`\n}"), name)
		want = vpSelectN01 + `u."id" IN ({q.Where.` + f + `[0]}, {q.Where.` + f + `[1]}) AND u."ref" BETWEEN {q.Where.` + g + `.A} AND {q.Where.` + g + `.B}`
	case 2: // bounds of a range, within a group
		p = vpGenerate(db, user+vpQ("type SelectQ", "Users []User `rel:\"users:u\"`",
			"Where struct {\n"+g+" struct { "+f+" struct { "+g+" int `sql:\"y\"`; "+f+" int `sql:\"x\"` } `sql:\"u.ref isbetween\"` } `sql:\">\"`\n}"), name)
		r := "q.Where." + g + "." + f + "."
		want = cols + `(u."ref" BETWEEN {` + r + f + `} AND {` + r + g + `})`
	case 3: // written fields
		name = "InsertQ"
		p = vpGenerate(db, user+vpQ("type InsertQ", "R *User `rel:\"users:u\"`"), name)
		want = `INSERT INTO "users" AS u ("id", "name") VALUES ({q.R.` + f + `}, {q.R.` + g + `})`
	case 4: // written records
		name = "InsertQ"
		p = vpGenerate(db, user+vpQ("type InsertQ", "R []*User `rel:\"users:u\"`"), name)
		want = `INSERT INTO "users" AS u ("id", "name") VALUES ({q.R[0].` + f + `}, {q.R[0].` + g + `}), ({q.R[1].` + f + `}, {q.R[1].` + g + `})`
	case 5: // the query type's own fields
		name = "UpdateQ"
		p = vpGenerate(db, user+vpQ("type UpdateQ", f+" *User `rel:\"users:u\"`", "Where struct { "+g+" int `sql:\"u.ref\"` }"), name)
		want = `UPDATE "users" AS u SET ("id", "name") = ({q.` + f + "." + f + `}, {q.` + f + "." + g + `}) WHERE u."ref" = {q.Where.` + g + `}`
	}
	rt := &vpRT{nrows: 1, slices: vpSliceLens}
	p.exec(rt, name)
	got := vpBoundSQL(rt.calls[0])
	vpObs("sent", got)
	vpObs("want", vpSQL(want))
	vpAssert(got == vpSQL(want), "the query does not send each argument to its placeholder")
	vpReach("sent")
}

const vpSelectN01 = `SELECT u."id", u."name", u."active" FROM "users" AS u WHERE `

// Converters: a value goes through the converter its column's type calls for, wherever it stands.
func VP_N01_Converters() {
	db := vpUsers()
	for _, op := range []string{"=", "<>", "<=", ">="} {
		postgres.VPCatalog(db).Operators[postgres.OpKey{Name: op, Left: oid.TextArr, Right: oid.TextArr}] = &postgres.Operator{}
	}
	arg := func(field, path, tag string) (decl, sql string) {
		if vpBool() {
			return field + " []string `sql:\"" + tag + "\"`", "{TextArrayFromStringSlice([" + path + field + "[0] " + path + field + "[1]])}"
		}
		return field + " string `sql:\"" + tag + "\"`", "{" + path + field + "}"
	}
	a, as := arg("A", "q.Where.", "u.names")
	in, path := "q.Where.R.", "R struct {\n"
	group := vpBool()
	if group {
		in, path = "q.Where.G.R.", "G struct {\nR struct {\n"
	}
	lower := func() (string, string) {
		if vpChoose(3) == 2 {
			return "_ gosql.Column `sql:\"u.names,x\"`", `u."names"`
		}
		return arg("X", in, "x")
	}
	x, xs := lower()
	y, ys := arg("Y", in, "y")
	if vpBool() {
		x, y = y, x
	}
	src := path + x + "\n" + y + "\n} `sql:\"u.names isbetween\"`\n"
	want := `u."names" BETWEEN ` + xs + " AND " + ys
	if group {
		b, bs := arg("B", "q.Where.G.", "u.names <>")
		src += b + "\n} `sql:\">\"`\n"
		want = "(" + want + ` AND u."names" <> ` + bs + ")"
	}
	if vpBool() {
		src, want = a+"\n"+src, `u."names" = `+as+" AND "+want
	} else {
		src, want = src+a, want+` AND u."names" = `+as
	}
	name, rel, head, tail := vpHead(vpChoose(5))
	p := vpGenerate(db, vpUser+vpQ("type "+name, rel, "Where struct {\n"+src+"\n}"), name)
	p.checkBound(name, head+" "+want+tail)
	vpReach("converted")
}

// The elements of lists are converted one by one.
func VP_N01_ListConverters() {
	bpchar := &postgres.Type{OID: oid.BPChar, Name: "bpchar", NameFmt: "character", Length: -1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryString}
	uuid := &postgres.Type{OID: oid.UUID, Name: "uuid", NameFmt: "uuid", Length: 16, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryUserdefined}
	db := vpDatabase()
	cat := postgres.VPCatalog(db)
	for _, t := range []*postgres.Type{bpchar, uuid,
		{OID: oid.BPCharArr, Name: "_bpchar", NameFmt: "character[]", Length: -1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryArray, Elem: oid.BPChar},
		{OID: oid.UUIDArr, Name: "_uuid", NameFmt: "uuid[]", Length: -1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryArray, Elem: oid.UUID}} {
		cat.Types[t.OID] = t
		for _, op := range []string{"=", "<>"} {
			cat.Operators[postgres.OpKey{Name: op, Left: t.OID, Right: t.OID}] = &postgres.Operator{}
		}
	}
	grade, uid := vpColumn("grade", bpchar), vpColumn("uid", uuid)
	vpTable(db, []analysis.RelIdent{{Name: "users", Alias: "u"}}, vpColumn("id", vpInt4), vpColumn("name", vpText), vpColumn("active", vpBoolean), grade, uid)
	grade.TypeMod = 5
	item := func(n string) (decl, sql string) {
		op, not := "isin", ""
		if vpBool() {
			op, not = "notin", "NOT "
		}
		typ, col, conv := "", "grade", ""
		switch vpChoose(6) {
		case 0:
			typ, conv = "[]byte", "BPCharFromByte"
		case 1:
			typ, conv = "[]rune", "BPCharFromRune"
		case 2:
			typ = "[]string"
		case 3:
			typ, col, conv = "[][16]byte", "uid", "UUIDFromByteArray16"
		case 4:
			typ, col = "[]string", "uid"
		case 5:
			return n + " int `sql:\"u.id\"`", `u."id" = {q.Where.` + n + `}`
		}
		el := func(i string) string {
			s := "q.Where." + n + "[" + i + "]"
			if conv != "" {
				s = conv + "(" + s + ")"
			}
			return "{" + s + "}"
		}
		return n + " " + typ + " `sql:\"u." + col + " " + op + "\"`", `u."` + col + `" ` + not + "IN (" + el("0") + ", " + el("1") + ")"
	}
	a, as := item("A")
	b, bs := item("B")
	name, rel, head, tail := vpHead(vpChoose(2))
	p := vpGenerate(db, vpUser+vpQ("type "+name, rel, "Where struct {\n"+a+"\n"+b+"\n}"), name)
	p.checkBound(name, head+" "+as+" AND "+bs+tail)
	vpReach("converted")
}
