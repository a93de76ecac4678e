package generator

//vp:export internal/postgres

import (
	"strconv"
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres"
)

// Column lists, value lists, arguments and scan targets of writing queries.

// vpKind is a kind of field: its type, its column, and how it is written and read.
type vpKind struct {
	typ, col string
	arg      func(v string) string // the argument of a value
	val      func(p string) string // the expression of a placeholder
	cast     string                // the cast in a list of rows
	read     func(c string) string // the expression of the column
	scan     string                // the converter of the target
	db       *postgres.Type
	null     bool
	zero     string // the text of the zero value
}

func vpSame(s string) string { return s }

var vpKinds = []vpKind{
	{"string", "a", vpSame, vpSame, "::text", vpSame, "", vpText, false, "''::text"},
	{"string", "b", vpSame, func(p string) string { return "NULLIF(" + p + ", '')::text" }, "", func(c string) string { return "COALESCE(" + c + ", ''::text)" }, "", vpText, true, "''::text"},
	{"*string", "c", vpSame, vpSame, "::text", vpSame, "", vpText, true, "''::text"},
	{"[]string", "d", func(v string) string { return "TextArrayFromStringSlice(" + v + ")" }, vpSame, "::text[]", vpSame, "TextArrayToStringSlice", vpTextArr, true, "'{}'::text[]"},
	{"string", "e", vpSame, func(p string) string { return "NULLIF(" + p + ", '')::uuid" }, "", func(c string) string { return "COALESCE(" + c + "::text, '')" }, "", vpUUID, true, ""},
	{"map[string]int", "f", func(v string) string { return "JSON(" + v + ")" }, vpSame, "::jsonb", vpSame, "JSON", vpJSONB, true, "'null'::jsonb"},
	{"int", "g", vpSame, func(p string) string { return "NULLIF(" + p + ", 0)::integer" }, "", func(c string) string { return "COALESCE(" + c + ", 0::integer)" }, "", vpInt4, true, "0::integer"},
}

// vpMember is a field of a record.
type vpMember struct {
	name                      string
	kind                      int
	opt                       string // the options of its tag
	ro, wo, noIns, noUpd, def bool
	coal                      string
	pk                        bool
	at                        string // the structs it is in, each with a dot
	embedded                  bool   // whether those are embedded
	ptr                       bool   // whether those are pointers
}

func (m *vpMember) k() *vpKind {
	if m.pk {
		return &vpKind{"int", "id", vpSame, vpSame, "::integer", vpSame, "", vpInt4, false, "0::integer"}
	}
	return &vpKinds[m.kind]
}

func (m *vpMember) decl() string {
	s := m.name + " " + m.k().typ + " `sql:\"" + m.k().col + m.opt + "\"`\n"
	if m.at == "" {
		return s
	}
	names := strings.Split(m.at[:len(m.at)-1], ".")
	if m.embedded {
		return vpStar(m.ptr) + names[0] + " `sql:\">\"`\n"
	}
	for i := len(names) - 1; i >= 0; i-- {
		s = names[i] + " " + vpStar(m.ptr) + "struct {\n" + s + "} `sql:\">\"`\n"
	}
	return s
}

func vpStar(ptr bool) string {
	if ptr {
		return "*"
	}
	return ""
}

// types are the declarations of the structs that are embedded.
func (m *vpMember) types() (s string) {
	if m.at == "" || !m.embedded {
		return ""
	}
	names := strings.Split(m.at[:len(m.at)-1], ".")
	body := m.name + " " + m.k().typ + " `sql:\"" + m.k().col + m.opt + "\"`\n"
	for i := len(names) - 1; i >= 0; i-- {
		s += "type " + names[i] + " struct {\n" + body + "}\n"
		body = vpStar(m.ptr) + names[i] + " `sql:\">\"`\n"
	}
	return s
}

// field is the value of the member in a record.
func (m *vpMember) field(st *vpStruct) vpVal {
	if m.at != "" {
		for _, n := range strings.Split(m.at[:len(m.at)-1], ".") {
			v := st.fields[n].v
			if p, ok := v.(vpPtr); ok {
				v = p.to.v
			}
			in, ok := v.(*vpStruct)
			if !ok {
				return v
			}
			st = in
		}
	}
	return st.fields[m.name].v
}

func (m *vpMember) readable() bool { return !m.wo }

func (m *vpMember) read() string {
	c := `t."` + m.k().col + `"`
	switch m.coal {
	case "":
		return m.k().read(c)
	case "zero":
		if m.k().zero == "" {
			return "COALESCE(" + c + "::text, '')"
		}
		return "COALESCE(" + c + ", " + m.k().zero + ")"
	}
	return "COALESCE(" + c + ", " + m.coal + "::" + m.k().db.NameFmt + ")"
}

// scanned is the value of the field after the n-th row was read.
func (m *vpMember) scanned(row int) string {
	v := "row" + strconv.Itoa(row) + ":" + vpSQL(m.read())
	if m.k().scan != "" {
		v = m.k().scan + "(" + v + ")"
	}
	return v
}

// vpOption gives the i-th of the options of a field.
func vpOption(m *vpMember, i int) {
	switch i {
	case 1:
		m.opt, m.def = ",default", true
	case 2:
		m.opt, m.ro = ",ro", true
		m.noIns, m.noUpd = true, true
	case 3:
		m.opt, m.wo = ",wo", true
	case 4:
		m.opt, m.noIns = ",-i", true
	case 5:
		m.opt, m.noUpd = ",-u", true
	case 6:
		m.opt, m.wo = ",-s", true
	case 7:
		m.opt, m.coal = ",coalesce", "zero"
	case 8:
		m.opt, m.coal = ",coalesce('x')", "'x'"
	}
}

const vpOptions = 9

// vpItems is the database with the table items (t).
func vpItems() *postgres.DB {
	db := vpDatabase()
	var cols []*postgres.Column
	id := vpColumn("id", vpInt4)
	id.IsPrimary, id.HasDefault = true, true
	cols = append(cols, id)
	for _, k := range vpKinds {
		c := vpColumn(k.col, k.db)
		c.HasNotNull, c.HasDefault = !k.null, true
		cols = append(cols, c)
	}
	r := vpTable(db, []analysis.RelIdent{{Name: "items", Alias: "t"}, {Name: "items"}, {Name: "items", Alias: "x"}, {Name: "items", Alias: "X"}, {Name: "items", Alias: "r"}, {Name: "x"}}, cols...)
	r.Indexes = append(r.Indexes,
		&postgres.Index{Name: "items_pkey", IsUnique: true, IsPrimary: true, Key: []int16{1}, Expression: "id"},
		&postgres.Index{Name: "items_ab", IsUnique: true, Key: []int16{2, 3}, Expression: "a, lower(b)", Predicate: "g > 5"})
	r.Constraints = append(r.Constraints, &postgres.Constraint{Name: "items_uniq", Type: postgres.ConstraintTypeUnique, Key: []int64{2}})
	return db
}

// vpRecord is the declaration of the record.
func vpRecord(ms []*vpMember) string {
	s := "\nimport \"github.com/frk/gosql\"\nvar _ gosql.Conn\ntype Item struct {\n"
	for _, m := range ms {
		s += m.decl()
	}
	s += "}\n"
	for _, m := range ms {
		s += m.types()
	}
	return s
}

// vpWrites are the texts of an operation's column list and the list of a record's values.
func vpWrites(ms []*vpMember, keep func(m *vpMember) bool, path string, cast bool) (cols, vals string) {
	for _, m := range ms {
		if !keep(m) {
			continue
		}
		if cols != "" {
			cols, vals = cols+", ", vals+", "
		}
		cols += `"` + m.k().col + `"`
		if m.def {
			vals += "DEFAULT"
			continue
		}
		vals += m.k().val("{" + m.k().arg(path+"."+m.at+m.name) + "}")
		if cast && !vpNullif(m) {
			vals += m.k().cast
		}
	}
	return cols, vals
}

func vpNullif(m *vpMember) bool { return m.k().val("p") != "p" }

// vpSliceLens03 gives the items two elements.
func vpSliceLens03(path string) int {
	if path == "q.Items" {
		return 2
	}
	return -1
}

// vpShape picks the rich field of a record and what surrounds it.
func vpShape() []*vpMember {
	m := &vpMember{name: "F", kind: vpChoose(len(vpKinds))}
	vpOption(m, vpChoose(vpOptions))
	if m.coal == "'x'" && m.kind > 2 || m.coal != "" && m.kind == 5 {
		vpSkip()
	}
	id := &vpMember{name: "Id", pk: true, opt: ",pk"}
	other := &vpMember{name: "G", kind: (m.kind + 1) % len(vpKinds)}
	switch vpChoose(vpBound("record layouts", 3, 5)) {
	case 1:
		vpOption(other, 1)
		return []*vpMember{other, id, m}
	case 2:
		vpOption(id, 2)
		id.opt = ",pk,ro"
		return []*vpMember{id, m, other}
	case 3:
		vpOption(other, 2)
		return []*vpMember{m, other, id}
	case 4:
		vpOption(id, 2)
		id.opt = ",pk,ro"
		return []*vpMember{m, id}
	}
	return []*vpMember{id, m, other}
}

// vpPtrElem says whether the records are pointers; both are tried with every layout.
func vpPtrElem(ms []*vpMember) bool {
	if vpThorough() {
		return vpBool()
	}
	n := 0
	for _, m := range ms {
		n += m.kind + len(m.opt)
	}
	return n%2 == 0
}

// vpReturning checks the texts and the values of what a query gives back.
func vpReturning(ms []*vpMember, list int) (decl, sql string, returned []*vpMember) {
	switch list {
	case 1:
		decl = "_ gosql.Return `sql:\"*\"`"
		for _, m := range ms {
			if m.readable() {
				returned = append(returned, m)
			}
		}
	case 2:
		decl = "_ gosql.Return `sql:\"t.id,t." + ms[len(ms)-1].k().col + "\"`"
		for _, m := range ms {
			if m.pk && m != ms[len(ms)-1] {
				returned = append(returned, m)
			}
		}
		if !ms[len(ms)-1].readable() {
			vpSkip()
		}
		returned = append(returned, ms[len(ms)-1])
	}
	for _, m := range returned {
		if sql == "" {
			sql = " RETURNING "
		} else {
			sql += ", "
		}
		sql += m.read()
	}
	return decl, sql, returned
}

// vpCheckRecords checks the fields of the records after the query.
func vpCheckRecords(q *vpCell, ms, returned []*vpMember, slice bool, field string) {
	for i := 0; i < 2; i++ {
		var rec vpVal
		path := "q." + field
		if slice {
			s, ok := q.v.(*vpStruct).fields[field].v.(*vpSlice)
			if !ok || len(s.elems) != 2 {
				vpAssert(false, "the records are not kept")
				return
			}
			rec = s.elems[i].v
			path += "[" + strconv.Itoa(i) + "]"
		} else {
			rec = q.v.(*vpStruct).fields[field].v
		}
		if p, ok := rec.(vpPtr); ok {
			rec = p.to.v
		}
		st, ok := rec.(*vpStruct)
		if !ok {
			vpAssert(false, "a record is lost")
			return
		}
		for _, m := range ms {
			want := path + "." + m.at + m.name
			for _, r := range returned {
				if r == m {
					want = m.scanned(i + 1)
				}
			}
			got := vpDump(m.field(st))
			vpObs("field", m.name+": "+got)
			vpAssert(got == want, "a returned column does not end up in its field")
		}
		if !slice {
			return
		}
	}
}

// Insert: what an INSERT writes and returns.
func VP_N03_Insert() { vpInsert03(vpShape()) }

func vpInsert03(ms []*vpMember) {
	slice := vpBool()
	ptr := vpPtrElem(ms)
	ret, retSQL, returned := vpReturning(ms, vpChoose(3))
	elem := "Item"
	if ptr {
		elem = "*Item"
	}
	rel := "Item " + elem + " `rel:\"items:t\"`"
	if slice {
		rel = "Items []" + elem + " `rel:\"items:t\"`"
	}
	keep := func(m *vpMember) bool { return !m.noIns }
	p := vpGenerate(vpItems(), vpRecord(ms)+vpQ("type InsertQ", rel, ret), "InsertQ")
	rt := &vpRT{nrows: 2, slices: vpSliceLens03}
	q, res := p.exec(rt, "InsertQ")
	var want string
	field := "Item"
	if slice {
		field = "Items"
		cols, v0 := vpWrites(ms, keep, "q.Items[0]", false)
		_, v1 := vpWrites(ms, keep, "q.Items[1]", false)
		want = `INSERT INTO "items" AS t (` + cols + `) VALUES (` + v0 + `), (` + v1 + `)` + retSQL
	} else {
		cols, v := vpWrites(ms, keep, "q.Item", false)
		want = `INSERT INTO "items" AS t (` + cols + `) VALUES (` + v + `)` + retSQL
	}
	vpSame03(rt, want)
	vpAssert(res == nil, "a successful query returns an error")
	vpCheckRecords(q, ms, returned, slice, field)
	vpReach("inserted")
}

func vpSame03(rt *vpRT, want string) {
	got := vpBoundSQL(rt.calls[0])
	vpObs("sent", got)
	vpObs("want", vpSQL(want))
	vpAssert(got == vpSQL(want), "the columns and values of a query are not the declared ones")
}

// Update: what an UPDATE by primary key writes and returns.
func VP_N03_Update() { vpUpdate03(vpShape()) }

func vpUpdate03(ms []*vpMember) {
	slice := vpBool()
	ptr := vpPtrElem(ms)
	ret, retSQL, returned := vpReturning(ms, vpChoose(3))
	elem := "Item"
	if ptr {
		elem = "*Item"
	}
	rel := "Item " + elem + " `rel:\"items:t\"`"
	if slice {
		rel = "Items []" + elem + " `rel:\"items:t\"`"
	}
	keep := func(m *vpMember) bool { return !m.noUpd }
	n := 0
	for _, m := range ms {
		if keep(m) {
			n++
		}
	}
	if n == 0 {
		vpSkip()
	}
	p := vpGenerate(vpItems(), vpRecord(ms)+vpQ("type UpdateQ", rel, ret), "UpdateQ")
	rt := &vpRT{nrows: 2, slices: vpSliceLens03}
	q, res := p.exec(rt, "UpdateQ")
	field := "Item"
	var want string
	if !slice {
		cols, vals := vpWrites(ms, keep, "q.Item", false)
		if n == 1 {
			want = `UPDATE "items" AS t SET ` + cols + ` = ` + vals
		} else {
			want = `UPDATE "items" AS t SET (` + cols + `) = (` + vals + `)`
		}
		want += ` WHERE t."id" = {q.Item.Id}` + retSQL
	} else {
		field = "Items"
		cols, set := "", ""
		for _, m := range ms {
			if !keep(m) {
				continue
			}
			if cols != "" {
				cols, set = cols+", ", set+", "
			}
			cols += `"` + m.k().col + `"`
			if m.def {
				set += "DEFAULT"
			} else {
				set += `x."` + m.k().col + `"`
			}
		}
		in := func(m *vpMember) bool { return keep(m) && !m.def }
		xcols, v0 := vpWrites(ms, in, "q.Items[0]", true)
		_, v1 := vpWrites(ms, in, "q.Items[1]", true)
		for _, m := range ms {
			if m.pk && !in(m) {
				if xcols != "" {
					xcols, v0, v1 = xcols+", ", v0+", ", v1+", "
				}
				xcols, v0, v1 = xcols+`"id"`, v0+"{q.Items[0].Id}", v1+"{q.Items[1].Id}"
			}
		}
		if n == 1 {
			want = `UPDATE "items" AS t SET ` + cols + ` = ` + set
		} else {
			want = `UPDATE "items" AS t SET (` + cols + `) = (` + set + `)`
		}
		want += ` FROM (VALUES (` + v0 + `), (` + v1 + `)) AS x (` + xcols + `) WHERE t."id" = x."id"::integer` + retSQL
	}
	vpSame03(rt, want)
	vpAssert(res == nil, "a successful query returns an error")
	vpCheckRecords(q, ms, returned, slice, field)
	vpReach("updated")
}

// Select: what a SELECT reads.
func VP_N03_Select() { vpSelect03(vpShape()) }

func vpSelect03(ms []*vpMember) {
	slice := vpBool()
	ptr := vpPtrElem(ms)
	elem := "Item"
	if ptr {
		elem = "*Item"
	}
	rel := "Item " + elem + " `rel:\"items:t\"`"
	tail := " LIMIT 1"
	if slice {
		rel, tail = "Items []"+elem+" `rel:\"items:t\"`", ""
	}
	cols := ""
	var returned []*vpMember
	for _, m := range ms {
		if m.readable() {
			if cols != "" {
				cols += ", "
			}
			cols += m.read()
			returned = append(returned, m)
		}
	}
	p := vpGenerate(vpItems(), vpRecord(ms)+vpQ("type SelectQ", rel), "SelectQ")
	rt := &vpRT{nrows: 2, slices: func(path string) int {
		if path == "q.Items" {
			return 0
		}
		return -1
	}}
	q, res := p.exec(rt, "SelectQ")
	vpSame03(rt, "SELECT "+cols+` FROM "items" AS t`+tail)
	vpAssert(res == nil, "a successful query returns an error")
	field := "Item"
	if slice {
		field = "Items"
	}
	vpCheckRead(q, returned, slice, field)
	vpReach("selected")
}

// vpCheckRead checks the records a query read.
func vpCheckRead(q *vpCell, returned []*vpMember, slice bool, field string) {
	for i := 0; i < 2; i++ {
		rec := q.v.(*vpStruct).fields[field].v
		if slice {
			s, ok := rec.(*vpSlice)
			if !ok || len(s.elems) != 2 {
				vpAssert(false, "the rows are not kept")
				return
			}
			rec = s.elems[i].v
		}
		if p, ok := rec.(vpPtr); ok {
			rec = p.to.v
		}
		st, ok := rec.(*vpStruct)
		if !ok {
			vpAssert(false, "a record is lost")
			return
		}
		for _, m := range returned {
			got := vpDump(m.field(st))
			vpObs("field", m.name+": "+got)
			vpAssert(got == m.scanned(i+1), "a column does not end up in its field")
		}
		if !slice {
			return
		}
	}
}

// Places: fields with options within structs within structs.
func VP_N03_Places() {
	m := &vpMember{name: "F"}
	o := vpChoose(vpOptions)
	vpOption(m, o)
	d := vpChoose(vpBound("depth of a nested field", 3, 4))
	m.at = []string{"S.", "S.T.", "S.T.U.", "S.T.U.V."}[d]
	m.embedded = vpBool()
	kinds := []int{1, 4, 6, 3}
	m.kind = kinds[(o+d)%4]
	if vpThorough() {
		m.kind = kinds[vpChoose(4)]
	}
	if m.coal == "'x'" {
		m.kind = 1
	}
	id := &vpMember{name: "Id", pk: true, opt: ",pk"}
	other := &vpMember{name: "G", kind: 0}
	if vpBool() {
		other.at, other.embedded = "W.", !m.embedded
	}
	ms := []*vpMember{id, other, m}
	if other.at == "" {
		ms = []*vpMember{other, id, m}
	}
	switch vpChoose(3) {
	case 0:
		vpInsert03(ms)
	case 1:
		vpUpdate03(ms)
	case 2:
		m.ptr = vpBool()
		vpSelect03(ms)
	}
	vpReach("places")
}

// Directives: the directives of a query that choose what is written.
func VP_N03_Directives() {
	id := &vpMember{name: "Id", pk: true, opt: ",pk"}
	a := &vpMember{name: "A", kind: 0}
	b := &vpMember{name: "B", kind: 1}
	g := &vpMember{name: "G", kind: 6}
	ms := []*vpMember{id, a, b, g}
	vpOption(b, vpChoose(4))
	update := vpBool()
	slice := vpBool()
	dir := ""
	switch vpChoose(4) {
	case 1:
		dir = "_ gosql.Default `sql:\"*\"`\n"
		for _, m := range ms {
			m.def = true
		}
	case 2:
		dir = "_ gosql.Default `sql:\"t.b\"`\n"
		b.def = true
	case 3:
		dir = "_ gosql.Default `sql:\"t.id,t.g\"`\n"
		id.def, g.def = true, true
	}
	switch vpChoose(3) {
	case 1:
		dir += "_ gosql.Force `sql:\"*\"`\n"
		b.noIns, b.noUpd, b.wo = false, false, false
	case 2:
		dir += "_ gosql.Force `sql:\"t.b\"`\n"
		b.noIns, b.noUpd, b.wo = false, false, false
	}
	ret, retSQL, returned := vpReturning(ms, vpChoose(2))
	over := ""
	if !update {
		switch vpChoose(3) {
		case 1:
			dir += "_ gosql.Override `sql:\"system\"`\n"
			over = " OVERRIDING SYSTEM VALUE"
		case 2:
			dir += "_ gosql.Override `sql:\"user\"`\n"
			over = " OVERRIDING USER VALUE"
		}
	}
	rel, field := "Item Item `rel:\"items:t\"`", "Item"
	if slice {
		rel, field = "Items []Item `rel:\"items:t\"`", "Items"
	}
	name, keep := "InsertQ", func(m *vpMember) bool { return !m.noIns }
	where, cond := "", ""
	if update {
		name, keep = "UpdateQ", func(m *vpMember) bool { return !m.noUpd }
		if slice {
			vpSkip()
		}
		cond = ` WHERE t."id" = {q.Item.Id}`
		if vpBool() {
			where, cond = "Where struct { Old int `sql:\"t.id\"` }", ` WHERE t."id" = {q.Where.Old}`
		}
	}
	p := vpGenerate(vpItems(), vpRecord(ms)+vpQ("type "+name, rel, dir, where, ret), name)
	rt := &vpRT{nrows: 2, slices: vpSliceLens03}
	q, _ := p.exec(rt, name)
	var want string
	if update {
		cols, vals := vpWrites(ms, keep, "q.Item", false)
		want = `UPDATE "items" AS t SET (` + cols + `) = (` + vals + `)` + cond + retSQL
	} else if slice {
		cols, v0 := vpWrites(ms, keep, "q.Items[0]", false)
		_, v1 := vpWrites(ms, keep, "q.Items[1]", false)
		want = `INSERT INTO "items" AS t (` + cols + `)` + over + ` VALUES (` + v0 + `), (` + v1 + `)` + retSQL
	} else {
		cols, v := vpWrites(ms, keep, "q.Item", false)
		want = `INSERT INTO "items" AS t (` + cols + `)` + over + ` VALUES (` + v + `)` + retSQL
	}
	vpSame03(rt, want)
	vpCheckRecords(q, ms, returned, slice, field)
	vpReach("directives")
}

// Conflict: what an INSERT does about conflicts.
func VP_N03_Conflict() {
	id := &vpMember{name: "Id", pk: true, opt: ",pk,ro", noIns: true}
	ms := []*vpMember{id, {name: "A", kind: 0}, {name: "B", kind: 1}, {name: "D", kind: 3}}
	vpOption(ms[3], vpChoose(3))
	slice := vpBool()
	ret, retSQL, _ := vpReturning(ms, vpChoose(2))
	decl, want := "", " ON CONFLICT"
	target := vpChoose(5)
	switch target {
	case 1:
		decl, want = "_ gosql.Column `sql:\"t.id\"`\n", want+" (id)"
	case 2:
		decl, want = "_ gosql.Column `sql:\"t.a,t.b\"`\n", want+" (a, lower(b)) WHERE g > 5"
	case 3:
		decl, want = "_ gosql.Index `sql:\"items_ab\"`\n", want+" (a, lower(b)) WHERE g > 5"
	case 4:
		decl, want = "_ gosql.Constraint `sql:\"items_uniq\"`\n", want+` ON CONSTRAINT "items_uniq"`
	}
	action := vpChoose(4)
	switch action {
	case 0:
		decl, want = decl+"_ gosql.Ignore\n", want+" DO NOTHING"
	case 1:
		decl, want = decl+"_ gosql.Update `sql:\"*\"`\n", want+` DO UPDATE SET`
		sep := " "
		for _, m := range ms {
			if !m.noIns {
				want += sep + `"` + m.k().col + `" = EXCLUDED."` + m.k().col + `"`
				sep = ", "
			}
		}
	case 2:
		decl, want = decl+"_ gosql.Update `sql:\"t.b\"`\n", want+` DO UPDATE SET "b" = EXCLUDED."b"`
	case 3:
		decl, want = decl+"_ gosql.Update `sql:\"t.b,t.a\"`\n", want+` DO UPDATE SET "b" = EXCLUDED."b", "a" = EXCLUDED."a"`
	}
	rel := "Item Item `rel:\"items:t\"`"
	if slice {
		rel = "Items []Item `rel:\"items:t\"`"
	}
	src := vpRecord(ms) + vpQ("type InsertQ", rel, "OnConflict struct {\n"+decl+"}", ret)
	if target == 0 && action > 0 {
		vpRejectedBy(vpItems(), src, "InsertQ", "an update on conflict is accepted without a conflict target")
		vpReach("no target")
		return
	}
	p := vpGenerate(vpItems(), src, "InsertQ")
	rt := &vpRT{nrows: 2, slices: vpSliceLens03}
	p.exec(rt, "InsertQ")
	keep := func(m *vpMember) bool { return !m.noIns }
	if slice {
		cols, v0 := vpWrites(ms, keep, "q.Items[0]", false)
		_, v1 := vpWrites(ms, keep, "q.Items[1]", false)
		want = `INSERT INTO "items" AS t (` + cols + `) VALUES (` + v0 + `), (` + v1 + `)` + want + retSQL
	} else {
		cols, v := vpWrites(ms, keep, "q.Item", false)
		want = `INSERT INTO "items" AS t (` + cols + `) VALUES (` + v + `)` + want + retSQL
	}
	vpSame03(rt, want)
	vpReach("conflict")
}

// Batch: the list of rows of an UPDATE beside the other relations of the query.
func VP_N03_Batch() {
	alias := []string{"t", "x", "X"}[vpChoose(3)]
	ids := []*vpMember{{name: "Id", pk: true, opt: ",pk,ro", noUpd: true}, {name: "A", kind: 0}, {name: "B", kind: 1}}
	from, fromSQL := "", ""
	joined := vpChoose(4)
	names := []string{alias}
	switch joined {
	case 1:
		from, fromSQL = "_ gosql.Relation `sql:\"items:r\"`", `"items" AS r`
	case 2:
		from, fromSQL = "_ gosql.Relation `sql:\"items:r\"`\n_ gosql.LeftJoin `sql:\"x,x.id = r.g\"`", `"items" AS r LEFT JOIN "x" ON x."id" = r."g"`
		names = append(names, "x")
	case 3:
		from, fromSQL = "_ gosql.Relation `sql:\"x\"`\n_ gosql.CrossJoin `sql:\"items:r\"`", `"x" CROSS JOIN "items" AS r`
		names = append(names, "x")
	}
	if joined > 1 && alias != "t" {
		vpSkip() // two relations of the same name
	}
	if joined > 0 {
		from, fromSQL = "From struct {\n"+from+"\n}", fromSQL+", "
	}
	p := vpGenerate(vpItems(), vpRecord(ids)+vpQ("type UpdateQ", "Items []Item `rel:\"items:"+alias+"\"`", from), "UpdateQ")
	rt := &vpRT{nrows: 2, slices: vpSliceLens03}
	p.exec(rt, "UpdateQ")
	got := vpBoundSQL(rt.calls[0])
	ok := false
	for _, x := range []string{"x", "xx", "y", "v"} { // the name of the list is anything that is not taken
		taken := false
		for _, n := range names {
			taken = taken || n == x || n == "X" && x == "x"
		}
		want := vpSQL(`UPDATE "items" AS ` + alias + ` SET ("a", "b") = (` + x + `."a", ` + x + `."b") FROM ` + fromSQL +
			`(VALUES ({q.Items[0].A}::text, NULLIF({q.Items[0].B}, '')::text, {q.Items[0].Id}), ({q.Items[1].A}::text, NULLIF({q.Items[1].B}, '')::text, {q.Items[1].Id})) AS ` +
			x + ` ("a", "b", "id") WHERE ` + alias + `."id" = ` + x + `."id"::integer`)
		vpObs("want", want)
		ok = ok || !taken && got == want
	}
	vpObs("sent", got)
	vpAssert(ok, "the list of rows of an update is not a relation of its own")
	vpReach("batch")
}

// Keys: the rows an UPDATE changes are those of the whole primary key, however many columns it has.
func VP_N03_Keys() {
	names := []string{"a", "b", "c", "d"}
	nk := 1 + vpChoose(3)
	db := vpDatabase()
	var cols []*postgres.Column
	for i, name := range names {
		c := vpColumn(name, vpInt4)
		c.HasNotNull, c.IsPrimary = true, i < nk
		cols = append(cols, c)
	}
	vpTable(db, []analysis.RelIdent{{Name: "keyed", Alias: "t"}}, cols...)
	first := vpChoose(len(names)) // where the record begins
	back := vpBool()
	ro := vpBool() // the key is not written
	slice := vpBool()
	var order []int
	for i := range names {
		k := (first + i) % len(names)
		if back {
			k = (first + len(names) - i) % len(names)
		}
		order = append(order, k)
	}
	src := "\nimport \"github.com/frk/gosql\"\nvar _ gosql.Conn\ntype Item struct {\n"
	for _, k := range order {
		opt := ""
		if k < nk && ro {
			opt = ",ro"
		}
		src += strings.ToUpper(names[k]) + " int32 `sql:\"" + names[k] + opt + "\"`\n"
	}
	src += "}\n"
	rel := "Item Item `rel:\"keyed:t\"`"
	if slice {
		rel = "Items []Item `rel:\"keyed:t\"`"
	}
	list := func(s, sep, item string) string {
		if s != "" {
			s += sep
		}
		return s + item
	}
	var set, vals, xcols, row, where string
	for _, k := range order {
		if k < nk && ro {
			continue
		}
		set = list(set, ", ", `"`+names[k]+`"`)
		xcols = list(xcols, ", ", `"`+names[k]+`"`)
		if slice {
			vals = list(vals, ", ", `x."`+names[k]+`"`)
			row = list(row, ", ", "{q.Items[#]."+strings.ToUpper(names[k])+"}::integer")
		} else {
			vals = list(vals, ", ", "{q.Item."+strings.ToUpper(names[k])+"}")
		}
	}
	for _, k := range order {
		if k >= nk {
			continue
		}
		if ro {
			xcols = list(xcols, ", ", `"`+names[k]+`"`)
			row = list(row, ", ", "{q.Items[#]."+strings.ToUpper(names[k])+"}")
		}
		if slice {
			where = list(where, " AND ", `t."`+names[k]+`" = x."`+names[k]+`"::integer`)
		} else {
			where = list(where, " AND ", `t."`+names[k]+`" = {q.Item.`+strings.ToUpper(names[k])+`}`)
		}
	}
	if strings.Contains(set, ",") {
		set, vals = "("+set+")", "("+vals+")"
	}
	want := `UPDATE "keyed" AS t SET ` + set + ` = ` + vals
	if slice {
		want += ` FROM (VALUES (` + strings.ReplaceAll(row, "#", "0") + `), (` + strings.ReplaceAll(row, "#", "1") + `)) AS x (` + xcols + `)`
	}
	want += ` WHERE ` + where
	p := vpGenerate(db, src+vpQ("type UpdateQ", rel), "UpdateQ")
	rt := &vpRT{nrows: 2, slices: vpSliceLens03}
	_, res := p.exec(rt, "UpdateQ")
	vpSame03(rt, want)
	vpAssert(res == nil, "a successful query returns an error")
	vpReach("keys")
}
