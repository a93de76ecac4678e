package generator

//vp:export internal/postgres

import (
	"strconv"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres"
)

// Scan targets of nested records: each row's values arrive in a record of its own.

// vpTable04 is the database with the table nodes (t): columns c0, c1, …
func vpTable04() *postgres.DB {
	db := vpDatabase()
	id := vpColumn("id", vpInt4)
	id.IsPrimary = true
	cols := []*postgres.Column{id}
	for i := 0; i < 8; i++ {
		cols = append(cols, vpColumn("c"+strconv.Itoa(i), vpText))
	}
	vpTable(db, []analysis.RelIdent{{Name: "nodes", Alias: "t"}, {Name: "nodes"}}, cols...)
	return db
}

// vpNode is a nested field: how it is declared, and the fields in it.
type vpNode struct {
	name string // of the field and its type
	form int    // value, pointer, embedded value, embedded pointer
	tag  string
	leaf int // the number of the column in it
	kids []*vpNode
}

func (n *vpNode) typ() string { return "T" + n.name }

func (n *vpNode) field() string {
	if n.form >= 2 {
		return n.typ()
	}
	return n.name
}

func (n *vpNode) decl(pkg string) string {
	star := ""
	if n.form%2 == 1 {
		star = "*"
	}
	tag := " `sql:\">" + n.tag + "\"`\n"
	if n.form >= 2 {
		return star + pkg + n.typ() + tag
	}
	return n.name + " " + star + pkg + n.typ() + tag
}

// types declares the node's type and those of the nodes in it.
func (n *vpNode) types() string {
	s := ""
	for _, k := range n.kids {
		s += k.types()
	}
	s += "type " + n.typ() + " struct {\nX" + strconv.Itoa(n.leaf) + " string `sql:\"c" + strconv.Itoa(n.leaf) + "\"`\n"
	for _, k := range n.kids {
		s += k.decl("")
	}
	return s + "}\n"
}

// vpLeaves are the columns of a node in the order of declaration and the paths to their fields.
func (n *vpNode) leaves(path []string, add func(path []string, leaf int)) {
	path = append(append([]string{}, path...), n.field())
	add(append(append([]string{}, path...), "X"+strconv.Itoa(n.leaf)), n.leaf)
	for _, k := range n.kids {
		k.leaves(path, add)
	}
}

// vpForest is what a record contains; the names are chosen so that joined paths coincide.
func vpForest(forms int) []*vpNode {
	a := &vpNode{name: "A", form: vpChoose(forms), leaf: 1}
	ab := &vpNode{name: "AB", form: vpChoose(forms), leaf: 2}
	bc := &vpNode{name: "BC", form: vpChoose(forms), leaf: 3}
	c := &vpNode{name: "C", form: vpChoose(forms), leaf: 4}
	a.kids, ab.kids = []*vpNode{bc}, []*vpNode{c}
	if vpThorough() {
		d := &vpNode{name: "CTTD", form: vpChoose(forms), leaf: 5}
		e := &vpNode{name: "TTD", form: vpChoose(forms), leaf: 6}
		bc.kids, c.kids = []*vpNode{d}, []*vpNode{e}
	}
	if vpBool() {
		return []*vpNode{ab, a}
	}
	return []*vpNode{a, ab}
}

// vpCheckTree checks that the fields of a record hold the row.
func vpCheckTree(rec vpVal, forest []*vpNode, row int) {
	get := func(path []string) string {
		v := rec
		for _, name := range path {
			if p, ok := v.(vpPtr); ok {
				v = p.to.v
			}
			s, ok := v.(*vpStruct)
			if !ok {
				return "nil"
			}
			v = s.fields[name].v
		}
		return vpDump(v)
	}
	pre := "row" + strconv.Itoa(row) + ":t . "
	vpAssert(get([]string{"Id"}) == pre+`"id"`, "a column does not end up in its field")
	for _, n := range forest {
		n.leaves(nil, func(path []string, leaf int) {
			got := get(path)
			vpObs("got", got)
			vpAssert(got == pre+`"c`+strconv.Itoa(leaf)+`"`, "a column does not end up in its nested field")
		})
	}
}

// vpForestCols are the columns of the record, qualified.
func vpForestCols(forest []*vpNode) string {
	s := `t."id"`
	for _, n := range forest {
		n.leaves(nil, func(_ []string, leaf int) { s += `, t."c` + strconv.Itoa(leaf) + `"` })
	}
	return s
}

// vpOutput is a way to receive records: its declaration, the texts around the columns.
func vpOutput(kind int) (name, decl, head, tail string, many bool) {
	sel, from := "SELECT ", ` FROM "nodes" AS t`
	ins := `INSERT INTO "nodes" AS t ("id") VALUES ({q.In.Id}) RETURNING `
	switch kind {
	case 0:
		return "SelectQ", "Out Rec `rel:\"nodes:t\"`", sel, from + " LIMIT 1", false
	case 1:
		return "SelectQ", "Out *Rec `rel:\"nodes:t\"`", sel, from + " LIMIT 1", false
	case 2:
		return "SelectQ", "Out []Rec `rel:\"nodes:t\"`", sel, from, true
	case 3:
		return "SelectQ", "Out []*Rec `rel:\"nodes:t\"`", sel, from, true
	case 4:
		return "SelectQ", "Out func(*Rec) error `rel:\"nodes:t\"`", sel, from, true
	case 5:
		return "SelectQ", "Out func(Rec) error `rel:\"nodes:t\"`", sel, from, true
	case 6:
		return "SelectQ", "Out interface { Each(*Rec) error } `rel:\"nodes:t\"`", sel, from, true
	case 7:
		return "InsertQ", "In Key `rel:\"nodes:t\"`\nResult *Rec", ins, "", false
	case 8:
		return "InsertQ", "In *Key `rel:\"nodes:t\"`\nResult []*Rec", ins, "", true
	case 9:
		return "InsertQ", "In *Key `rel:\"nodes:t\"`\nResult []Rec", ins, "", true
	}
	return "DeleteQ", "Out []*Rec `rel:\"nodes:t\"`\n_ gosql.All\n_ gosql.Return `sql:\"*\"`", `DELETE FROM "nodes" AS t RETURNING `, "", true
}

func vpNested04(forest []*vpNode, imported bool) string {
	s := "import \"github.com/frk/gosql\"\nvar _ gosql.Conn\n"
	pkg := ""
	if imported {
		s, pkg = "import \"example.com/m\"\n"+s, "m."
	}
	s += "type Key struct { Id int `sql:\"id,pk\"` }\ntype Rec struct {\nId int `sql:\"id,pk\"`\n"
	for _, n := range forest {
		s += n.decl(pkg)
	}
	s += "}\n"
	if !imported {
		for _, n := range forest {
			s += n.types()
		}
	}
	return s
}

func VP_N04_Nested() {
	kind := vpChoose(11)
	forms := 2
	if kind == 3 {
		forms = 4
	}
	forest := vpForest(forms)
	imported := vpBool()
	name, decl, head, tail, many := vpOutput(kind)
	p := vpNew(vpNested04(forest, imported) + vpQ("type "+name, decl))
	if imported {
		src := "package m\n"
		for _, n := range forest {
			src += n.types()
		}
		p.extra["example.com/m"] = src
	}
	p.load()
	if err := p.analyse(vpTable04(), name); err != nil {
		vpObs("source", p.src)
		vpAssert(false, "a valid declaration is rejected")
		return
	}
	p.generate()
	rt := &vpRT{nrows: 2, nilPtrs: true, slices: func(string) int { return 0 }}
	if kind >= 7 && kind < 10 {
		rt.nilAt = func(path string) bool { return path != "q.In" }
		rt.nilPtrs = false
	}
	q, res := p.exec(rt, name)
	got := vpBoundSQL(rt.calls[0])
	want := vpSQL(head + vpForestCols(forest) + tail)
	vpObs("sent", got)
	vpObs("want", want)
	vpAssert(got == want, "a query does not return the columns of the record")
	vpAssert(res == nil, "a successful query returns an error")
	field := "Out"
	if name == "InsertQ" {
		field = "Result"
	}
	out := q.v.(*vpStruct).fields[field].v
	switch {
	case kind >= 4 && kind <= 6:
		vpAssert(len(rt.received) == 2, "a row is not handed to the iterator")
		for i, v := range rt.received {
			vpCheckTree(v, forest, i+1)
		}
		vpReach("iterator")
	case many:
		s, ok := out.(*vpSlice)
		vpAssert(ok && len(s.elems) == 2, "the rows are not collected")
		if !ok {
			return
		}
		for i, e := range s.elems {
			vpCheckTree(e.v, forest, i+1)
		}
		vpReach("many")
	default:
		vpCheckTree(out, forest, 1)
		vpReach("single")
	}
}

// Returned: an INSERT or UPDATE reads into the record it wrote, whose pointers to what is only read may be nil.
func VP_N04_Returned() {
	update, many := vpBool(), vpBool()
	ro := &vpNode{name: "R", form: vpChoose(4), leaf: 1}
	ro.kids = []*vpNode{{name: "S", form: vpChoose(2), leaf: 2}}
	rw := &vpNode{name: "W", form: vpChoose(2), leaf: 3}
	rw.kids = []*vpNode{{name: "V", form: vpChoose(2), leaf: 4}}
	ro.tag, rw.tag = ",ro", ""
	mixed := vpBool() // a part of what is written is only read
	if mixed {
		rw.kids[0].tag = ",ro"
	}
	forest := []*vpNode{ro, rw}
	nilled := vpBool()
	decl, field := "Out *Rec", "Out"
	if many {
		decl = "Out []*Rec"
	}
	name := "InsertQ"
	if update {
		name = "UpdateQ"
	}
	p := vpLoad(vpNested04(forest, false) + vpQ("type "+name, decl+" `rel:\"nodes:t\"`", "_ gosql.Return `sql:\"*\"`"))
	if err := p.analyse(vpTable04(), name); err != nil {
		vpObs("source", p.src)
		vpAssert(false, "a valid declaration is rejected")
		return
	}
	vpObs("source", p.src)
	p.generate()
	tail := func(s, suffix string) bool { return len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix }
	rt := &vpRT{nrows: 2, slices: func(string) int { return 2 }, nilAt: func(path string) bool {
		return nilled && (tail(path, "."+ro.field()) || tail(path, ".S") || mixed && tail(path, ".V"))
	}}
	q, res := p.exec(rt, name)
	vpAssert(res == nil, "a successful query returns an error")
	out := q.v.(*vpStruct).fields[field].v
	if !many {
		vpCheckTree(out, forest, 1)
		vpReach("single")
		return
	}
	s, ok := out.(*vpSlice)
	vpAssert(ok && len(s.elems) == 2, "the records are not kept")
	if ok {
		for i, e := range s.elems {
			vpCheckTree(e.v, forest, i+1)
		}
	}
	vpReach("many")
}

// Deep: nested structs beside one another at any depth.
func VP_N04_Deep() {
	depth := vpChoose(vpBound("depth of the nesting", 6, 8))
	form := vpChoose(4)
	leaf := 0
	node := func(name string, form int, kids ...*vpNode) *vpNode {
		leaf++
		return &vpNode{name: name, form: form, leaf: leaf - 1, kids: kids}
	}
	kids := []*vpNode{node("X", form), node("Y", 1), node("Z", vpChoose(2))}
	if depth == 0 || vpBool() {
		kids = kids[:2]
	}
	for i := 0; i < depth; i++ {
		f := 0
		if i == depth/2 {
			f = form
		}
		kids = []*vpNode{node("P"+strconv.Itoa(i), f, kids...)}
		if i == depth-1 && vpBool() { // another branch beside the deep one
			kids = append(kids, node("Q", 1))
		}
	}
	p := vpLoad(vpNested04(kids, false) + vpQ("type SelectQ", "Out []*Rec `rel:\"nodes:t\"`"))
	vpObs("source", p.src)
	db := vpTable04()
	for r := range postgres.VPCatalog(db).Relations {
		rel := postgres.VPCatalog(db).Relations[r]
		for i := len(rel.Columns) - 1; i < 16; i++ {
			c := vpColumn("c"+strconv.Itoa(i), vpText)
			c.Relation = rel
			rel.Columns = append(rel.Columns, c)
		}
	}
	if err := p.analyse(db, "SelectQ"); err != nil {
		vpAssert(false, "a valid declaration is rejected")
		return
	}
	p.generate()
	rt := &vpRT{nrows: 1, nilPtrs: true, slices: func(string) int { return 0 }}
	q, res := p.exec(rt, "SelectQ")
	got := vpBoundSQL(rt.calls[0])
	want := vpSQL("SELECT " + vpForestCols(kids) + ` FROM "nodes" AS t`)
	vpObs("sent", got)
	vpObs("want", want)
	vpAssert(got == want, "a query does not return the columns of the record")
	vpAssert(res == nil, "a successful query returns an error")
	s, ok := q.v.(*vpStruct).fields["Out"].v.(*vpSlice)
	vpAssert(ok && len(s.elems) == 1, "the rows are not collected")
	if ok && len(s.elems) == 1 {
		vpCheckTree(s.elems[0].v, kids, 1)
	}
	vpReach("deep")
}
