package generator

//vp:export internal/postgres

import (
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres"
)

// What is generated for any declaration that is accepted compiles, and nothing of
// the tool panics.

// vpAccepts generates the code of the declared types, if they are accepted.
func vpAccepts(p *vpProgram, names ...string) bool {
	p.load()
	vpObs("source", p.src)
	db := vpItems08()
	var err error
	vpAssert(!vpPanics(func() { err = p.analyse(db, names...) }), "the analysis of a declaration panics")
	if err != nil {
		vpReach("rejected")
		return false
	}
	p.generate()
	vpReach("accepted")
	return true
}

const vpLib08 = `package lib
type Item struct {
	Id int ` + "`sql:\"id,pk\"`" + `
	A string ` + "`sql:\"a\"`" + `
}
type Gen[T any] struct {
	Id int ` + "`sql:\"id,pk\"`" + `
	A T ` + "`sql:\"a\"`" + `
}
type Sub struct {
	A string ` + "`sql:\"a\"`" + `
	b string ` + "`sql:\"b\"`" + `
}
type GSub[T any] struct { A T ` + "`sql:\"a\"`" + ` }
type hidden struct { A string ` + "`sql:\"a\"`" + ` }
type Hid struct { H *hidden ` + "`sql:\">\"`" + ` }
type HidV struct { H hidden ` + "`sql:\">\"`" + ` }
type Shown = hidden
type HidA struct { H *Shown ` + "`sql:\">\"`" + ` }
type Anon struct { H *struct { A string ` + "`sql:\"a\"`; x int" + ` } ` + "`sql:\">\"`" + ` }
type Anon2 struct { H *struct { A string ` + "`sql:\"a\"`" + ` } ` + "`sql:\">\"`" + ` }
type It interface { Next(*Item) error }
type Fn func(*Item) error
type FnHid func(*hidden) error
type ItHid interface { next(*Item) error }
type Items []*Item
type HidItems []*hidden
type HidAlias = *hidden
`

const vpTypes08 = `import "github.com/frk/gosql"
var _ gosql.Conn
type Item struct {
	Id int ` + "`sql:\"id,pk\"`" + `
	A string ` + "`sql:\"a\"`" + `
}
type Gen[T any] struct {
	Id int ` + "`sql:\"id,pk\"`" + `
	A T ` + "`sql:\"a\"`" + `
}
type ItemAlias = Item
type ItemPtr = *Item
type Def Item
type PtrDef *Item
type Named []Item
type NamedP []*Item
type Arr [2]Item
type Fn func(*Item) error
type It interface { Next(Item) error }
type GIt[T any] interface { Next(*T) error }
type GFn[T any] func(T) error
type GSlice[T any] []T
type Both interface { It; Other() }
type Embeds interface { It }
type Sub struct { A string ` + "`sql:\"a\"`" + ` }
type GSub[T any] struct { A T ` + "`sql:\"a\"`" + ` }
type SubAlias = Sub
type SubPtr = *Sub
type SubDef *Sub
`

// vpNew08 begins a program with the types that are made use of.
func vpNew08(use string) *vpProgram {
	p := vpNew("")
	p.extra["example.com/lib"] = vpLib08
	p.src = vpTypes08
	if strings.Contains(use, "lib.") {
		p.src = "import \"example.com/lib\"\n" + p.src
	}
	return p
}

// vpListed generates the code of a declaration whose code is not known to compile.
func vpListed(p *vpProgram, name, msg string) {
	p.load()
	vpObs("source", p.src)
	if p.analyse(vpItems08(), name) != nil {
		vpReach("rejected")
		return
	}
	p.write()
	vpReach("accepted")
	vpAssert(p.compile(), msg)
}

// Arrays: records in arrays.
func VP_N08_Arrays() {
	p := vpNew08("")
	typ := []string{"[2]Item", "[2]*Item", "Arr"}[vpChoose(3)]
	vpListed(p, vpQuery08(p, typ), "the code for records in an array does not compile")
}

// Hidden: pointers to types that another package keeps to itself.
func VP_N08_Hidden() {
	typ := []string{"lib.FnHid", "lib.HidItems", "lib.HidAlias", "[]*lib.Hid", "lib.Hid", "func(lib.Hid) error", "[]lib.Anon"}[vpChoose(7)]
	p := vpNew08("lib.")
	vpListed(p, vpQuery08(p, typ), "the code for pointers to types that cannot be named does not compile")
}

// Relations: records of any type.
func VP_N08_Relations() {
	anon := "struct { Id int `sql:\"id,pk\"`; A string `sql:\"a\"` }"
	menu := []string{"Item", "*Item", "[]Item", "[]*Item", "func(Item) error", "func(*Item) error", "func(v Item) (err error)", "It", "Named", "NamedP", "Fn",
		"ItemAlias", "*ItemAlias", "[]ItemAlias", "ItemPtr", "[]ItemPtr", "Def", "[]*Def", "PtrDef", "[]PtrDef", "Gen[string]", "*Gen[string]", "[]Gen[string]", "[]*Gen[string]", "func(*Gen[string]) error",
		"GIt[Item]", "GIt[Gen[string]]", "GFn[*Item]", "GFn[Gen[string]]", "GSlice[Item]", "GSlice[*Gen[string]]", "Both", "Embeds",
		anon, "*" + anon, "[]" + anon, "[]*" + anon, "func(" + anon + ") error", "lib.Item", "*lib.Item", "[]*lib.Item", "[]lib.Item", "lib.Gen[Item]", "[]*lib.Gen[string]", "[]lib.Gen[lib.Sub]",
		"lib.It", "lib.Fn", "func(lib.Item) error", "lib.ItHid", "lib.Items", "*lib.Shown", "[]lib.Shown",
		"interface { Next(*Item) error }", "interface { next(Item) error }", "interface { Next(Item) }", "interface { Next(*Item) error; More() }", "**Item", "[][]Item", "[]**Item", "map[string]Item", "chan Item", "func(...Item) error", "func(Item)", "func() error", "error", "string", "interface{}"}
	typ := menu[vpChoose(len(menu))]
	p := vpNew08(typ)
	vpAccepts(p, vpQuery08(p, typ))
}

// vpQuery08 declares a query, or a filter, with records of the given type.
func vpQuery08(p *vpProgram, typ string) string {
	p.cfg.MethodWithContext.Value = vpThorough() && vpBool()
	name := ""
	switch vpChoose(10) {
	case 0:
		name = "SelectQ"
		p.src += vpQ("type "+name, "Rel "+typ+" `rel:\"items:t\"`")
	case 1:
		name = "InsertQ"
		p.src += vpQ("type "+name, "Rel "+typ+" `rel:\"items:t\"`")
	case 2:
		name = "InsertQ"
		p.src += vpQ("type "+name, "Rel "+typ+" `rel:\"items:t\"`", "_ gosql.Return `sql:\"*\"`")
	case 3:
		name = "UpdateQ"
		p.src += vpQ("type "+name, "Rel "+typ+" `rel:\"items:t\"`")
	case 4:
		name = "UpdateQ"
		p.src += vpQ("type "+name, "Rel "+typ+" `rel:\"items:t\"`", "_ gosql.Return `sql:\"t.id\"`", "_ gosql.All")
	case 5:
		name = "DeleteQ"
		p.src += vpQ("type "+name, "Rel "+typ+" `rel:\"items:t\"`", "_ gosql.Return `sql:\"*\"`", "_ gosql.All")
	case 6:
		name = "InsertQ"
		p.src += vpQ("type "+name, "Rel []Item `rel:\"items:t\"`", "Result "+typ)
	case 7:
		name = "DeleteQ"
		p.src += vpQ("type "+name, "_ gosql.Relation `rel:\"items:t\"`", "Result "+typ, "_ gosql.All")
	case 8:
		name = "FilterQ"
		p.src += vpQ("type "+name, "Rel "+typ+" `rel:\"items:t\"`", "gosql.FilterConstructor")
	case 9:
		name = "UpdateQ"
		p.src += vpQ("type "+name, "Rel *Item `rel:\"items:t\"`", "Result "+typ)
	}
	return name
}

// Records: structs of any types within records.
func VP_N08_Records() {
	sub := "struct { A string `sql:\"a\"` }"
	menu := []string{"S Sub", "S *Sub", "Sub", "*Sub", "S " + sub, "S *" + sub, "S GSub[string]", "S *GSub[string]", "GSub[string]", "*GSub[*string]", "SubAlias", "*SubAlias", "SubPtr", "S SubPtr", "S SubDef",
		"lib.Sub", "*lib.Sub", "S *lib.Sub", "S lib.GSub[string]", "S *lib.GSub[string]", "*lib.GSub[string]", "*lib.Shown", "S *lib.Shown", "lib.Shown", "lib.HidV", "S *lib.HidV", "S lib.HidA", "S lib.Anon2",
		"S []Sub", "S **Sub", "S map[string]Sub", "_ Sub", "s *Sub", "S [1]Sub", "S interface{}", "S func()"}
	f := menu[vpChoose(len(menu))]
	p := vpNew08(f)
	f += " `sql:\">\"`"
	switch vpChoose(vpBound("structs around them", 3, 5)) {
	case 1:
		f = "T *struct {\n" + f + "\n} `sql:\">\"`"
	case 2:
		f = "*Out `sql:\">\"`\n}\ntype Out struct {\n" + f
	case 3:
		f = "T struct {\n" + f + "\n} `sql:\">\"`"
	case 4:
		f = "O *GOut[int] `sql:\">\"`\n}\ntype GOut[T any] struct {\n" + f
	}
	p.src += "type Rec struct {\nId int `sql:\"id,pk\"`\n" + f + "\n}\n"
	rel := []string{"[]*Rec", "Rec"}[vpChoose(2)]
	name := ""
	switch vpChoose(5) {
	case 0:
		name = "SelectQ"
		p.src += vpQ("type "+name, "Rel "+rel+" `rel:\"items:t\"`")
	case 1:
		name = "InsertQ"
		p.src += vpQ("type "+name, "Rel "+rel+" `rel:\"items:t\"`", "_ gosql.Return `sql:\"*\"`")
	case 2:
		name = "UpdateQ"
		p.src += vpQ("type "+name, "Rel "+rel+" `rel:\"items:t\"`", "_ gosql.Return `sql:\"*\"`")
	case 3:
		name = "DeleteQ"
		p.src += vpQ("type "+name, "_ gosql.Relation `rel:\"items:t\"`", "Result "+rel, "_ gosql.All")
	case 4:
		name = "FilterQ"
		p.src += vpQ("type "+name, "Rel "+rel+" `rel:\"items:t\"`", "gosql.FilterConstructor")
	}
	vpAccepts(p, name)
}

// vpItems08 is the database with the table items (t).
func vpItems08() *postgres.DB {
	db := vpDatabase()
	id, a, b, n := vpColumn("id", vpInt4), vpColumn("a", vpText), vpColumn("b", vpText), vpColumn("n", vpInt4)
	id.IsPrimary, id.HasDefault = true, true
	b.HasNotNull, n.HasNotNull = false, false
	r := vpTable(db, []analysis.RelIdent{{Name: "items", Alias: "t"}, {Name: "items"}, {Name: "items", Alias: "x"}}, id, a, b, n, vpColumn("d", vpTextArr), vpColumn("j", vpJSONB))
	r.Indexes = append(r.Indexes, &postgres.Index{Name: "items_pkey", IsUnique: true, IsPrimary: true, Key: []int16{1}, Expression: "id"})
	return db
}

// Parts: queries with parts of any shape.
func VP_N08_Parts() {
	blank := []string{"A", "_", "a"}
	names := func(s string) []string {
		var out []string
		for _, n := range blank {
			out = append(out, strings.Replace(s, "$", n, -1))
		}
		return out
	}
	var conds []string
	for _, c := range []string{"$ string `sql:\"t.a\"`", "$ *string `sql:\"t.b >\"`", "$ []int `sql:\"t.n isin\"`", "$ [3]int `sql:\"t.n isin\"`", "$ []int `sql:\"t.n = any\"`", "$ struct {} `sql:\">\"`",
		"$ struct { B string `sql:\"t.b\"` } `sql:\">\"`", "$ struct { _ string `sql:\"t.b\"` } `sql:\">\"`", "$ struct { B struct { C string `sql:\"t.b\"` }; D int `sql:\"t.n\"` } `sql:\">\"`", "$ struct { B struct { }; D int `sql:\"t.n\"` } `sql:\">\"`",
		"$ struct { X int `sql:\"x\"`; Y int `sql:\"y\"` } `sql:\"t.n isbetween\"`", "$ struct { _ int `sql:\"x\"`; Y int `sql:\"y\"` } `sql:\"t.n isbetween\"`", "$ struct { _ gosql.Column `sql:\"t.id,x\"`; Y int `sql:\"y\"` } `sql:\"t.n isbetween\"`",
		"$ Cond `sql:\">\"`", "$ *Cond `sql:\">\"`", "$ GCond[string] `sql:\">\"`", "$ lib.Cond `sql:\">\"`", "$ GArr[int] `sql:\"t.n isin\"`", "$ map[string]int `sql:\"t.j\"`", "$ []string `sql:\"t.d\"`", "$ func() `sql:\"t.a\"`", "$ interface{} `sql:\"t.a\"`"} {
		conds = append(conds, names(c)...)
	}
	conds = append(conds, "_ gosql.Column `sql:\"t.a = t.b\"`", "_ gosql.Column `sql:\"t.b isnull\"`", "gosql.Column `sql:\"t.b isnull\"`", "Cond `sql:\">\"`", "*Cond `sql:\"t.a\"`", "lib.Cond `sql:\">\"`", "GCond[int] `sql:\">\"`", "*Cond `sql:\">\"`")
	parts := []string{"Limit int", "Limit *int", "Limit uint8", "Limit int `sql:\"5\"`", "_ gosql.Limit `sql:\"5\"`", "Offset int", "Offset int64 `sql:\"0\"`", "_ gosql.OrderBy `sql:\"-t.a:nullsfirst,t.id\"`",
		"RowsAffected int", "RowsAffected *int", "RowsAffected uint8", "RowsAffected Num", "_ gosql.Relation `rel:\"items:x\"`",
		"Result []*Item", "Where Cond", "Where *Cond", "Where lib.Cond", "Where GCond[string]", "Where struct{}", "Count int `rel:\"items:t\"`"}
	for _, t := range []string{"context.Context", "gosql.Filter", "*Filter", "Filter", "lib.Filter", "*lib.Filter", "gosql.ErrorHandler", "*Handler", "Handler", "lib.Handler", "*lib.Handler", "gosql.ErrorInfoHandler", "gosql.FilterConstructor"} {
		for _, n := range []string{"F ", "_ ", "f ", ""} {
			parts = append(parts, n+t)
		}
	}
	part, cond := "", ""
	if vpBool() {
		cond = conds[vpChoose(len(conds))]
		part = "Where struct {\n\t" + cond + "\n\t}"
		if vpThorough() && vpBool() {
			part = "Where struct {\n\tZ int `sql:\"t.id\"`\n\tand\n\t" + cond + "\n\t}"
		}
	} else {
		part = parts[vpChoose(len(parts))]
	}
	p := vpNew08(part)
	p.cfg.MethodWithContext.Value = vpThorough() && vpBool()
	p.extra["example.com/lib"] = "package lib\ntype Cond struct {\n\tA string `sql:\"t.a\"`\n\tb string `sql:\"t.b\"`\n}\ntype Filter struct{}\nfunc (*Filter) ToSQL(int) (string, []interface{})\ntype Handler struct{}\nfunc (*Handler) HandleError(error) error\n"
	p.src += "type Cond struct {\n\tA string `sql:\"t.a\"`\n\tb string `sql:\"t.b\"`\n}\ntype GCond[T any] struct { A T `sql:\"t.a\"` }\ntype GArr[T any] []T\ntype Num int16\n" +
		"type Filter struct{}\nfunc (*Filter) ToSQL(int) (string, []interface{})\ntype Handler struct{}\nfunc (*Handler) HandleError(error) error\n"
	if strings.Contains(part, "context.") {
		p.src = "import \"context\"\n" + p.src
	}
	name := ""
	switch vpChoose(7) {
	case 0:
		name = "SelectQ"
		p.src += vpQ("type "+name, "Rel []*Item `rel:\"items:t\"`", part)
	case 1:
		name = "SelectQ"
		if strings.HasPrefix(part, "Count") {
			vpSkip()
		}
		p.src += vpQ("type "+name, "Count int `rel:\"items:t\"`", part)
	case 2:
		name = "InsertQ"
		p.src += vpQ("type "+name, "Rel *Item `rel:\"items:t\"`", part)
	case 3:
		name = "UpdateQ"
		p.src += vpQ("type "+name, "Rel *Item `rel:\"items:t\"`", part)
	case 4:
		name = "DeleteQ"
		p.src += vpQ("type "+name, "_ gosql.Relation `rel:\"items:t\"`", part)
	case 5:
		name = "FilterQ"
		p.src += vpQ("type "+name, "Rel Item `rel:\"items:t\"`", part)
	case 6:
		name = "UpdateQ"
		p.src += vpQ("type "+name, "Rel []Item `rel:\"items:t\"`", part)
	}
	if vpAccepts(p, name) {
		vpAssert(!strings.Contains(strings.Replace(p.text, "IN ()", "", -1), " ()`"), "a group without conditions is sent")
	}
}

// Named: parts of the names that cannot be used, or that are used otherwise.
func VP_N08_Named() {
	rel := []string{"Rel", "_", "rel", "", "q", "Exec", "Where", "Limit", "Count", "Result"}[vpChoose(10)]
	typ := []string{"Item", "*Item", "[]*Item", "func(Item) error", "Named", "int", "bool"}[vpChoose(7)]
	if rel == "" {
		vpAssume(typ == "Item" || typ == "*Item" || typ == "Named")
	}
	ret := []string{"", "_ gosql.Return `sql:\"*\"`", "Result Item", "Result []*Item", "result *Item", "_ []*Item", "RESULT func(Item) error", "ROWSAFFECTED int", "rowsAffected int", "LIMIT int", "limit uint", "OFFSET int", "WHERE Cond", "JOIN struct{}", "Using struct{}", "From struct{}", "OnConflict struct{}", "Count int", "NotExists bool"}
	result := ret[0]
	if vpThorough() {
		result = ret[vpChoose(len(ret))]
	} else if rel == "Rel" {
		result = ret[vpChoose(len(ret))]
	} else {
		result = ret[vpChoose(4)]
	}
	name := []string{"SelectQ", "InsertQ", "UpdateQ", "DeleteQ", "FilterQ", "selectQ", "insertQ"}[vpChoose(7)]
	p := vpNew08("")
	p.src += "type Cond struct { A string `sql:\"t.a\"` }\n"
	all := ""
	if name == "FilterQ" {
		all = "gosql.FilterConstructor"
	} else if name == "UpdateQ" || name == "DeleteQ" {
		all = "_ gosql.All"
	}
	if n := strings.Split(result, " "); n[0] == rel && rel != "_" || name != "FilterQ" && rel == "Exec" {
		vpSkip() // no Go
	}
	p.src += vpQ("type "+name, rel+" "+typ+" `rel:\"items:t\"`", all, result)
	vpAccepts(p, name)
}

// Text: the texts of a query that are the user's, or the database's, to choose.
func VP_N08_Text() {
	n := vpBound("bytes of text", 2, 3)
	text := vpString(n)
	for i := 0; i < n; i++ {
		c := text[i]
		vpAssume(c != '{') // the model's own mark of an argument
		vpAssume(vpOr(vpAnd(c >= ' ', c < 0x7f), c == '\n', c == '\r', c == '\t'))
	}
	db := vpItems08()
	name, src := "InsertQ", ""
	change := func(*vpProgram) {}
	rt := &vpRT{nrows: 1}
	switch vpChoose(4) {
	case 0: // the expression of an index
		idx := &postgres.Index{Name: "items_a", IsUnique: true, Key: []int16{2}, Expression: "a || '" + text + "'"}
		r := postgres.VPCatalog(db).Relations[analysis.RelIdent{Name: "items"}]
		r.Indexes = append(r.Indexes, idx)
		src = vpQ("type "+name, "Rel Item `rel:\"items:t\"`", "OnConflict struct {\n_ gosql.Index `sql:\"items_a\"`\n_ gosql.Ignore\n}")
	case 1: // the predicate of an index
		idx := &postgres.Index{Name: "items_a", IsUnique: true, Key: []int16{2}, Expression: "a", Predicate: "a <> '" + text + "'"}
		r := postgres.VPCatalog(db).Relations[analysis.RelIdent{Name: "items"}]
		r.Indexes = append(r.Indexes, idx)
		src = vpQ("type "+name, "Rel Item `rel:\"items:t\"`", "OnConflict struct {\n_ gosql.Index `sql:\"items_a\"`\n_ gosql.Ignore\n}")
	case 2: // a literal
		name = "SelectQ"
		lit := "'" + text + "'"
		change = func(p *vpProgram) {
			for _, w := range p.tis[0].Where {
				if c, ok := w.(*postgres.ColumnConditional); ok {
					c.RHSColIdent, c.RHSLiteral = analysis.ColIdent{}, lit
				}
			}
		}
		src = vpQ("type "+name, "Rel Item `rel:\"items:t\"`", "Where struct {\n_ gosql.Column `sql:\"t.a = t.b\"`\n}")
	case 3: // a default of a column that is read
		for i := 0; i < n; i++ {
			c := text[i]
			vpAssume(vpAnd(c >= ' ', c != ',', c != '(', c != ')', c != '"', c != '\\'))
		}
		name = "SelectQ"
		src = "type Rec struct { A string \"sql:\\\"b,coalesce('" + text + "')\\\"\" }\n" + vpQ("type "+name, "Rel Rec `rel:\"items:t\"`")
	}
	p := vpGenerateWith(db, vpTypes08+src, change, name)
	p.exec(rt, name)
	vpObs("sent", rt.calls[0].query)
	vpAssert(strings.Contains(rt.calls[0].query, "'"+text+"'"), "a text of the query is changed")
	vpReach("text")
}

// Targets: struct types of any kind with the name of a query or a filter.
func VP_N08_Targets() {
	name := []string{"SelectT", "insertT", "UPDATET", "Delete", "FilterT", "selector", "DeleteΩ", "Updated_1"}[vpChoose(8)]
	body := "struct {\n\tRel []*Item `rel:\"items:t\"`\n\t_ gosql.All\n}"
	if strings.HasPrefix(name, "F") {
		body = "struct {\n\tRel []*Item `rel:\"items:t\"`\n\tgosql.FilterConstructor\n}"
	} else if name[0]|' ' == 's' || name[0]|' ' == 'i' {
		body = "struct {\n\tRel []*Item `rel:\"items:t\"`\n}"
	}
	p := vpNew08("")
	switch vpChoose(6) {
	case 0:
		p.src += "type " + name + " " + body + "\n"
	case 1:
		p.src += "type " + name + "[T any] " + body + "\n"
	case 2:
		p.src += "type Base " + body + "\ntype " + name + " Base\n"
	case 3:
		p.src += "type Base " + body + "\ntype " + name + " struct { Base }\n"
	case 4:
		p.src += "type " + name + " struct{}\n"
	case 5:
		p.src += "type Base[T any] " + body + "\ntype " + name + " Base[int]\n"
	}
	vpAccepts(p, name)
}
