package generator

//vp:export internal/postgres

import (
	"go/ast"
	"go/types"
	"strconv"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/postgres"
)

// Imports of generated files: the code compiles whatever the packages are called
// that the user's types come from, and every name means the package intended.

// vpPkg is a package types are taken from.
type vpPkg struct{ path, name string }

// vpPkgSource declares the types every such package has. The packages' types are
// alike, so that only the type checker can tell them apart.
func vpPkgSource(name string) string {
	return "package " + name + "\n" + `
type T struct { A int ` + "`sql:\"a\"`" + ` }
type R struct { Id int ` + "`sql:\"id,pk\"`" + `; N *T ` + "`sql:\">\"`" + `; B int ` + "`sql:\"b\"`" + ` }
`
}

// vpMoreTypes are the types fields of filters have.
const vpMoreTypes = `
type E int
type Conv E
type hidden struct { X int }
type Alias = hidden
type G[P any] struct { V P }
func Fn(interface{}) (interface{}, error)
`

// vpConn is the part of a package source that declares a connection type.
const vpConn = `
type Conn interface { conn }
type Impl struct { Conn }
type conn interface {
	Exec(string, ...interface{}) (sql.Result, error)
	Query(string, ...interface{}) (*sql.Rows, error)
	QueryRow(string, ...interface{}) *sql.Row
	ExecContext(context.Context, string, ...interface{}) (sql.Result, error)
	QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error)
	QueryRowContext(context.Context, string, ...interface{}) *sql.Row
}
`

func vpThings() *postgres.DB {
	db := vpDatabase()
	id := vpColumn("id", vpInt4)
	id.IsPrimary = true
	vpTable(db, []analysis.RelIdent{{Name: "things", Alias: "t"}, {Name: "things"}},
		id, vpColumn("a", vpInt4), vpColumn("b", vpInt4), vpColumn("j", vpJSONB), vpColumn("n", vpTextArr))
	return db
}

// vpImporting is a set of targets that use what the packages p and q declare, the
// library's packages and, with context, the standard library's.
func vpImporting(ps []vpPkg) (src string, names []string) {
	src = "import \"github.com/frk/gosql\"\nvar _ gosql.Conn\n"
	rec := "type Rec struct {\n\tId int `sql:\"id,pk\"`\n\tJ map[string]int `sql:\"j\"`\n\tN []string `sql:\"n\"`\n"
	cols := []string{"a", "b"}
	for i, p := range ps {
		n := strconv.Itoa(i)
		src = "import p" + n + " \"" + p.path + "\"\n" + src
		if i < len(cols) {
			rec += "\tF" + n + " *p" + n + ".T `sql:\">\"`\n"
		}
	}
	src += rec + "}\n"
	add := func(name, body string) {
		names = append(names, name)
		src += "type " + name + " struct {\n" + body + "}\n"
	}
	add("SelectSlice", "\tRel []*Rec `rel:\"things:t\"`\n")
	for i := range ps {
		n := strconv.Itoa(i)
		if len(ps) > 2 {
			add("SelectIter"+n, "\tRel func(*p"+n+".R) error `rel:\"things:t\"`\n")
			continue
		}
		add("SelectR"+n, "\tRel []*p"+n+".R `rel:\"things:t\"`\n\tWhere struct { Ids []int `sql:\"id isin\"` }\n")
		if i > 0 {
			continue
		}
		add("SelectOne"+n, "\tRel *p"+n+".R `rel:\"things:t\"`\n\tErr gosql.ErrorInfoHandler\n")
		add("SelectIter"+n, "\tRel func(*p"+n+".R) error `rel:\"things:t\"`\n")
		add("InsertR"+n, "\tRel []*p"+n+".R `rel:\"things\"`\n\t_ gosql.Return `sql:\"*\"`\n")
	}
	return src, names
}

// vpSingle runs a choice of the targets of vpImporting, in either order.
func vpCheckImports(ps []vpPkg, change func(p *vpProgram)) {
	src, names := vpImporting(ps)
	p := vpNew(src)
	for _, k := range ps {
		p.extra[k.path] = vpPkgSource(k.name)
	}
	change(p)
	p.load()
	if vpBool() {
		for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
			names[i], names[j] = names[j], names[i]
		}
	}
	err := p.analyse(vpThings(), names...)
	vpObs("source", p.src)
	vpAssert(err == nil, "a valid declaration is rejected")
	if err != nil {
		return
	}
	p.generate()
	vpImportsOnce(p)
	vpReach("compiled")
}

func vpWithConn(src string) string {
	for i := 0; i < len(src); i++ {
		if src[i] == '\n' {
			return src[:i] + "\nimport \"context\"\nimport \"database/sql\"" + src[i:] + vpConn
		}
	}
	return src
}

// vpImportsOnce checks that no package is imported under two names.
func vpImportsOnce(p *vpProgram) {
	seen := map[string]bool{}
	for _, s := range p.out.Imports {
		vpAssert(!seen[s.Path.Value], "a package is imported twice")
		seen[s.Path.Value] = true
		vpAssert(s.Name == nil || s.Name.Name != "." && s.Name.Name != "_", "a package is imported without a name")
	}
}

// vpNames are package names that mean something else to the generated code, or may.
var vpNames = []string{
	"m", "m1", "gosql", "pgsql", "context", "filter", "sql", "time",
	"q", "c", "v", "i", "f", "op", "val", "nest", "err", "row", "rows", "res", "i64", "params", "pos", "ctx",
	"queryString", "filterString", "nstatic", "len1", "pos1", "pos2", "len12",
	"string", "new", "nil", "append", "len", "make", "error", "true", "int64",
}

// Reserved: one package of every such name.
func VP_N05_Reserved() {
	name := vpNames[vpChoose(len(vpNames))]
	ctx := vpBool()
	vpCheckImports([]vpPkg{{"example.com/" + name, name}}, func(p *vpProgram) {
		p.cfg.MethodWithContext.Value = ctx
	})
}

// Colliding: packages that share a name, or have a name another would be given.
func VP_N05_Colliding() {
	names := []string{"m", "m1", "m2", "gosql", "pgsql", "gosql1"}
	if vpThorough() {
		names = append(names, "context", "len", "len1", "c1")
	}
	n := vpBound("packages", 3, 4)
	var ps []vpPkg
	for i := 0; i < n; i++ {
		k := names[vpChoose(len(names))]
		ps = append(ps, vpPkg{"example.com/p" + strconv.Itoa(i) + "/" + k, k})
	}
	vpCheckImports(ps, func(p *vpProgram) {})
}

// Paths: the name of a package need not be in its path, or its path a name.
func VP_N05_Paths() {
	paths := []vpPkg{{"example.com/go-m", "m"}, {"m", "n"}, {"example.com/gosql/v2", "gosql"}, {"example.com/context", "n"}, {"n", "context"}, {"example.com/x", "pgsql"}, {"example.com/2", "len"}, {"example.com/m", "m"}, {"example.com/m/v2", "m"}, {"example.com/M", "m"}}
	ps := []vpPkg{paths[vpChoose(len(paths))]}
	if k := paths[vpChoose(len(paths))]; k != ps[0] {
		ps = append(ps, k)
	}
	ctx := vpBool()
	vpCheckImports(ps, func(p *vpProgram) { p.cfg.MethodWithContext.Value = ctx })
}

// Argument: the configured type of the connection.
func VP_N05_Argument() {
	conns := []vpPkg{{"example.com/conn", "m"}, {"example.com/gosql", "gosql"}, {"context2", "context"}, {"example.com/c", "c"}, {"example.com/go-m", "m"}, {"", ""}}
	k := conns[vpChoose(len(conns))]
	ps := []vpPkg{{"example.com/a/m", "m"}}
	ctx, ptr := vpBool(), vpBool()
	var prog *vpProgram
	vpCheckImports(ps, func(p *vpProgram) {
		prog = p
		p.cfg.MethodWithContext.Value = ctx
		typ := "Conn"
		if ptr {
			typ = "Impl"
		}
		src := vpPkgSource(k.name)
		if k.path == "" { // declared by the package itself
			k.path = p.path
			p.src = "import \"context\"\nimport \"database/sql\"\n" + p.src + vpConn
			k.name = "db"
		} else {
			p.extra[k.path] = vpWithConn(src)
		}
		p.cfg.MethodArgumentType = config.GoType{Name: typ, PkgPath: k.path, PkgName: k.name, IsPtr: ptr}
	})
	if prog.gen == nil {
		return
	}
	fd := prog.method("SelectSlice", prog.cfg.MethodName.Value)
	params := fd.Type.Params.List
	want := k.path + ".Conn"
	if ptr {
		want = "*" + k.path + ".Impl"
	}
	vpAssert(len(params) > 0 && vpTypeOf(prog, "SelectSlice", prog.cfg.MethodName.Value, -1) == want, "the connection is not of the configured type")
	if ctx {
		vpAssert(vpTypeOf(prog, "SelectSlice", prog.cfg.MethodName.Value, 0) == "context.Context", "the context is not a context")
	}
	vpReach("argument")
}

// vpTypeOf is the type of the i-th parameter of a generated method (-1: the last).
func vpTypeOf(p *vpProgram, typ, method string, i int) string {
	ms := types.NewMethodSet(types.NewPointer(p.gen.Scope().Lookup(typ).Type()))
	sel := ms.Lookup(p.gen, method)
	if sel == nil {
		return "no method"
	}
	params := sel.Type().(*types.Signature).Params()
	if i < 0 {
		i += params.Len()
	}
	return types.TypeString(params.At(i).Type(), nil)
}

// Filter: the values a filter's methods take are those of the fields.
func VP_N05_Filter() {
	forms := []string{"p0.E", "p1.E", "*p0.E", "[]p1.E", "map[p0.E]p1.E", "*[]*p1.E", "p0.Alias", "Local", "*Local", "[]Local", "struct{ X p0.E }", "*struct{ X int }",
		"func(p0.E) p1.E", "interface{ M(p1.E) }", "interface{}", "*interface{}", "[2]p0.E", "chan p1.E", "p0.G[p1.E]", "p0.G[Local]", "*p0.G[*p1.E]", "LocalG[p1.E]",
		"byte", "[]rune", "any", "error", "LocalAlias", "*PtrAlias", "PtrAlias"}
	a, b := forms[vpChoose(len(forms))], forms[vpChoose(2)]
	if vpBool() {
		a, b = b, a
	}
	i := vpChoose(3)
	ps := [][2]vpPkg{
		{{"example.com/a/m", "m"}, {"example.com/b/m", "m"}},
		{{"example.com/f", "f"}, {"example.com/val", "val"}},
		{{"example.com/op", "string"}, {"example.com/x", "op"}},
	}[i]
	v2 := ""
	if vpBool() {
		v2 = " `filter:\"v2\"`"
	}
	src := "import p0 \"" + ps[0].path + "\"\nimport p1 \"" + ps[1].path + "\"\nimport \"github.com/frk/gosql\"\nvar _ gosql.Conn\nvar _ p0.E\nvar _ p1.E\n" +
		"type Local struct { X int }\ntype LocalG[P any] struct { V P }\ntype LocalAlias = p1.E\ntype PtrAlias = *p0.E\n" +
		"type Rec struct {\n\tA " + a + " `sql:\"j\" json:\"a\"`\n\tN struct {\n\t\tB " + b + " `sql:\"j\" json:\"b\"`\n\t} `sql:\">\"`\n}\n" +
		"type FilterOne struct {\n\t_ Rec `rel:\"things:t\"`\n\tgosql.FilterConstructor" + v2 + "\n}\n" +
		"type FilterTwo struct {\n\t_ Rec `rel:\"things:t\"`\n\tgosql.FilterConstructor\n}\n"
	p := vpNew(src)
	for _, k := range ps {
		p.extra[k.path] = "package " + k.name + vpMoreTypes
	}
	p.load()
	err := p.analyse(vpThings(), "FilterOne", "FilterTwo")
	vpObs("source", p.src)
	if err != nil {
		vpReach("rejected") // not every type can be read from the column
		return
	}
	p.generate()
	vpImportsOnce(p)
	rec := p.gen.Scope().Lookup("Rec").Type().Underlying().(*types.Struct)
	nested := rec.Field(1).Type().Underlying().(*types.Struct)
	for _, f := range []string{"FilterOne", "FilterTwo"} {
		vpAssert(vpTakes(p, f, "A", rec.Field(0).Type()), "a filter method does not take the field's values")
		vpAssert(vpTakes(p, f, "NB", nested.Field(0).Type()), "a filter method does not take a nested field's values")
	}
	vpReach("filter")
}

// vpTakes reports whether a generated method takes values of the type, or of the
// type it points to.
func vpTakes(p *vpProgram, typ, method string, want types.Type) bool {
	if ptr, ok := types.Unalias(want).(*types.Pointer); ok {
		want = ptr.Elem()
	}
	got := vpTypeOf(p, typ, method, -1)
	return got == types.TypeString(want, nil) || got == "interface{}" && vpUnnamed(want)
}

// vpUnnamed: types that cannot be written in the generated file.
func vpUnnamed(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && !n.Obj().Exported()
}

// Converters: the function that converts the values of a filter comes from a
// package of which only the path is known.
func VP_N05_Converters() {
	pkgs := []vpPkg{{"example.com/m", "m"}, {"example.com/go-m", "m"}, {"example.com/x/v2", "m"}, {"example.com/filter", "filter"}, {"example.com/string", "string"}, {"example.com/2m", "m"}, {"m.n", "m"}}
	k := pkgs[vpChoose(len(pkgs))]
	local := vpBool()
	src := "import p0 \"" + k.path + "\"\nimport \"github.com/frk/gosql\"\nvar _ gosql.Conn\n" +
		"type Rec struct {\n\tA p0.Conv `sql:\"a\" json:\"a\"`\n}\n" +
		"func conv(interface{}) (interface{}, error)\n" +
		"type FilterOne struct {\n\t_ Rec `rel:\"things:t\"`\n\tgosql.FilterConstructor `filter:\"v2\"`\n}\n"
	if vpBool() {
		src += "type filter int\n"
	}
	p := vpNew(src)
	p.extra[k.path] = "package " + k.name + vpMoreTypes
	fn := config.ObjectIdent{PkgPath: k.path, Name: "Fn"}
	if local {
		fn = config.ObjectIdent{PkgPath: p.path, Name: "conv"}
	}
	p.cfg.FilterValueConverters = []config.FilterValueConverter{{Type: config.ObjectIdent{PkgPath: k.path, Name: "Conv"}, Func: fn}}
	p.load()
	_ = analysis.AnalyzeFilterValueConverters(p.cfg)
	err := p.analyse(vpThings(), "FilterOne")
	vpObs("source", p.src)
	vpAssert(err == nil, "a valid declaration is rejected")
	if err != nil {
		return
	}
	p.generate()
	vpImportsOnce(p)
	found := false
	ast.Inspect(p.out, func(n ast.Node) bool {
		if kv, ok := n.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok && id.Name == "ConvertValue" {
				found = true
			}
		}
		return true
	})
	vpAssert(found, "the converter of a filter's values is not used")
	vpReach("converted")
}

// Letters: a package whose name is any letters.
func VP_N05_Letters() {
	n := vpChoose(vpBound("letters of a package's name", 2, 3)) + 1
	name := vpString(n)
	for i := 0; i < n; i++ {
		vpAssume(vpAnd(name[i] >= 'a', name[i] <= 'z'))
	}
	vpAssume(vpAnd(name != "if", name != "go", name != "for", name != "var", name != "map"))
	vpCheckImports([]vpPkg{{"example.com/p", name}, {"example.com/q", name}}, func(p *vpProgram) {})
}
