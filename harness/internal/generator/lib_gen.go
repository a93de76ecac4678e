package generator

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/postgres"
	"github.com/frk/gosql/internal/postgres/oid"
)

// vpStub is a package generated code uses, reduced to what src and its generated
// code need of it.
func (p *vpProgram) stub(path string) string {
	has := func(name string) bool { return strings.Contains(p.src, name) }
	switch path {
	case "context":
		return "package context\ntype Context interface { Err() error }\n"
	case "time":
		return "package time\ntype Time struct { wall uint64 }\n"
	case "database/sql":
		return `package sql
type Result interface { RowsAffected() (int64, error) }
type Row struct{}
func (*Row) Scan(...interface{}) error
type Rows struct{}
func (*Rows) Next() bool
func (*Rows) Scan(...interface{}) error
func (*Rows) Err() error
func (*Rows) Close() error
`
	case "github.com/frk/gosql/filter":
		return `package filter
type Column struct { Name string; ConvertValue func(interface{}) (interface{}, error); IsNULLable bool }
`
	case "github.com/frk/gosql/pgsql":
		return `package pgsql
func JSON(interface{}) interface{}
func Int4ArrayFromIntSlice([]int) interface{}
func Int4ArrayToIntSlice(*[]int) interface{}
func TextArrayFromStringSlice([]string) interface{}
func BPCharFromByte(byte) interface{}
func BPCharFromRune(rune) interface{}
func UUIDFromByteArray16([16]byte) interface{}
func TextArrayToStringSlice(*[]string) interface{}
func AnyToEmptyInterface(*interface{}) interface{}
`
	case "github.com/frk/gosql":
		src := `
type Conn interface {
	Exec(string, ...interface{}) (sql.Result, error)
	Query(string, ...interface{}) (*sql.Rows, error)
	QueryRow(string, ...interface{}) *sql.Row
`
		if p.cfg.MethodWithContext.Value || has("Context") {
			src = `import "context"` + src + `
	ExecContext(context.Context, string, ...interface{}) (sql.Result, error)
	QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error)
	QueryRowContext(context.Context, string, ...interface{}) *sql.Row
`
		}
		src += `}
type directive struct { _isdir struct{} }
func InValueList(num, pos int) string
var OrdinalParameters [65535]string
`
		for _, d := range []string{"All", "Relation", "Column", "Default", "Force", "Return", "Limit", "Offset", "OrderBy", "Override", "TextSearch",
			"Index", "Constraint", "Ignore", "Update", "CrossJoin", "InnerJoin", "LeftJoin", "RightJoin", "FullJoin", "Optional"} {
			if has("gosql." + d) {
				src += "type " + d + " directive\n"
			}
		}
		if has("gosql.Filter") {
			src += "type Filter interface { ToSQL(int) (string, []interface{}) }\n"
		}
		if has("FilterConstructor") {
			src = `import "github.com/frk/gosql/filter"` + src + `
type FilterConstructor interface {
	Init(map[string]string, string)
	InitV2(map[string]filter.Column, string)
	Col(string, string, interface{})
	And(func())
	Or(func())
}
`
		}
		if has("ErrorHandler") {
			src += "type ErrorHandler interface { HandleError(error) error }\n"
		}
		if has("ErrorInfo") {
			src += `type ErrorInfoHandler interface { HandleErrorInfo(*ErrorInfo) error }
type ErrorInfo struct { Error error; QueryString, QueryKind, QueryName string; QueryValue interface{} }
`
		}
		return "package gosql\nimport \"database/sql\"\n" + src
	}
	return ""
}

// vpProgram is the source of a user's package together with the packages it imports.
type vpProgram struct {
	fset  *token.FileSet
	pkgs  map[string]*types.Package
	path  string
	src   string
	extra map[string]string // the packages the user's package imports
	file  *ast.File
	pkg   *types.Package
	cfg   config.Config
	out   *ast.File // the generated file
	gen   *types.Package
	text  string
	infos []*analysis.Info
	tis   []*postgres.TargetInfo
}

func (p *vpProgram) Import(path string) (*types.Package, error) {
	if pkg := p.pkgs[path]; pkg != nil {
		return pkg, nil
	}
	src := p.extra[path]
	if src == "" {
		src = p.stub(path)
	}
	if src == "" {
		return nil, vpError("no such package")
	}
	f, err := parser.ParseFile(p.fset, path, src, 0)
	vpAssert(err == nil, "a stub does not parse")
	pkg, err := p.check(path, f)
	vpAssert(err == nil, "a stub does not compile")
	p.pkgs[path] = pkg
	return pkg, nil
}

type vpError string

func (e vpError) Error() string { return string(e) }

func (p *vpProgram) check(path string, files ...*ast.File) (*types.Package, error) {
	conf := types.Config{Importer: p}
	return conf.Check(path, p.fset, files, nil)
}

var vpSeq int

// vpLoad compiles the user's source: the declarations of package db.
func vpLoad(src string) *vpProgram {
	p := vpNew(src)
	p.load()
	return p
}

func vpNew(src string) *vpProgram {
	vpSeq++ // the analysis caches types by their package's path
	p := &vpProgram{fset: token.NewFileSet(), pkgs: map[string]*types.Package{}, extra: map[string]string{}, cfg: config.DefaultConfig}
	p.path = "example.com/app" + strconv.Itoa(vpSeq) + "/db"
	p.src = src
	return p
}

func (p *vpProgram) load() {
	f, err := parser.ParseFile(p.fset, "user.go", "package db\n"+p.src, 0)
	vpAssert(err == nil, "the model's source does not parse")
	p.file = f
	p.pkg, err = p.check(p.path, f)
	vpAssert(err == nil, "the model's source does not compile")
}

// analyse runs the tool's first two steps for the named types.
func (p *vpProgram) analyse(db *postgres.DB, names ...string) error {
	for _, name := range names {
		named := p.pkg.Scope().Lookup(name).Type().(*types.Named)
		info, err := analysis.Run(p.fset, named, named.Obj().Pos(), p.cfg)
		if err != nil {
			return err
		}
		ti, err := postgres.Check(db, info.Struct, info)
		if err != nil {
			return err
		}
		p.infos = append(p.infos, info)
		p.tis = append(p.tis, ti)
	}
	return nil
}

// generate runs the last step and compiles the result.
func (p *vpProgram) generate() {
	p.write()
	ok := p.compile()
	vpAssert(ok, "the generated code does not compile")
	if !ok {
		vpSkip()
	}
}

func (p *vpProgram) write() {
	var b bytes.Buffer
	var err error
	ok := !vpPanics(func() { err = Write(&b, "db", p.tis, p.cfg) })
	vpAssert(ok, "generating the code panics")
	if !ok {
		vpSkip()
	}
	vpAssert(err == nil, "generating the code fails")
	p.text = b.String()
	vpObs("generated", p.text)
}

// compile compiles the generated code.
func (p *vpProgram) compile() bool {
	f, err := parser.ParseFile(p.fset, "db_gosql.go", p.text, 0)
	if err != nil {
		vpObs("parse", err.Error())
		return false
	}
	p.out = f
	p.gen, err = p.check(p.path, p.file, f)
	if err != nil {
		vpObs("compile", err.Error())
	}
	return err == nil
}

// method finds a generated method.
func (p *vpProgram) method(typ, name string) *ast.FuncDecl {
	for _, d := range p.out.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == name && fd.Recv != nil {
			if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
				if id, ok := st.X.(*ast.Ident); ok && id.Name == typ {
					return fd
				}
			}
		}
	}
	vpAssert(false, "a method is not generated")
	vpSkip()
	return nil
}

// The types and tables of the model database.

var (
	vpInt4    = &postgres.Type{OID: oid.Int4, Name: "int4", NameFmt: "integer", Length: 4, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryNumeric}
	vpText    = &postgres.Type{OID: oid.Text, Name: "text", NameFmt: "text", Length: -1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryString}
	vpBoolean = &postgres.Type{OID: oid.Bool, Name: "bool", NameFmt: "boolean", Length: 1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryBoolean}
	vpUUID    = &postgres.Type{OID: oid.UUID, Name: "uuid", NameFmt: "uuid", Length: 16, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryUserdefined}
	vpJSONB   = &postgres.Type{OID: oid.JSONB, Name: "jsonb", NameFmt: "jsonb", Length: -1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryUserdefined}
	vpTSV     = &postgres.Type{OID: oid.TSVector, Name: "tsvector", NameFmt: "tsvector", Length: -1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryUserdefined}
	vpInt4Arr = &postgres.Type{OID: oid.Int4Arr, Name: "_int4", NameFmt: "integer[]", Length: -1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryArray, Elem: oid.Int4}
	vpTextArr = &postgres.Type{OID: oid.TextArr, Name: "_text", NameFmt: "text[]", Length: -1, Type: postgres.TypeTypeBase, Category: postgres.TypeCategoryArray, Elem: oid.Text}
)

func vpDatabase() *postgres.DB {
	db := postgres.VPDatabase(vpInt4, vpText, vpBoolean, vpUUID, vpJSONB, vpTSV, vpInt4Arr, vpTextArr)
	ops := postgres.VPCatalog(db).Operators
	for _, t := range []*postgres.Type{vpInt4, vpText, vpBoolean, vpUUID} {
		for _, name := range []string{"=", "<>", "<", ">", "<=", ">=", "~~", "!~~", "~~*", "!~~*", "~", "!~", "~*", "!~*"} {
			ops[postgres.OpKey{Name: name, Left: t.OID, Right: t.OID}] = &postgres.Operator{}
		}
	}
	return db
}

func vpColumn(name string, t *postgres.Type) *postgres.Column {
	return &postgres.Column{Name: name, Type: t, TypeMod: -1, HasNotNull: true}
}

// vpTable adds a table to the database, known by the given identifiers.
func vpTable(db *postgres.DB, ids []analysis.RelIdent, cols ...*postgres.Column) *postgres.Relation {
	r := &postgres.Relation{OID: 1000, Name: ids[0].Name, Schema: "public", RelKind: postgres.RelKindOrdinaryTable}
	for i, c := range cols {
		c.Num = int16(i + 1)
		c.Relation = r
		c.TypeOID = c.Type.OID
		r.Columns = append(r.Columns, c)
	}
	for _, id := range ids {
		postgres.VPCatalog(db).Relations[id] = r
	}
	return r
}
