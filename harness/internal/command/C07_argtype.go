package command

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/packages"
)

var vpPkgs map[string]string // sources of packages by their paths

// vpModule makes the directory a module with the given packages.
//
//vp:stub github.com/frk/gosql/internal/command.vpModule
func vpModuleModel(dir string, pkgs map[string]string) { vpPkgs = pkgs }

func vpModule(dir string, pkgs map[string]string) {
	vpPut(dir+"/go.mod", "module example.com/m\n\ngo 1.23\n")
	for path, src := range pkgs {
		d := filepath.Join(dir, path[len("example.com/m"):])
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
		vpPut(d+"/a.go", src)
	}
}

type vpImporter struct {
	fset *token.FileSet
	pkgs map[string]*types.Package
}

func (im vpImporter) Import(path string) (*types.Package, error) {
	if p := im.pkgs[path]; p != nil {
		return p, nil
	}
	src := vpPkgs[path]
	switch path {
	case "context":
		src = "package context\ntype Context interface { Err() error }\n"
	case "database/sql":
		src = "package sql\ntype Result interface { RowsAffected() (int64, error) }\ntype Row struct{}\ntype Rows struct{}\n"
	}
	f, err := parser.ParseFile(im.fset, path, src, 0)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: im}
	im.pkgs[path], err = conf.Check(path, im.fset, []*ast.File{f}, nil)
	return im.pkgs[path], err
}

//vp:stub golang.org/x/tools/go/packages.Load
func vpLoad(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if len(patterns) != 1 {
		return nil, errors.New("several patterns")
	}
	p := &packages.Package{PkgPath: patterns[0], Module: &packages.Module{Path: "example.com/m", Main: true}, Fset: token.NewFileSet(), TypesInfo: &types.Info{Defs: map[*ast.Ident]types.Object{}}}
	src, ok := vpPkgs[patterns[0]]
	if !ok { // the go command reports it in the package
		return []*packages.Package{p}, nil
	}
	f, err := parser.ParseFile(p.Fset, "a.go", src, 0)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: vpImporter{p.Fset, map[string]*types.Package{}}, Error: func(error) {}}
	p.Types, _ = conf.Check(patterns[0], p.Fset, []*ast.File{f}, p.TypesInfo)
	p.Name, p.Syntax = f.Name.Name, []*ast.File{f}
	return []*packages.Package{p}, nil
}

// The type of the generated methods' argument is accepted exactly when the generated
// code can call the methods of gosql.Conn on it.
func VP_C07_Argument() {
	dir := vpScratch()
	defer vpRemove(dir)
	dsn, stop := vpServe()
	defer stop()
	sigs := []struct{ name, sig string }{
		{"Exec", "(query string, args ...interface{}) (sql.Result, error)"},
		{"Query", "(query string, args ...interface{}) (*sql.Rows, error)"},
		{"QueryRow", "(query string, args ...interface{}) *sql.Row"},
		{"ExecContext", "(ctx context.Context, query string, args ...interface{}) (sql.Result, error)"},
		{"QueryContext", "(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)"},
		{"QueryRowContext", "(ctx context.Context, query string, args ...interface{}) *sql.Row"},
	}
	wrong := []string{"", "()", "(string, []interface{}) (sql.Result, error)", "(string, ...interface{}) error", "(string, ...string) (*sql.Rows, error)", "(context.Context, string, ...interface{})", "([]byte, ...interface{}) *sql.Row", "(string, ...interface{}) (*sql.Row, error)", "(context.Context, string, ...any) (int, error)"}
	ok := true
	kind := vpChoose(7)
	bad, how := vpChoose(len(sigs)+1), 0
	if bad < len(sigs) {
		ok = false
		how = vpChoose(len(wrong))
	}
	body := ""
	recv := []string{"func (T) ", "func (*T) ", "\t", "func (x *U) ", "func (T[P]) ", "func (u U) ", "\t"}[kind]
	for i, s := range sigs {
		sig := s.sig
		if i == bad {
			if how == 0 {
				continue
			}
			sig = wrong[how]
		}
		body += recv + s.name + sig
		if kind != 2 && kind != 6 {
			body += " { panic(0) }"
		}
		body += "\n"
	}
	name := "conn"
	src := "import (\n\"context\"\n\"database/sql\"\n)\nvar _ context.Context\nvar _ sql.Result\n"
	switch kind {
	case 0, 1:
		src += "type T struct{}\n" + body
	case 2:
		src += "type T interface {\n" + body + "}\n"
	case 3: // promoted
		src += "type (\nU struct{}\nT struct{ *U }\n)\n" + body
	case 4:
		src += "type T[P any] struct{}\n" + body
		ok = false
	case 5:
		src += "type U int\ntype T = U\n" + body
		name = "other"
	case 6:
		src += "type U interface {\n" + body + "}\ntype T interface { U; Close() error }\n"
	}
	ref := "example.com/m/x/conn.T"
	ptr := vpBool()
	if ptr {
		ref = "*" + ref
		if kind == 2 || kind == 6 {
			ok = false
		}
	}
	switch vpChoose(6) {
	case 1:
		ref, ok = "example.com/m/x/conn.V", false
	case 2:
		ref, ok = "example.com/m/y.T", false
	}
	vpModule(dir, map[string]string{"example.com/m/x/conn": "package " + name + "\n" + src})
	cfg := vpConfig(dir, dsn)
	vpAssert(cfg.MethodArgumentType.Set(ref) == nil, "a well-formed type is rejected")
	cmd, err := New(cfg)
	vpObs("source", src)
	vpAssert((err == nil) == ok, "a type that cannot be used is accepted, or another one rejected")
	if err != nil {
		vpReach("rejected")
		return
	}
	t := cmd.MethodArgumentType
	vpAssert(t.Name == "T" && t.PkgPath == "example.com/m/x/conn" && t.IsPtr == ptr, "another type is used")
	vpAssert(t.PkgName == name, "the package has another name")
	vpReach("accepted")
}
