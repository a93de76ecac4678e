package search

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/packages"
)

// A model of the go command's packages. Natively the sources are written to a
// scratch directory and loaded from there.

type vpSource struct{ dir, name, text string }

var vpSources []vpSource

//vp:stub github.com/frk/gosql/internal/search.vpModule
func vpModuleModel(srcs []vpSource) string {
	vpSources = srcs
	return "/scratch"
}

// vpModule puts the sources in a module in a directory of its own.
func vpModule(srcs []vpSource) string {
	dir, err := os.MkdirTemp("", "vp")
	if err != nil {
		panic(err)
	}
	put := func(name, text string) {
		if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	put(dir+"/go.mod", "module example.com/m\n\ngo 1.23\n")
	for _, s := range srcs {
		put(filepath.Join(dir, s.dir, s.name), s.text)
	}
	return dir
}

//vp:stub github.com/frk/gosql/internal/search.vpRemove
func vpRemoveModel(dir string) {}

func vpRemove(dir string) { os.RemoveAll(dir) }

//vp:stub golang.org/x/tools/go/packages.Load
func vpLoad(cfg *packages.Config, patterns ...string) (out []*packages.Package, err error) {
	if cfg.Dir != "/scratch" || len(patterns) != 1 {
		return nil, errors.New("another directory")
	}
	var dirs []string
	switch patterns[0] {
	case ".":
		dirs = []string{""}
	case "./...":
		for _, s := range vpSources {
			if n := len(dirs); n == 0 || dirs[n-1] != s.dir {
				dirs = append(dirs, s.dir)
			}
		}
	default:
		return nil, errors.New("another pattern")
	}
	for _, d := range dirs {
		p := &packages.Package{PkgPath: "example.com/m", Module: &packages.Module{Path: "example.com/m", Main: true}, Fset: cfg.Fset}
		at := "/scratch/"
		if d != "" {
			p.PkgPath += "/" + d
			at += d + "/"
		}
		for _, s := range vpSources {
			if s.dir != d {
				continue
			}
			f, err := parser.ParseFile(cfg.Fset, at+s.name, s.text, parser.AllErrors|parser.ParseComments)
			if err != nil {
				return nil, err
			}
			p.Name = f.Name.Name
			p.Syntax = append(p.Syntax, f)
			p.CompiledGoFiles = append(p.CompiledGoFiles, at+s.name)
			p.GoFiles = append(p.GoFiles, at+s.name)
		}
		p.TypesInfo = &types.Info{Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Error: func(error) {}}
		p.Types, _ = conf.Check(p.PkgPath, cfg.Fset, p.Syntax, p.TypesInfo)
		out = append(out, p)
	}
	return out, nil
}
