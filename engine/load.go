package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Engine holds the loaded program and everything shared by the workers.
type Engine struct {
	repo      string
	module    string
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // repo packages by path
	cfns      sync.Map
	bodies    sync.Map
	tmu       sync.Mutex
	tmap      typeutil.Map
	tcache    sync.Map
	imps      sync.Map
	meths     sync.Map
	methsN    sync.Map
	gmu       sync.Mutex
	gidx      map[*ssa.Global]int
	bmu       sync.Mutex
	built     map[*ssa.Package]bool
	rtErrType types.Type

	tier          string
	seed          int64
	workers       int
	maxSteps      int64
	solverBin     string
	solverTimeout int
	nSample       int
	known         func(harness, msg string) bool
	loadWall      float64
	stubs         map[string]*ssa.Function // models of functions by the functions' names
}

type harnessFile struct {
	dir   string // package directory relative to the repository
	path  string // file under /verif/harness
	pkg   string
	funcs []string
}

var reFunc = regexp.MustCompile(`(?m)^func (VP_([A-Z]\d\d)_\w+)\(\)`)

// reStub: a harness's model of a function that cannot be interpreted: //vp:stub FUNCTION
var reStub = regexp.MustCompile(`(?m)^//vp:stub (\S+)\nfunc (\w+)\(`)

var reExport = regexp.MustCompile(`(?m)^//vp:export (\S+)`)

// reParams: a table of a package's functions of one parameter with that
// parameter's type, read from the current source: //vp:params DIR NAME
var reParams = regexp.MustCompile(`(?m)^//vp:params (\S+) (\w+)`)

// paramTable is the source of the table's declaration.
func paramTable(repo, dir, pkg, name string) ([]byte, error) {
	fset := token.NewFileSet()
	files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	if err != nil {
		return nil, err
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nvar %s = map[string]string{\n", pkg, name)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !fd.Name.IsExported() || fd.Type.Params.NumFields() != 1 || fd.Type.TypeParams.NumFields() != 0 {
				continue
			}
			fmt.Fprintf(&b, "\t%q: %q,\n", fd.Name.Name, types.ExprString(fd.Type.Params.List[0].Type))
		}
	}
	b.WriteString("}\n")
	return []byte(b.String()), nil
}

// harnessFiles lists the harness files of a property plus the shared ones.
func harnessFiles(root, prop string) (map[string][]harnessFile, error) {
	out := map[string][]harnessFile{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		base := filepath.Base(p)
		dir := rel
		if rel == "root" {
			dir = "."
		}
		if rel == "api" {
			return nil
		}
		isLib := strings.HasPrefix(base, "lib")
		if !isLib && !strings.HasPrefix(base, prop+"_") && base != prop+".go" {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		hf := harnessFile{dir: dir, path: p}
		m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(src)
		if m == nil {
			return fmt.Errorf("%s: no package clause", p)
		}
		hf.pkg = string(m[1])
		for _, f := range reFunc.FindAllSubmatch(src, -1) {
			if string(f[2]) == prop {
				hf.funcs = append(hf.funcs, string(f[1]))
			}
		}
		out[dir] = append(out[dir], hf)
		return nil
	})
	if err != nil {
		return nil, err
	}
	for d, l := range out {
		n := 0
		for _, h := range l {
			n += len(h.funcs)
		}
		if n == 0 {
			delete(out, d)
		}
	}
	return out, nil
}

// overlayFiles produces the files injected into the repository's packages: path -> content.
func overlayFiles(repo, root string, hs map[string][]harnessFile) (map[string][]byte, error) {
	ov := map[string][]byte{}
	api, err := os.ReadFile(filepath.Join(root, "api", "api.go"))
	if err != nil {
		return nil, err
	}
	var dirs []string
	for d := range hs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		var reg strings.Builder
		pkg := hs[d][0].pkg
		for _, h := range hs[d] {
			src, err := os.ReadFile(h.path)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(repo, d, "zz_vp_"+filepath.Base(h.path))] = src
			for _, f := range h.funcs {
				fmt.Fprintf(&reg, "\t%q: %s,\n", f, f)
			}
		}
		a := strings.Replace(string(api), "package api", "package "+pkg, 1)
		ov[filepath.Join(repo, d, "zz_vp_api.go")] = []byte(a)
		for _, h := range hs[d] {
			// a harness may need access to another package: //vp:export DIR[:PREFIX]
			src, err := os.ReadFile(h.path)
			if err != nil {
				return nil, err
			}
			for _, m := range reParams.FindAllSubmatch(src, -1) {
				src, err := paramTable(repo, string(m[1]), pkg, string(m[2]))
				if err != nil {
					return nil, err
				}
				ov[filepath.Join(repo, d, "zz_vp_params_"+string(m[2])+".go")] = src
			}
			for _, m := range reExport.FindAllSubmatch(src, -1) {
				dir, prefix, ok := strings.Cut(string(m[1]), ":")
				if !ok {
					prefix = "export"
				}
				files, _ := filepath.Glob(filepath.Join(root, dir, prefix+"_*.go"))
				for _, f := range files {
					src, err := os.ReadFile(f)
					if err != nil {
						return nil, err
					}
					ov[filepath.Join(repo, dir, "zz_vp_"+filepath.Base(f))] = src
				}
			}
		}
		ov[filepath.Join(repo, d, "zz_vp_reg.go")] = []byte("package " + pkg + "\n\nvar vpHarnesses = map[string]func(){\n" + reg.String() + "}\n")
	}
	return ov, nil
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "CGO_ENABLED", "GOTOOLCHAIN", "GOPROXY", "GOWORK":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
}

func loadEngine(repo string, ov map[string][]byte, dirs []string) (*Engine, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     goEnv(),
	}
	var pats []string
	for _, d := range dirs {
		if d == "." {
			pats = append(pats, ".")
		} else {
			pats = append(pats, "./"+d)
		}
	}
	pats = append(pats, "errors", "fmt", "strconv", "strings", "unicode/utf8")
	init, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(init, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(init, ssa.InstantiateGenerics)
	e := &Engine{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, gidx: map[*ssa.Global]int{}, built: map[*ssa.Package]bool{}}
	e.rtErrType = types.Typ[types.String]
	e.stubs = map[string]*ssa.Function{}
	for _, p := range init {
		if p.Module != nil && p.Module.Main {
			e.module = p.Module.Path
			e.pkgs[p.PkgPath] = prog.Package(p.Types)
		}
	}
	for path, src := range ov {
		rel, err := filepath.Rel(repo, filepath.Dir(path))
		if err != nil {
			return nil, err
		}
		pkg := prog.ImportedPackage(strings.TrimSuffix(e.module+"/"+filepath.ToSlash(rel), "/."))
		for _, m := range reStub.FindAllSubmatch(src, -1) {
			if pkg == nil || pkg.Func(string(m[2])) == nil {
				return nil, fmt.Errorf("%s: no function %s", path, m[2])
			}
			e.stubs[string(m[1])] = pkg.Func(string(m[2]))
		}
	}
	return e, nil
}

func (e *Engine) isRepoPkg(path string) bool {
	return path == e.module || strings.HasPrefix(path, e.module+"/")
}

func (e *Engine) buildPkg(p *ssa.Package) {
	e.bmu.Lock()
	defer e.bmu.Unlock()
	if !e.built[p] {
		p.Build()
		e.built[p] = true
	}
}

func (e *Engine) canonType(t types.Type) types.Type {
	if c, ok := e.tcache.Load(t); ok {
		return c.(types.Type)
	}
	t0 := t
	t = types.Unalias(t)
	e.tmu.Lock()
	defer e.tmu.Unlock()
	c, _ := e.tmap.At(t).(types.Type)
	if c == nil {
		c = t
		e.tmap.Set(t, t)
	}
	e.tcache.Store(t0, c)
	return c
}

type tpair struct{ a, b any }

func (e *Engine) implements(t, can types.Type, ifc *types.Interface) bool {
	k := tpair{t, can}
	if v, ok := e.imps.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, ifc)
	e.imps.Store(k, r)
	return r
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := tpair{t, m}
	if v, ok := e.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.bmu.Lock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.bmu.Unlock()
	e.meths.Store(k, f)
	return f
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	k := tpair{t, name}
	if v, ok := e.methsN.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.bmu.Lock()
	var f *ssa.Function
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			f = e.prog.MethodValue(s)
		}
	}
	e.bmu.Unlock()
	e.methsN.Store(k, f)
	return f
}

func (e *Engine) globalIndex(g *ssa.Global) int {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	i, ok := e.gidx[g]
	if !ok {
		i = len(e.gidx)
		e.gidx[g] = i
	}
	return i
}

func (w *W) global(g *ssa.Global, i int) Value {
	if i < len(w.gslots) && w.gslots[i] != nil {
		return w.gslots[i]
	}
	if g.Pkg != nil {
		w.ensureInit(g.Pkg)
	}
	if i < len(w.gslots) && w.gslots[i] != nil {
		return w.gslots[i]
	}
	unsup("global %s", g)
	return nil
}

func (w *W) setSlot(g *ssa.Global, p Ptr) {
	i := w.eng.globalIndex(g)
	for len(w.gslots) <= i {
		w.gslots = append(w.gslots, nil)
	}
	w.gslots[i] = p
}

var noInit = map[string]bool{"runtime": true, "syscall": true, "internal/cpu": true, "internal/bytealg": true, "runtime/debug": true,
	"internal/runtime/atomic": true, "internal/runtime/sys": true, "internal/abi": true, "os/signal": true}

// ensureInit allocates a package's globals and interprets its initialiser (once per worker, outside the path's journal).
func (w *W) ensureInit(p *ssa.Package) {
	if w.initDone[p] {
		return
	}
	w.initDone[p] = true
	w.eng.buildPkg(p)
	skip := noInit[p.Pkg.Path()]
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g, ok := p.Members[n].(*ssa.Global)
		if !ok {
			continue
		}
		v := new(Value)
		func() {
			defer func() {
				if r := recover(); r != nil {
					*v = Poison{fmt.Sprint(r)}
				}
			}()
			*v = zero(g.Type().Underlying().(*types.Pointer).Elem())
		}()
		if skip {
			*v = Poison{"package " + p.Pkg.Path() + " is not initialised"}
		}
		w.setSlot(g, Ptr(v))
	}
	if skip {
		return
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	oldJ := w.journalOn
	oldSteps := w.steps
	w.journalOn = false
	w.initing++
	spec := w.spec
	w.spec = 0
	defer func() {
		w.spec = spec
		w.initing--
		w.journalOn = oldJ
		w.steps = oldSteps
	}()
	w.runInit(fn)
}

// runInit interprets a package initialiser; an instruction that cannot be interpreted poisons its result only.
func (w *W) runInit(fn *ssa.Function) {
	key := fn
	var c *cfn
	if x, ok := w.eng.bodies.Load(key); ok {
		c = x.(*cfn)
	} else {
		c = &cfn{fn: fn, recoverB: -1}
		cc := &compiler{e: w.eng, fn: fn, slots: map[ssa.Value]int{}, c: c}
		cc.run()
		w.eng.bodies.Store(key, c)
	}
	fr := &frame{w: w, fn: c, isInit: true}
	fr.regs = make([]Value, c.nregs)
	b := 0
	for b >= 0 {
		cb := &c.blocks[b]
		if len(cb.phis) > 0 {
			e := cb.predIx[fr.prev]
			var vals []Value
			for i := range cb.phis {
				vals = append(vals, fr.get(&cb.phis[i].edges[e]))
			}
			for i := range cb.phis {
				fr.regs[cb.phis[i].dst] = vals[i]
			}
		}
		for i, in := range cb.code {
			w.protected(func() { in(fr) }, func(why string) {
				if d := cb.dsts[i]; d >= 0 {
					fr.regs[d] = Poison{why}
				}
			})
		}
		fr.prev = b
		nb := -1
		w.protected(func() { nb = cb.term(fr) }, func(string) {})
		b = nb
	}
}

func (w *W) protected(f func(), onErr func(string)) {
	depth, sd := w.depth, len(w.stackFns)
	defer func() {
		if r := recover(); r != nil {
			w.depth, w.stackFns = depth, w.stackFns[:sd]
			switch r := r.(type) {
			case unsupported:
				onErr(r.msg)
			case targetPanic:
				onErr("panic in initialiser: " + w.panicText(r.v))
			case pathEnd:
				panic(r)
			default:
				onErr(fmt.Sprint(r))
			}
		}
	}()
	f()
}
