package generator

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"github.com/frk/gosql"
)

// An interpreter of the Go the tool generates: it runs a generated method on an
// instance of the user's query type and a connection that records the calls.

type vpVal interface{}

type vpCell struct {
	path string
	v    vpVal
}

type (
	vpStruct struct { // a struct; fields in declaration order
		typ    types.Type
		names  []string
		fields map[string]*vpCell
	}
	vpPtr   struct{ to *vpCell }
	vpSlice struct{ elems []*vpCell }
	vpLeaf  string // an opaque value, known by where it came from
	vpConv  struct {
		name string
		arg  vpVal
	}
	vpFn    func(args []vpVal) []vpVal
	vpTuple []vpVal
	vpArg   struct { // what a method of an opaque value is called with
		recv *vpCell
		name string
	}
)

type vpReturn struct{ vals []vpVal }

// vpRT is the world a generated method runs in.
type vpRT struct {
	pkg      *types.Package
	globals  func(name string) vpVal // the variables of the package
	slices   func(path string) int   // the length of a slice of the input
	zero     func(path string) bool  // whether a number of the input is zero
	nilPtrs  bool                    // pointers of the receiver are nil
	nilAt    func(path string) bool
	received []vpVal // what iterators were called with
	fail     string  // the operation that fails
	nrows    int
	calls    []vpCall
	filter   int // number of parameters a filter adds
	row      int
	scans    int
	closed   bool
	scanned  []string // per row: after-scan and iterator calls
	log      []string
	columns  []string // the output columns of the query
	affected vpVal
}

type vpCall struct {
	method string
	ctx    string
	query  string
	args   []vpVal
}

func (rt *vpRT) bad(msg string) {
	vpAssert(false, "the generated code does something the model does not know")
	vpObs("unknown", msg)
	vpSkip()
}

// instance creates a value of type t at the given path.
func (rt *vpRT) instance(t types.Type, path string, out bool) vpVal {
	if n, ok := types.Unalias(t).(*types.Named); ok && vpHandles(n) {
		return vpLeaf(path)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &vpStruct{typ: t, fields: map[string]*vpCell{}}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != rt.pkg && u.NumFields() == 0 {
			return vpLeaf(path)
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			s.names = append(s.names, f.Name())
			c := &vpCell{path: path + "." + f.Name()}
			c.v = rt.instance(f.Type(), c.path, out)
			s.fields[f.Name()] = c
		}
		return s
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && vpHandles(n) {
			return vpLeaf(path)
		}
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			if out || rt.nilAt != nil && rt.nilAt(path) {
				return nil
			}
			c := &vpCell{path: path}
			c.v = rt.instance(u.Elem(), path, out)
			return vpPtr{c}
		}
		return vpLeaf(path)
	case *types.Slice:
		_, isPtr := u.Elem().Underlying().(*types.Pointer)
		_, isStruct := u.Elem().Underlying().(*types.Struct)
		if isPtr || isStruct || strings.HasPrefix(path, "q.") && rt.slices != nil {
			n := 0
			if !out && rt.slices != nil {
				n = rt.slices(path)
			}
			if n < 0 { // not iterated
				return vpLeaf(path)
			}
			s := &vpSlice{}
			for i := 0; i < n; i++ {
				c := &vpCell{path: path + "[" + strconv.Itoa(i) + "]"}
				c.v = rt.instance(u.Elem(), c.path, out)
				s.elems = append(s.elems, c)
			}
			return s
		}
		return vpLeaf(path)
	}
	return vpLeaf(path)
}

// vpHandles reports whether the type has the method of an error handler.
func vpHandles(n *types.Named) bool {
	for i := 0; i < n.NumMethods(); i++ {
		if strings.HasPrefix(n.Method(i).Name(), "HandleError") {
			return true
		}
	}
	return false
}

// vpDump renders a value.
func vpDump(v vpVal) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case vpLeaf:
		return string(x)
	case string:
		return strconv.Quote(x)
	case int:
		return strconv.Itoa(x)
	case bool:
		if x {
			return "true"
		}
		return "false"
	case vpPtr:
		return "&" + vpDump(x.to.v)
	case vpConv:
		return x.name + "(" + vpDump(x.arg) + ")"
	case *vpStruct:
		s := "{"
		for i, n := range x.names {
			if i > 0 {
				s += " "
			}
			s += n + ":" + vpDump(x.fields[n].v)
		}
		return s + "}"
	case *vpSlice:
		s := "["
		for i, e := range x.elems {
			if i > 0 {
				s += " "
			}
			s += vpDump(e.v)
		}
		return s + "]"
	}
	return "?"
}

type vpEnv struct {
	rt     *vpRT
	vars   []map[string]*vpCell
	defers []func()
}

func (e *vpEnv) push() { e.vars = append(e.vars, map[string]*vpCell{}) }
func (e *vpEnv) pop()  { e.vars = e.vars[:len(e.vars)-1] }
func (e *vpEnv) set(name string, v vpVal) {
	if name != "_" {
		e.vars[len(e.vars)-1][name] = &vpCell{path: name, v: v}
	}
}
func (e *vpEnv) lookup(name string) *vpCell {
	for i := len(e.vars) - 1; i >= 0; i-- {
		if c := e.vars[i][name]; c != nil {
			return c
		}
	}
	return nil
}

// run executes a generated method and returns its result.
func (rt *vpRT) run(fd *ast.FuncDecl, recv vpVal, args ...vpVal) vpVal {
	e := &vpEnv{rt: rt}
	e.push()
	e.set(fd.Recv.List[0].Names[0].Name, recv)
	i := 0
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			e.set(n.Name, args[i])
			i++
		}
	}
	r := e.block(fd.Body.List)
	for i := len(e.defers) - 1; i >= 0; i-- {
		e.defers[i]()
	}
	if r == nil || len(r.vals) == 0 {
		return nil
	}
	return r.vals[0]
}

func (e *vpEnv) block(list []ast.Stmt) *vpReturn {
	e.push()
	for _, s := range list {
		if r := e.stmt(s); r != nil {
			e.pop()
			return r
		}
	}
	e.pop()
	return nil
}

func (e *vpEnv) stmt(s ast.Stmt) *vpReturn {
	switch s := s.(type) {
	case *ast.DeclStmt:
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				e.rt.bad("declaration")
			}
			for i, n := range vs.Names {
				if len(vs.Values) > i {
					e.set(n.Name, e.copy(e.expr(vs.Values[i])))
				} else {
					c := &vpCell{path: n.Name, v: e.zero(vs.Type, n.Name)}
					e.vars[len(e.vars)-1][n.Name] = c
				}
			}
		}
	case *ast.AssignStmt:
		var vals []vpVal
		if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
			t, ok := e.expr(s.Rhs[0]).(vpTuple)
			if !ok || len(t) != len(s.Lhs) {
				e.rt.bad("assignment")
			}
			vals = t
		} else {
			for _, r := range s.Rhs {
				vals = append(vals, e.copy(e.expr(r)))
			}
		}
		for i, l := range s.Lhs {
			switch s.Tok {
			case token.DEFINE:
				id := l.(*ast.Ident)
				if c := e.vars[len(e.vars)-1][id.Name]; c != nil {
					c.v = vals[i]
				} else {
					e.set(id.Name, vals[i])
				}
			case token.ASSIGN:
				if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
					continue
				}
				e.addr(l).v = vals[i]
			case token.ADD_ASSIGN, token.SUB_ASSIGN:
				c := e.addr(l)
				op := token.ADD
				if s.Tok == token.SUB_ASSIGN {
					op = token.SUB
				}
				c.v = e.binary(op, c.v, vals[i])
			default:
				e.rt.bad("assignment operator")
			}
		}
	case *ast.IncDecStmt:
		c := e.addr(s.X)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		c.v = e.binary(op, c.v, 1)
	case *ast.ExprStmt:
		e.expr(s.X)
	case *ast.DeferStmt:
		call := s.Call
		fn := e.expr(call.Fun)
		var args []vpVal
		for _, a := range call.Args {
			args = append(args, e.expr(a))
		}
		e.defers = append(e.defers, func() { e.call(fn, args) })
	case *ast.ReturnStmt:
		r := &vpReturn{}
		for _, x := range s.Results {
			v := e.expr(x)
			if t, ok := v.(vpTuple); ok {
				r.vals = append(r.vals, t...)
			} else {
				r.vals = append(r.vals, v)
			}
		}
		return r
	case *ast.BlockStmt:
		return e.block(s.List)
	case *ast.IfStmt:
		e.push()
		defer e.pop()
		if s.Init != nil {
			e.stmt(s.Init)
		}
		if e.truth(s.Cond) {
			return e.block(s.Body.List)
		} else if s.Else != nil {
			return e.stmt(s.Else)
		}
	case *ast.ForStmt:
		e.push()
		defer e.pop()
		if s.Init != nil {
			e.stmt(s.Init)
		}
		for n := 0; s.Cond == nil || e.truth(s.Cond); n++ {
			if n > 40 {
				vpAssert(false, "a generated loop does not end")
				vpSkip()
			}
			if r := e.block(s.Body.List); r != nil {
				return r
			}
			if s.Post != nil {
				e.stmt(s.Post)
			}
		}
	case *ast.RangeStmt:
		sl, ok := e.expr(s.X).(*vpSlice)
		if !ok {
			e.rt.bad("range")
		}
		for i, el := range sl.elems {
			e.push()
			if id, ok := s.Key.(*ast.Ident); ok {
				e.set(id.Name, i)
			}
			if id, ok := s.Value.(*ast.Ident); ok {
				e.set(id.Name, e.copy(el.v))
			}
			r := e.block(s.Body.List)
			e.pop()
			if r != nil {
				return r
			}
		}
	case *ast.EmptyStmt:
	default:
		e.rt.bad("statement")
	}
	return nil
}

func (e *vpEnv) truth(x ast.Expr) bool {
	b, ok := e.expr(x).(bool)
	if !ok {
		e.rt.bad("condition")
	}
	return b
}

// copy copies struct values, as assigning them does.
func (e *vpEnv) copy(v vpVal) vpVal {
	if s, ok := v.(*vpStruct); ok {
		c := &vpStruct{typ: s.typ, names: s.names, fields: map[string]*vpCell{}}
		for n, f := range s.fields {
			c.fields[n] = &vpCell{path: f.path, v: e.copy(f.v)}
		}
		return c
	}
	return v
}

// typ resolves a type expression of the generated code.
func (e *vpEnv) typ(x ast.Expr) types.Type {
	switch x := x.(type) {
	case *ast.Ident:
		if o := e.rt.pkg.Scope().Lookup(x.Name); o != nil {
			return o.Type()
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			return o.Type()
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			for _, imp := range e.rt.pkg.Imports() {
				if imp.Name() == id.Name || e.rt.imports()[id.Name] == imp.Path() {
					if o := imp.Scope().Lookup(x.Sel.Name); o != nil {
						return o.Type()
					}
				}
			}
		}
	case *ast.ParenExpr:
		return e.typ(x.X)
	case *ast.StarExpr:
		return types.NewPointer(e.typ(x.X))
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(e.typ(x.Elt))
		}
	case *ast.MapType:
		return types.NewMap(e.typ(x.Key), e.typ(x.Value))
	case *ast.StructType:
		var fs []*types.Var
		for _, f := range x.Fields.List {
			t := e.typ(f.Type)
			for _, n := range f.Names {
				fs = append(fs, types.NewField(0, e.rt.pkg, n.Name, t, false))
			}
			if f.Names == nil {
				b := t
				if p, ok := b.(*types.Pointer); ok {
					b = p.Elem()
				}
				n, ok := b.(interface{ Obj() *types.TypeName })
				if !ok {
					e.rt.bad("embedded type")
				}
				fs = append(fs, types.NewField(0, e.rt.pkg, n.Obj().Name(), t, true))
			}
		}
		return types.NewStruct(fs, nil)
	case *ast.IndexExpr:
		if t, err := types.Instantiate(nil, e.typ(x.X), []types.Type{e.typ(x.Index)}, false); err == nil {
			return t
		}
	}
	e.rt.bad("type")
	return nil
}

func (rt *vpRT) imports() map[string]string { return nil }

func (e *vpEnv) zero(x ast.Expr, path string) vpVal { return e.rt.instance(e.typ(x), path, true) }

// addr evaluates an operand that is assigned or whose address is taken.
func (e *vpEnv) addr(x ast.Expr) *vpCell {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.addr(x.X)
	case *ast.Ident:
		if c := e.lookup(x.Name); c != nil {
			return c
		}
	case *ast.SelectorExpr:
		return e.field(x)
	case *ast.StarExpr:
		if p, ok := e.expr(x.X).(vpPtr); ok {
			return p.to
		}
	case *ast.IndexExpr:
		sl, ok := e.expr(x.X).(*vpSlice)
		i, ok2 := e.expr(x.Index).(int)
		if !ok || !ok2 {
			e.rt.bad("index")
		}
		if i < 0 || i >= len(sl.elems) {
			vpAssert(false, "the generated code panics: index out of range")
			vpSkip()
		}
		return sl.elems[i]
	}
	e.rt.bad("operand")
	return nil
}

// field evaluates X.Sel, following pointers and embedded fields.
func (e *vpEnv) field(x *ast.SelectorExpr) *vpCell {
	v := e.expr(x.X)
	if p, ok := v.(vpPtr); ok {
		v = p.to.v
	}
	if v == nil {
		vpAssert(false, "the generated code panics: nil pointer dereference")
		vpSkip()
	}
	s, ok := v.(*vpStruct)
	if !ok {
		e.rt.bad("selector " + x.Sel.Name)
	}
	if c := vpFindField(s, x.Sel.Name); c != nil {
		return c
	}
	e.rt.bad("field " + x.Sel.Name)
	return nil
}

func vpFindField(s *vpStruct, name string) *vpCell {
	if c := s.fields[name]; c != nil {
		return c
	}
	u := s.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if f := u.Field(i); f.Embedded() {
			v := s.fields[f.Name()].v
			if p, ok := v.(vpPtr); ok {
				v = p.to.v
			}
			if es, ok := v.(*vpStruct); ok {
				if c := vpFindField(es, name); c != nil {
					return c
				}
			}
		}
	}
	return nil
}

func (e *vpEnv) expr(x ast.Expr) vpVal {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.expr(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			n, _ := strconv.Atoi(x.Value)
			return n
		}
		s, err := strconv.Unquote(x.Value)
		if err != nil {
			e.rt.bad("literal")
		}
		return s
	case *ast.Ident:
		if c := e.lookup(x.Name); c != nil {
			return c.v
		}
		switch x.Name {
		case "nil":
			return nil
		case "true":
			return true
		case "false":
			return false
		}
		if e.rt.globals != nil {
			return e.rt.globals(x.Name)
		}
		e.rt.bad("identifier " + x.Name)
	case *ast.BinaryExpr:
		l := e.expr(x.X)
		if x.Op == token.LAND || x.Op == token.LOR {
			b, ok := l.(bool)
			if !ok {
				e.rt.bad("operator")
			}
			if b == (x.Op == token.LOR) {
				return b
			}
			return e.expr(x.Y)
		}
		return e.binary(x.Op, l, e.expr(x.Y))
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if cl, ok := x.X.(*ast.CompositeLit); ok {
				return vpPtr{&vpCell{path: "lit", v: e.expr(cl)}}
			}
			return vpPtr{e.addr(x.X)}
		}
		e.rt.bad("unary operator")
	case *ast.StarExpr:
		return e.addr(x).v
	case *ast.IndexExpr:
		if sel, ok := x.X.(*ast.SelectorExpr); ok && sel.Sel.Name == "OrdinalParameters" {
			i, _ := e.expr(x.Index).(int)
			return gosql.OrdinalParameters[i]
		}
		return e.addr(x).v
	case *ast.SliceExpr:
		s, ok := e.expr(x.X).(string)
		lo := 0
		if x.Low != nil {
			lo, _ = e.expr(x.Low).(int)
		}
		hi, ok2 := len(s), true
		if x.High != nil {
			hi, ok2 = e.expr(x.High).(int)
		}
		if !ok || !ok2 || lo > hi || lo < 0 || hi > len(s) {
			e.rt.bad("slice expression")
		}
		return s[lo:hi]
	case *ast.CompositeLit:
		if _, ok := x.Type.(*ast.ArrayType); ok {
			sl := &vpSlice{}
			for _, el := range x.Elts {
				sl.elems = append(sl.elems, &vpCell{v: e.expr(el)})
			}
			return sl
		}
		st := &vpStruct{fields: map[string]*vpCell{}}
		for _, el := range x.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				e.rt.bad("literal")
			}
			n := kv.Key.(*ast.Ident).Name
			st.names = append(st.names, n)
			st.fields[n] = &vpCell{v: e.expr(kv.Value)}
		}
		return st
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && e.lookup(id.Name) == nil {
			return e.pkgMember(id.Name, x.Sel.Name)
		}
		if m := e.method(x); m != nil {
			return m
		}
		return e.field(x).v
	case *ast.FuncLit:
		return vpFn(func(args []vpVal) []vpVal {
			if r := e.block(x.Body.List); r != nil {
				return r.vals
			}
			return nil
		})
	case *ast.CallExpr:
		return e.callExpr(x)
	}
	e.rt.bad("expression")
	return nil
}

func (e *vpEnv) binary(op token.Token, l, r vpVal) vpVal {
	switch op {
	case token.EQL, token.NEQ:
		var eq bool
		switch a := l.(type) {
		case int:
			b, ok := r.(int)
			if !ok {
				e.rt.bad("comparison")
			}
			eq = a == b
		case nil:
			eq = r == nil
		case vpLeaf:
			if n, ok := r.(int); ok && n == 0 && e.rt.zero != nil {
				eq = e.rt.zero(string(a))
				break
			}
			if r != nil {
				e.rt.bad("comparison")
			}
		default:
			if r != nil {
				e.rt.bad("comparison")
			}
		}
		return eq == (op == token.EQL)
	}
	if a, ok := l.(string); ok {
		if b, ok := r.(string); ok && op == token.ADD {
			return a + b
		}
	}
	a, ok := l.(int)
	b, ok2 := r.(int)
	if ok && ok2 {
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	e.rt.bad("operator " + op.String())
	return nil
}

func (e *vpEnv) call(fn vpVal, args []vpVal) vpVal {
	f, ok := fn.(vpFn)
	if !ok {
		if fn == nil {
			vpAssert(false, "the generated code panics: nil function called")
			vpSkip()
		}
		if _, leaf := fn.(vpLeaf); leaf { // an iterator
			f, ok = func(args []vpVal) []vpVal { return e.rt.iterate("func", args) }, true
		}
	}
	if !ok {
		e.rt.bad("call")
	}
	for i, a := range args {
		args[i] = e.copy(a)
	}
	res := f(args)
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return vpTuple(res)
}

func (e *vpEnv) callExpr(x *ast.CallExpr) vpVal {
	if id, ok := x.Fun.(*ast.Ident); ok && e.lookup(id.Name) == nil {
		switch id.Name {
		case "len":
			switch v := e.expr(x.Args[0]).(type) {
			case string:
				return len(v)
			case *vpSlice:
				return len(v.elems)
			}
			e.rt.bad("len")
		case "make":
			n, ok := e.expr(x.Args[1]).(int)
			if !ok || n < 0 {
				e.rt.bad("make")
			}
			sl := &vpSlice{}
			for i := 0; i < n; i++ {
				sl.elems = append(sl.elems, &vpCell{v: vpLeaf("unset")})
			}
			return sl
		case "new":
			c := &vpCell{path: "new"}
			c.v = e.zero(x.Args[0], "new")
			return vpPtr{c}
		case "append":
			sl := &vpSlice{}
			switch v := e.expr(x.Args[0]).(type) {
			case *vpSlice:
				sl.elems = append(sl.elems, v.elems...)
			case nil:
			default:
				e.rt.bad("append")
			}
			for i, a := range x.Args[1:] {
				v := e.expr(a)
				if x.Ellipsis.IsValid() && i == len(x.Args)-2 {
					if more, ok := v.(*vpSlice); ok {
						sl.elems = append(sl.elems, more.elems...)
					} else if v != nil {
						e.rt.bad("append")
					}
					continue
				}
				sl.elems = append(sl.elems, &vpCell{v: e.copy(v)})
			}
			return sl
		}
		if o := types.Universe.Lookup(id.Name); o != nil {
			if _, ok := o.(*types.TypeName); ok { // conversion
				return e.expr(x.Args[0])
			}
		}
		e.rt.bad("call of " + id.Name)
	}
	fn := e.expr(x.Fun)
	var args []vpVal
	for i, a := range x.Args {
		v := e.expr(a)
		if t, ok := v.(vpTuple); ok {
			args = append(args, t...)
			continue
		}
		if x.Ellipsis.IsValid() && i == len(x.Args)-1 {
			if sl, ok := v.(*vpSlice); ok {
				for _, el := range sl.elems {
					args = append(args, el.v)
				}
			}
			continue
		}
		args = append(args, e.copy(v))
	}
	return e.call(fn, args)
}

func (e *vpEnv) pkgMember(pkg, name string) vpVal {
	switch name {
	case "InValueList":
		return vpFn(func(args []vpVal) []vpVal {
			n, ok := args[0].(int)
			p, ok2 := args[1].(int)
			if !ok || !ok2 {
				e.rt.bad("InValueList")
			}
			return []vpVal{gosql.InValueList(n, p)}
		})
	}
	if pkg == "pgsql" {
		return vpFn(func(args []vpVal) []vpVal { return []vpVal{vpConv{name, args[0]}} })
	}
	e.rt.bad("package member " + name)
	return nil
}

var vpNilErr vpVal

func (rt *vpRT) err(op string) vpVal {
	if rt.fail == op {
		return vpLeaf("error:" + op)
	}
	return nil
}

// method finds the methods generated code calls on values of the user's and the library's types.
func (e *vpEnv) method(x *ast.SelectorExpr) vpVal {
	rt := e.rt
	name := x.Sel.Name
	recv := e.expr(x.X)
	if l, ok := recv.(vpLeaf); ok {
		switch string(l) {
		case "conn":
			return vpFn(func(args []vpVal) []vpVal {
				c := vpCall{method: name}
				if strings.HasSuffix(name, "Context") {
					c.ctx = vpDump(args[0])
					args = args[1:]
				}
				q, ok := args[0].(string)
				if !ok {
					rt.bad("query string")
				}
				c.query, c.args = q, args[1:]
				rt.calls = append(rt.calls, c)
				if len(rt.calls) == 1 {
					rt.columns = vpColumns(q)
				}
				switch strings.TrimSuffix(name, "Context") {
				case "Exec":
					if rt.fail == "query" {
						return []vpVal{nil, rt.err("query")}
					}
					return []vpVal{vpLeaf("result"), nil}
				case "Query":
					if rt.fail == "query" {
						return []vpVal{nil, rt.err("query")}
					}
					return []vpVal{vpLeaf("rows"), nil}
				}
				return []vpVal{vpLeaf("row")}
			})
		case "result":
			return vpFn(func([]vpVal) []vpVal {
				if rt.fail == "affected" {
					return []vpVal{0, rt.err("affected")}
				}
				return []vpVal{vpLeaf("affected"), nil}
			})
		case "row", "rows":
			switch name {
			case "Next":
				return vpFn(func([]vpVal) []vpVal {
					vpAssert(!rt.closed, "rows are read after they were closed")
					if rt.row >= rt.nrows {
						return []vpVal{false}
					}
					rt.row++
					return []vpVal{true}
				})
			case "Err":
				return vpFn(func([]vpVal) []vpVal { return []vpVal{rt.err("rows")} })
			case "Close":
				return vpFn(func([]vpVal) []vpVal { rt.closed = true; return []vpVal{nil} })
			case "Scan":
				return vpFn(func(args []vpVal) []vpVal {
					if string(l) == "row" {
						rt.row++
						if rt.fail == "query" {
							return []vpVal{rt.err("query")}
						}
					}
					rt.scans++
					if rt.fail == "scan" && rt.row == rt.nrows {
						return []vpVal{rt.err("scan")}
					}
					vpAssert(len(args) == len(rt.columns), "a row is scanned into another number of targets than the query returns columns")
					for i, a := range args {
						if i >= len(rt.columns) {
							break
						}
						v := vpVal(vpLeaf("row" + strconv.Itoa(rt.row) + ":" + rt.columns[i]))
						if c, ok := a.(vpConv); ok {
							v = vpConv{c.name, v}
							a = c.arg
						}
						p, ok := a.(vpPtr)
						if !ok {
							rt.bad("scan target")
						}
						p.to.v = v
					}
					return []vpVal{nil}
				})
			}
		}
		switch name {
		case "HandleError":
			return vpFn(func(args []vpVal) []vpVal {
				rt.log = append(rt.log, "HandleError:"+vpDump(args[0]))
				if args[0] == nil {
					return []vpVal{nil}
				}
				return []vpVal{vpLeaf("handled(" + vpDump(args[0]) + ")")}
			})
		case "HandleErrorInfo":
			return vpFn(func(args []vpVal) []vpVal {
				p, _ := args[0].(vpPtr)
				if p.to == nil {
					rt.bad("error info")
				}
				s, _ := p.to.v.(*vpStruct)
				f := func(n string) string {
					if s == nil || s.fields[n] == nil {
						return "unset"
					}
					return vpDump(s.fields[n].v)
				}
				qv := "other"
				if s != nil && s.fields["QueryValue"] != nil {
					if qp, ok := s.fields["QueryValue"].v.(vpPtr); ok && qp.to.path == "q" {
						qv = "q"
					}
				}
				q := "none"
				if len(rt.calls) == 1 && f("QueryString") == strconv.Quote(rt.calls[0].query) {
					q = "query"
				}
				return []vpVal{vpLeaf("handled(" + f("Error") + " " + q + " " + f("QueryKind") + " " + f("QueryName") + " " + qv + ")")}
			})
		case "ToSQL":
			return vpFn(func(args []vpVal) []vpVal {
				pos, ok := args[0].(int)
				if !ok {
					rt.bad("ToSQL")
				}
				s := ` FILTER`
				sl := &vpSlice{}
				for i := 1; i <= rt.filter; i++ {
					s += " $" + strconv.Itoa(pos+i)
					sl.elems = append(sl.elems, &vpCell{v: vpLeaf("filter" + strconv.Itoa(i))})
				}
				return []vpVal{s, sl}
			})
		case "Init", "InitV2", "Col", "And", "Or":
			return vpFn(func(args []vpVal) []vpVal {
				s := name
				for _, a := range args {
					if fn, ok := a.(vpFn); ok {
						s += " func"
						n := len(rt.log)
						fn(nil)
						for _, l := range rt.log[n:] {
							s += "[" + l + "]"
						}
						rt.log = rt.log[:n]
						continue
					}
					s += " " + vpDump(a)
				}
				rt.log = append(rt.log, s)
				return nil
			})
		}
		// a method of an opaque value: an iterator
		return vpFn(func(args []vpVal) []vpVal { return rt.iterate(name, args) })
	}
	if name == "AfterScan" {
		return vpFn(func([]vpVal) []vpVal {
			rt.log = append(rt.log, "AfterScan:"+vpDump(recv))
			return nil
		})
	}
	return nil
}

// iterate receives one record.
func (rt *vpRT) iterate(name string, args []vpVal) []vpVal {
	s := "iter " + name + ":"
	for _, a := range args {
		s += vpDump(a)
		rt.received = append(rt.received, a)
	}
	rt.log = append(rt.log, s)
	if rt.fail == "iter" && rt.row == rt.nrows {
		return []vpVal{rt.err("iter")}
	}
	return []vpVal{nil}
}
