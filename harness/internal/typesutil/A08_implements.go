package typesutil

import (
	"go/token"
	"go/types"
)

func vpNewPkg(path, name string) *types.Package { return types.NewPackage(path, name) }

func vpNamed(pkg *types.Package, name string, under types.Type) *types.Named {
	return types.NewNamed(types.NewTypeName(token.NoPos, pkg, name, nil), under, nil)
}

func vpAlias(pkg *types.Package, name string, t types.Type) types.Type {
	return types.NewAlias(types.NewTypeName(token.NoPos, pkg, name, nil), t)
}

var (
	vpApp    = vpNewPkg("example.com/app/db", "db")
	vpGosql  = vpNewPkg("github.com/frk/gosql", "gosql")
	vpFilter = vpNewPkg("github.com/frk/gosql/filter", "filter")
	vpXML    = vpNewPkg("encoding/xml", "xml")
	vpSQL    = vpNewPkg("database/sql", "sql")
	vpDriver = vpNewPkg("database/sql/driver", "driver")
	vpCtx    = vpNewPkg("context", "context")

	vpStr   = types.Typ[types.String]
	vpErr   = types.Universe.Lookup("error").Type()
	vpAny   = types.Universe.Lookup("any").Type()
	vpByteT  = types.Universe.Lookup("byte").Type()
	vpEmpty = types.NewStruct(nil, nil)

	vpContext   = vpNamed(vpCtx, "Context", types.NewInterfaceType(nil, nil))
	vpColumn    = vpNamed(vpFilter, "Column", vpEmpty)
	vpErrorInfo = vpNamed(vpGosql, "ErrorInfo", vpEmpty)
	vpResult    = vpNamed(vpSQL, "Result", types.NewInterfaceType(nil, nil))
	vpRow       = vpNamed(vpSQL, "Row", vpEmpty)
	vpRows      = vpNamed(vpSQL, "Rows", vpEmpty)
	vpValue     = vpNamed(vpDriver, "Value", types.NewInterfaceType(nil, nil))
	vpEncoder   = vpNamed(vpXML, "Encoder", vpEmpty)
	vpDecoder   = vpNamed(vpXML, "Decoder", vpEmpty)
	vpStart     = vpNamed(vpXML, "StartElement", vpEmpty)
)

// vpMethod is a method a type has, or is expected to have.
type vpMethod struct {
	name     string
	params   []types.Type
	results  []types.Type
	variadic bool
}

func (m vpMethod) signature(recv types.Type) *types.Signature {
	var ps, rs []*types.Var
	for _, t := range m.params {
		ps = append(ps, types.NewParam(token.NoPos, vpApp, "", t))
	}
	for _, t := range m.results {
		rs = append(rs, types.NewParam(token.NoPos, vpApp, "", t))
	}
	var r *types.Var
	if recv != nil {
		r = types.NewParam(token.NoPos, vpApp, "r", recv)
	}
	return types.NewSignatureType(r, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), m.variadic)
}

func vpT(t ...types.Type) []types.Type { return t }

func vpIface(ms []vpMethod) *types.Interface {
	var fs []*types.Func
	for _, m := range ms {
		fs = append(fs, types.NewFunc(token.NoPos, vpApp, m.name, m.signature(nil)))
	}
	i := types.NewInterfaceType(fs, nil)
	i.Complete()
	return i
}

var vpArgs = types.NewSlice(vpAny)

// vpInterfaces lists the interfaces that are looked for.
var vpInterfaces = []struct {
	is      func(*types.Named) bool
	methods []vpMethod
}{
	{ImplementsAfterScanner, []vpMethod{{"AfterScan", nil, nil, false}}},
	{ImplementsErrorHandler, []vpMethod{{"HandleError", vpT(vpErr), vpT(vpErr), false}}},
	{ImplementsErrorInfoHandler, []vpMethod{{"HandleErrorInfo", vpT(types.NewPointer(vpErrorInfo)), vpT(vpErr), false}}},
	{ImplementsScanner, []vpMethod{{"Scan", vpT(vpAny), vpT(vpErr), false}}},
	{ImplementsValuer, []vpMethod{{"Value", nil, vpT(vpValue, vpErr), false}}},
	{ImplementsJSONMarshaler, []vpMethod{{"MarshalJSON", nil, vpT(types.NewSlice(vpByteT), vpErr), false}}},
	{ImplementsJSONUnmarshaler, []vpMethod{{"UnmarshalJSON", vpT(types.NewSlice(vpByteT)), vpT(vpErr), false}}},
	{ImplementsXMLMarshaler, []vpMethod{{"MarshalXML", vpT(types.NewPointer(vpEncoder), vpStart), vpT(vpErr), false}}},
	{ImplementsXMLUnmarshaler, []vpMethod{{"UnmarshalXML", vpT(types.NewPointer(vpDecoder), vpStart), vpT(vpErr), false}}},
	{func(n *types.Named) bool { return ImplementsGosqlFilterConstructor(n) }, []vpMethod{
		{"Init", vpT(types.NewMap(vpStr, vpStr), vpStr), nil, false},
		{"Col", vpT(vpStr, vpStr, vpAny), nil, false},
		{"And", vpT(types.NewSignatureType(nil, nil, nil, nil, nil, false)), nil, false},
		{"Or", vpT(types.NewSignatureType(nil, nil, nil, nil, nil, false)), nil, false},
	}},
	{ImplementsGosqlConn, []vpMethod{
		{"Exec", vpT(vpStr, vpArgs), vpT(vpResult, vpErr), true},
		{"Query", vpT(vpStr, vpArgs), vpT(types.NewPointer(vpRows), vpErr), true},
		{"QueryRow", vpT(vpStr, vpArgs), vpT(types.NewPointer(vpRow)), true},
		{"ExecContext", vpT(vpContext, vpStr, vpArgs), vpT(vpResult, vpErr), true},
		{"QueryContext", vpT(vpContext, vpStr, vpArgs), vpT(types.NewPointer(vpRows), vpErr), true},
		{"QueryRowContext", vpT(vpContext, vpStr, vpArgs), vpT(types.NewPointer(vpRow)), true},
	}},
}

// vpTypes are the types that may stand in a signature.
var vpTypes = []types.Type{
	vpStr, types.Typ[types.Int], vpErr, vpAny, types.NewInterfaceType(nil, nil), vpNamed(vpApp, "string", vpStr),
	vpAlias(vpApp, "Str", vpStr), vpAlias(vpApp, "Any", types.NewInterfaceType(nil, nil)), vpAlias(vpApp, "Err", vpErr),
	types.NewSlice(vpByteT), types.NewSlice(types.Typ[types.Uint8]), types.NewSlice(vpAlias(vpApp, "B", vpByteT)), types.NewSlice(vpNamed(vpApp, "B2", vpByteT)), vpAlias(vpApp, "Bytes", types.NewSlice(vpByteT)), types.NewSlice(vpStr),
	vpContext, vpNamed(vpApp, "Context", vpContext.Underlying()), vpAlias(vpApp, "Ctx", vpContext),
	types.NewPointer(vpEncoder), types.NewPointer(vpDecoder), vpEncoder, vpStart, types.NewPointer(vpStart), types.NewPointer(vpAlias(vpApp, "Enc", vpEncoder)), vpAlias(vpApp, "Start", vpStart),
	types.NewPointer(vpErr), types.NewPointer(vpErrorInfo), vpErrorInfo, vpAlias(vpApp, "Info", types.NewPointer(vpErrorInfo)), types.NewPointer(vpNamed(vpApp, "ErrorInfo", vpEmpty)),
	vpResult, types.NewPointer(vpRow), types.NewPointer(vpRows), vpRow, vpValue, vpAlias(vpApp, "Val", vpValue), types.NewPointer(vpNamed(vpApp, "Row", vpEmpty)),
	vpArgs, types.NewSlice(types.NewInterfaceType(nil, nil)), types.NewSlice(vpAlias(vpApp, "Any2", vpAny)), vpAlias(vpApp, "Args", vpArgs),
	types.NewMap(vpStr, vpStr), types.NewMap(vpStr, vpColumn), types.NewMap(types.Typ[types.Int], vpStr), types.NewMap(vpStr, vpErr), types.NewMap(vpStr, vpAlias(vpApp, "S", vpStr)), vpAlias(vpApp, "M", types.NewMap(vpStr, vpStr)),
	types.NewSignatureType(nil, nil, nil, nil, nil, false), vpNamed(vpApp, "Func", types.NewSignatureType(nil, nil, nil, nil, nil, false)), vpAlias(vpApp, "Fn", types.NewSignatureType(nil, nil, nil, nil, nil, false)),
	types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(token.NoPos, vpApp, "", vpStr)), nil, false),
}

// vpDeclare declares a type with the methods, in one of the ways Go allows.
func vpDeclare(ms []vpMethod) *types.Named {
	methods := func(n *types.Named, ptr bool) {
		var recv types.Type = n
		if ptr {
			recv = types.NewPointer(n)
		}
		for _, m := range ms {
			n.AddMethod(types.NewFunc(token.NoPos, vpApp, m.name, m.signature(recv)))
		}
	}
	embed := func(t types.Type) *types.Named {
		f := types.NewField(token.NoPos, vpApp, "Base", t, true)
		g := types.NewField(token.NoPos, vpApp, "Other", vpStr, false)
		return vpNamed(vpApp, "T", types.NewStruct([]*types.Var{f, g}, nil))
	}
	switch vpChoose(7) {
	case 0:
		n := vpNamed(vpApp, "T", vpEmpty)
		methods(n, false)
		return n
	case 1:
		n := vpNamed(vpApp, "T", types.NewSlice(vpStr))
		methods(n, true)
		return n
	case 2:
		return vpNamed(vpApp, "T", vpIface(ms))
	case 3: // an interface that embeds others
		var es []types.Type
		for _, m := range ms {
			es = append(es, vpNamed(vpApp, "E", vpIface([]vpMethod{m})))
		}
		i := types.NewInterfaceType(nil, es)
		i.Complete()
		return vpNamed(vpApp, "T", i)
	case 4: // a struct that embeds a type with the methods
		n := vpNamed(vpApp, "Base", vpEmpty)
		methods(n, vpBool())
		return embed(n)
	case 5:
		n := vpNamed(vpApp, "Base", vpEmpty)
		methods(n, true)
		return embed(types.NewPointer(n))
	case 6:
		return embed(vpNamed(vpApp, "Base", vpIface(ms)))
	}
	panic("unreachable")
}

func vpTypesWith(ts []types.Type, i int, t types.Type) []types.Type {
	out := append([]types.Type(nil), ts...)
	out[i] = t
	return out
}

// A type is taken to implement an interface exactly when go/types says so.
func VP_A08_Implements() {
	c := vpInterfaces[vpChoose(len(vpInterfaces))]
	ms := append([]vpMethod(nil), c.methods...)
	k := vpChoose(len(ms))
	m := &ms[k]
	switch vpChoose(8) {
	case 0: // as it should be
	case 1:
		i := vpChoose(len(vpTypes))
		for j := range m.params {
			if vpBool() {
				vpAssume(!m.variadic || j < len(m.params)-1)
				m.params = vpTypesWith(m.params, j, vpTypes[i])
				break
			}
		}
	case 2:
		i := vpChoose(len(vpTypes))
		for j := range m.results {
			if vpBool() {
				m.results = vpTypesWith(m.results, j, vpTypes[i])
				break
			}
		}
	case 3:
		if m.variadic {
			m.variadic = false
		} else {
			m.params = append(append([]types.Type(nil), m.params...), vpStr)
		}
	case 4:
		if len(m.params) > 0 && !m.variadic {
			m.params = m.params[1:]
		}
	case 5:
		if vpBool() && len(m.results) > 0 {
			m.results = m.results[1:]
		} else {
			m.results = append(append([]types.Type(nil), m.results...), vpErr)
		}
	case 6:
		m.name = []string{m.name + "2", "x" + m.name}[vpChoose(2)]
	case 7: // some other method besides, or the method gone
		if vpBool() {
			ms = append(ms, vpMethod{"Other", nil, nil, false})
		} else {
			ms = append(append([]vpMethod(nil), ms[:k]...), ms[k+1:]...)
		}
	}
	n := vpDeclare(ms)
	want := types.Implements(n, vpIface(c.methods))
	if _, is := n.Underlying().(*types.Interface); !is {
		want = types.Implements(types.NewPointer(n), vpIface(c.methods))
	}
	got := c.is(n)
	vpAssert(got || !want, "a type that implements the interface is not recognised")
	vpAssert(!got || want, "a type that does not implement the interface is taken to")
	vpReach("checked")
}
