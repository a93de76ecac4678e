package analysis

import (
	"go/token"
	"go/types"
	"strconv"

	"github.com/frk/gosql/internal/config"
)

// Go types built by hand, the way go/types would for a file of package
// "example.com/app/db": directive types are named struct types of package
// github.com/frk/gosql whose single field is _isdir.

var (
	vpPkg       = types.NewPackage("example.com/app/db", "db")
	vpModel     = types.NewPackage("example.com/app/model", "model")
	vpFilterPkg = types.NewPackage("github.com/frk/gosql/filter", "filter")
	vpGosql     = types.NewPackage("github.com/frk/gosql", "gosql")
)

func vpNamed(pkg *types.Package, name string, under types.Type) *types.Named {
	return types.NewNamed(types.NewTypeName(token.NoPos, pkg, name, nil), under, nil)
}

var vpSeq int

// vpFresh returns a type name not used before in this process: the analysis
// caches record types by name.
func vpFresh(name string) string {
	vpSeq++
	return name + strconv.Itoa(vpSeq)
}

func vpDirType(name string) types.Type {
	f := types.NewField(token.NoPos, vpGosql, "_isdir", types.NewStruct(nil, nil), false)
	return vpNamed(vpGosql, name, types.NewStruct([]*types.Var{f}, nil))
}

// vpS collects the fields of a struct type under construction.
type vpS struct {
	fields []*types.Var
	tags   []string
}

func (s *vpS) add(name string, t types.Type, tag string) *vpS {
	s.fields = append(s.fields, types.NewField(token.NoPos, vpPkg, name, t, false))
	s.tags = append(s.tags, tag)
	return s
}

func (s *vpS) dir(name, tag string) *vpS { return s.add("_", vpDirType(name), tag) }

func (s *vpS) typ() *types.Struct { return types.NewStruct(s.fields, s.tags) }

func vpStruct() *vpS { return new(vpS) }

var vpCfg = config.Config{
	FilterColumnKeyTag:       config.String{Value: "json"},
	FilterColumnKeySeparator: config.String{Value: "."},
}

func vpRun(name string, s *vpS) (*Info, error) { return vpRunCfg(name, s, vpCfg) }

func vpRunCfg(name string, s *vpS, cfg config.Config) (*Info, error) {
	n := vpNamed(vpPkg, name, s.typ())
	return Run(token.NewFileSet(), n, token.NoPos, cfg)
}

// vpTag puts raw bytes between the quotes of a struct tag.
func vpTag(key, val string) string { return key + `:"` + val + `"` }

func vpBasic(k types.BasicKind) types.Type { return types.Typ[k] }

// vpUser is a record type with one column.
func vpUser() types.Type {
	return vpNamed(vpPkg, "User", vpStruct().add("Id", vpBasic(types.Int), `sql:"id"`).typ())
}

// vpPlain keeps a symbolic byte out of the struct tag syntax itself: quotes,
// backslashes and control characters.
func vpPlain(b byte) bool { return vpAnd(b >= 0x20, b != '"', b != '\\', b != 0x7f) }

func vpWord(c byte) bool {
	return vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z'), vpAnd(c >= '0', c <= '9'), c == '_')
}
func vpWord0(c byte) bool {
	return vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z'), c == '_')
}

// vpFilterIface is an interface type with the methods of gosql.FilterConstructor.
func vpFilterIface() types.Type {
	v := func(t types.Type) *types.Var { return types.NewParam(token.NoPos, vpGosql, "", t) }
	fn := func(params ...types.Type) *types.Signature {
		var ps []*types.Var
		for _, p := range params {
			ps = append(ps, v(p))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), nil, false)
	}
	str := types.Typ[types.String]
	anyT := types.NewInterfaceType(nil, nil)
	m := func(name string, s *types.Signature) *types.Func { return types.NewFunc(token.NoPos, vpGosql, name, s) }
	it := types.NewInterfaceType([]*types.Func{
		m("Init", fn(types.NewMap(str, str), str)),
		m("InitV2", fn(types.NewMap(str, vpNamed(vpFilterPkg, "Column", types.NewStruct(nil, nil))), str)),
		m("Col", fn(str, str, anyT)),
		m("And", fn(fn())),
		m("Or", fn(fn())),
	}, nil)
	it.Complete()
	return vpNamed(vpGosql, "FilterConstructor", it)
}

func vpFieldType(i int) types.Type {
	switch i {
	case 1:
		return types.NewSlice(types.Typ[types.Int])
	case 2:
		return types.NewArray(types.Typ[types.Int], 3)
	}
	return types.Typ[types.Int]
}

// vpRecord analyses a query over a record type and returns its fields.
func vpRecord(s *vpS) []*FieldInfo {
	info, err := vpRun("SelectUser", vpStruct().add("User", vpNamed(vpPkg, vpFresh("User"), s.typ()), `rel:"u"`))
	vpAssert(err == nil, "a record type is rejected")
	return info.Struct.(*QueryStruct).Rel.Type.Fields
}


// vpNames are field names.
var vpNames = []string{"A", "B", "C", "D"}
