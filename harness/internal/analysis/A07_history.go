package analysis

import (
	"go/token"
	"go/types"
)

// The result of an analysis depends on its target only, not on what the process
// analysed before: another target over the same record, from another package,
// or one that failed.
func VP_A07_History() {
	pkgs := []*types.Package{vpPkg, vpModel}
	rpkg := pkgs[vpChoose(2)]
	bad := vpBool() // the record itself is malformed
	inner := vpNamed(rpkg, vpFresh("Inner"), vpStruct().add("G", vpBasic(types.Int), `sql:"g"`).add("h", vpBasic(types.Int), `sql:"h"`).typ())
	s := vpStruct().add("F", vpBasic(types.Int), `sql:"f,ro"`).add("N", inner, `sql:">n_"`)
	s.fields = append(s.fields, types.NewField(token.NoPos, rpkg, "x", types.Typ[types.Int], false))
	s.tags = append(s.tags, `sql:"x"`)
	s.add("K", vpNamed(rpkg, vpFresh("Key"), types.Typ[types.String]), `sql:"k"`)
	if bad {
		s.add("Z", vpBasic(types.Int), `sql:"1"`)
	}
	name := vpFresh("User")
	rec := vpNamed(rpkg, name, s.typ())
	shape := func() types.Type {
		switch vpChoose(4) {
		case 1:
			return types.NewPointer(rec)
		case 2:
			return types.NewSlice(types.NewPointer(rec))
		case 3:
			p := types.NewParam(token.NoPos, nil, "", types.NewPointer(rec))
			r := types.NewParam(token.NoPos, nil, "", types.Universe.Lookup("error").Type())
			return types.NewSignatureType(nil, nil, nil, types.NewTuple(p), types.NewTuple(r), false)
		}
		return rec
	}
	n := 1 + vpChoose(vpBound("earlier and later analyses", 2, 3))
	for i := 0; i < n; i++ {
		pkg := pkgs[vpChoose(2)]
		t := shape()
		q := vpNamed(pkg, vpFresh("SelectUser"), vpStruct().add("User", t, `rel:"u"`).typ())
		info, err := Run(token.NewFileSet(), q, token.NoPos, vpCfg)
		imp := rpkg != pkg
		if err != nil {
			vpAssert(bad, "a well formed query is rejected")
			vpReach("rejected")
			continue
		}
		vpAssert(!bad, "a malformed record is accepted")
		rt := info.Struct.(*QueryStruct).Rel.Type
		vpAssert(rt.Base.Name == name, "wrong record")
		vpAssert(rt.Base.IsImported == imp, "a record is wrongly (not) imported")
		nf := 5
		if imp {
			nf = 3
		}
		vpAssert(len(rt.Fields) == nf, "wrong fields of a record")
		for _, f := range rt.Fields {
			switch f.Name {
			case "K":
				vpAssert(f.Type.IsImported == imp, "a field's type is wrongly (not) imported")
			case "F":
				vpAssert(f.IsReadOnly(), "an option is lost")
			case "G", "h":
				vpAssert(len(f.Selector) == 1, "a selector is lost")
				vpAssert(f.Selector[0].IsImported == imp, "a nested field is wrongly (not) imported")
			}
			vpAssert(info.FieldMap[f].Var != nil, "a field is not known to the error reports")
		}
		vpReach("analysed")
	}
}

// Two records that have everything but their package's path in common are two records.
func VP_A07_SameNames() {
	name := vpFresh("User")
	key := "k" + name
	pkgs := []*types.Package{
		types.NewPackage("example.com/a/"+key, key),
		types.NewPackage("example.com/b/"+key, key),
		types.NewPackage("example.com/"+key, key),
	}
	field := []string{"A", "B", "C"}
	var recs []*types.Named
	for i, p := range pkgs {
		recs = append(recs, vpNamed(p, name, vpStruct().add(field[i], vpBasic(types.Int), `sql:"x"`).typ()))
	}
	form := vpChoose(3)
	n := 2 + vpChoose(vpBound("further analyses", 1, 2))
	for i := 0; i < n; i++ {
		k := vpChoose(len(recs))
		var t types.Type = recs[k]
		switch form {
		case 1:
			t = types.NewPointer(t)
		case 2:
			t = types.NewSlice(types.NewPointer(t))
		}
		q := vpNamed(vpPkg, vpFresh("SelectUser"), vpStruct().add("User", t, `rel:"u"`).typ())
		info, err := Run(token.NewFileSet(), q, token.NoPos, vpCfg)
		vpAssert(err == nil, "a well formed query is rejected")
		if err != nil {
			continue
		}
		rt := info.Struct.(*QueryStruct).Rel.Type
		vpAssert(rt.Base.PkgPath == pkgs[k].Path(), "a record is taken for one of another package")
		vpAssert(len(rt.Fields) == 1 && rt.Fields[0].Name == field[k], "a query gets the fields of another package's record")
		vpReach("same names")
	}
}
