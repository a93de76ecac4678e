package postgres

import (
	"go/token"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

// The types of the model database.
var (
	vpInt4    = &Type{OID: oid.Int4, Name: "int4", NameFmt: "integer", Length: 4, Type: TypeTypeBase, Category: TypeCategoryNumeric}
	vpInt8    = &Type{OID: oid.Int8, Name: "int8", NameFmt: "bigint", Length: 8, Type: TypeTypeBase, Category: TypeCategoryNumeric}
	vpText    = &Type{OID: oid.Text, Name: "text", NameFmt: "text", Length: -1, Type: TypeTypeBase, Category: TypeCategoryString}
	vpBoolean = &Type{OID: oid.Bool, Name: "bool", NameFmt: "boolean", Length: 1, Type: TypeTypeBase, Category: TypeCategoryBoolean}
	vpInt4Arr = &Type{OID: oid.Int4Arr, Name: "_int4", NameFmt: "integer[]", Length: -1, Type: TypeTypeBase, Category: TypeCategoryArray, Elem: oid.Int4}
	vpTextArr = &Type{OID: oid.TextArr, Name: "_text", NameFmt: "text[]", Length: -1, Type: TypeTypeBase, Category: TypeCategoryArray, Elem: oid.Text}
)

func vpDatabase(types ...*Type) *DB {
	cat := &Catalog{
		Types:     map[oid.OID]*Type{},
		Operators: map[OpKey]*Operator{},
		Casts:     map[CastKey]*Cast{},
		Procs:     map[string][]*Proc{},
		Relations: map[analysis.RelIdent]*Relation{},
	}
	for _, t := range types {
		cat.Types[t.OID] = t
	}
	return &DB{dsn: "dsn", name: "db", user: "u", searchpath: "public", version: 160000, catalog: cat}
}

// vpTable adds a table to the database, known by the identifier id.
func vpTable(db *DB, id analysis.RelIdent, cols ...*Column) *Relation {
	r := &Relation{OID: 1000, Name: id.Name, Schema: "public", RelKind: RelKindOrdinaryTable}
	for i, c := range cols {
		if c.Num == 0 {
			c.Num = int16(i + 1)
		}
		c.Relation = r
		c.TypeOID = c.Type.OID
		r.Columns = append(r.Columns, c)
	}
	db.catalog.Relations[id] = r
	return r
}

func vpColumn(name string, t *Type) *Column { return &Column{Name: name, Type: t, TypeMod: -1} }

func vpID(name string) analysis.ColIdent { return analysis.ColIdent{Name: name} }

// vpField is a field of a record that belongs to the named column.
func vpField(col string, t analysis.TypeInfo) *analysis.FieldInfo {
	return &analysis.FieldInfo{Name: "F" + col, IsExported: true, ColIdent: vpID(col), Type: t, Mode: 15}
}

func vpKind(k analysis.TypeKind) analysis.TypeInfo { return analysis.TypeInfo{Kind: k} }

// vpCheckTarget type-checks a target; a panic is a violation.
func vpCheckTarget(db *DB, ts analysis.TargetStruct) (res *TargetInfo, err error) {
	info := &analysis.Info{FileSet: token.NewFileSet(), PkgPath: "example.com/app", TypeName: "Q"}
	ok := !vpPanics(func() { res, err = Check(db, ts, info) })
	vpAssert(ok, "the type checker panics")
	if !ok {
		vpSkip()
	}
	return res, err
}

func vpCode(err error) dbErrorCode {
	if e, ok := err.(*dbError); ok {
		return e.Code
	}
	return 0
}

var vpRel = analysis.RelIdent{Name: "t"}
