package postgres

import (
	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

// VPDatabase is a database whose catalog is given.
func VPDatabase(types ...*Type) *DB {
	cat := &Catalog{
		Types:     map[oid.OID]*Type{},
		Operators: map[OpKey]*Operator{},
		Casts:     map[CastKey]*Cast{},
		Procs:     map[string][]*Proc{},
		Relations: map[analysis.RelIdent]*Relation{},
	}
	for _, t := range types {
		cat.Types[t.OID] = t
	}
	return &DB{dsn: "dsn", name: "db", user: "u", searchpath: "public", version: 160000, catalog: cat}
}

func VPCatalog(db *DB) *Catalog { return db.catalog }
