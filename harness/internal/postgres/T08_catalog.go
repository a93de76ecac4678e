package postgres

import (
	"database/sql"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

//vp:export internal/postgres:server

// What the database says about itself is what targets are checked against.

//vp:stub database/sql.Open
func vpT08Open(driver, dsn string) (*sql.DB, error) { return new(sql.DB), nil }

//vp:stub (*database/sql.DB).Ping
func vpT08Ping(db *sql.DB) error { return nil }

//vp:stub (*database/sql.DB).Close
func vpT08Close(db *sql.DB) error { return nil }

type vpRow = map[string]any

func vpTypeRow(o oid.OID, name, format, typ, cat string, elem oid.OID) vpRow {
	return vpRow{"oid": int64(o), "typname": name, "(format)": format, "typlen": int64(4), "typtype": typ,
		"typcategory": cat, "typispreferred": false, "typelem": int64(elem), "(visible)": true}
}

// vpServer is a server without relations.
func vpServer() *VPServer {
	version := []string{"90624", "100000", "110002", "160003"}[vpChoose(4)]
	old := len(version) == 5 || version == "100000"
	s := &VPServer{
		Settings: map[string]string{"search_path": `"$user", public`, "server_version_num": version},
		Tables: map[string][]map[string]any{
			"pg_type": {
				vpTypeRow(oid.Int4, "int4", "integer", "b", "N", 0), vpTypeRow(oid.Text, "text", "text", "b", "S", 0),
				vpTypeRow(oid.Int4Arr, "_int4", "integer[]", "b", "A", oid.Int4),
			},
			"pg_operator": {}, "pg_cast": {}, "pg_proc": {}, "pg_class": {}, "pg_attribute": {}, "pg_index": {}, "pg_constraint": {},
			"pg_namespace": {{"oid": int64(11), "nspname": "pg_catalog"}, {"oid": int64(2200), "nspname": "public"}},
		},
		Regclass: func(string) int64 { return 0 },
		Typeof:   func(string) int64 { return int64(oid.Text) },
	}
	vpOld = old
	return s
}

var vpOld bool // the server is older than version 11

func vpProcRow(o int64, name string, args VPVec, ret oid.OID, agg bool) vpRow {
	r := vpRow{"oid": o, "proname": name, "proargtypes": args, "pronargs": int64(len(args)), "prorettype": int64(ret)}
	if vpOld {
		r["proisagg"] = agg
	} else {
		r["prokind"] = "f"
		if agg {
			r["prokind"] = "a"
		}
	}
	return r
}

func vpIndexRow(o, rel int64, key VPVec, nkey int, def string, pred any) vpRow {
	r := vpRow{"indexrelid": o, "indrelid": rel, "indnatts": int64(len(key)), "indkey": key, "indisunique": false, "indisprimary": false,
		"indisexclusion": false, "indimmediate": true, "indisready": true, "indpred": pred, "(definition)": def}
	if !vpOld {
		r["indnkeyatts"] = int64(nkey)
	}
	return r
}

func vpOpenServer(s *VPServer) (db *DB, err error, stop func()) {
	dsn, stop := VPServe(s)
	db, err = Open(dsn)
	if err == nil {
		stop0 := stop
		stop = func() { db.Close(); stop0() }
	}
	return db, err, stop
}

// Types, operators, casts and functions.
func VP_T08_Catalog() {
	s := vpServer()
	switch vpChoose(4) {
	case 0: // types
		l := []vpRow{}
		for i := 0; i < 2; i++ {
			r := vpTypeRow(oid.OID(100+i), []string{"a", "b"}[i], []string{"a type", "b type"}[i], []string{"b", "c", "d", "e", "r"}[vpChoose(5)], []string{"A", "B", "N", "U", "P"}[vpChoose(5)], 0)
			r["typlen"], r["typispreferred"], r["typelem"] = int64(int16(vpU16())), vpBool(), int64(vpU8())
			l = append(l, r)
		}
		s.Tables["pg_type"] = append(s.Tables["pg_type"], l...)
		db, err, stop := vpOpenServer(s)
		defer stop()
		vpAssert(err == nil, "the catalog is not read")
		for _, r := range l {
			if r["typcategory"] == "P" {
				continue
			}
			t := db.catalog.Types[oid.OID(r["oid"].(int64))]
			vpAssert(t != nil, "a type is missing")
			vpAssert(vpAnd(int64(t.OID) == r["oid"].(int64), t.Name == r["typname"], t.NameFmt == r["(format)"], int64(t.Length) == r["typlen"].(int64),
				string(t.Type) == r["typtype"], string(t.Category) == r["typcategory"], t.IsPreferred == r["typispreferred"].(bool), int64(t.Elem) == r["typelem"].(int64)), "a type is another one")
		}
		vpReach("types")
	case 1: // operators
		name := []string{"=", "<>", "~~", "||"}[vpChoose(4)]
		l, r := oid.OID(vpU8()), oid.OID(vpU8())
		l2 := oid.OID(vpU8())
		vpAssume(l2 != l)
		s.Tables["pg_operator"] = []map[string]any{
			{"oid": int64(901), "oprname": name, "oprkind": "b", "oprleft": int64(l), "oprright": int64(r), "oprresult": int64(16)},
			{"oid": int64(902), "oprname": name, "oprkind": "b", "oprleft": int64(l2), "oprright": int64(r), "oprresult": int64(23)},
			{"oid": int64(903), "oprname": "-", "oprkind": "l", "oprleft": int64(0), "oprright": int64(r), "oprresult": int64(r)},
		}
		db, err, stop := vpOpenServer(s)
		defer stop()
		vpAssert(err == nil, "the catalog is not read")
		a, b, c := db.catalog.Operators[OpKey{Name: name, Left: l, Right: r}], db.catalog.Operators[OpKey{Name: name, Left: l2, Right: r}], db.catalog.Operators[OpKey{Name: "-", Right: r}]
		vpAssert(a != nil && b != nil && c != nil, "an operator is missing")
		vpAssert(a.OID == 901 && a.Result == 16 && b.OID == 902 && b.Result == 23 && c.OID == 903 && c.Result == r, "an operator is another one")
		vpAssert(a.Left == l && a.Right == r && a.Name == name && b.Left == l2, "an operator has other operands")
		vpReach("operators")
	case 2: // casts
		a, b := oid.OID(vpU8()), oid.OID(vpU8())
		vpAssume(a != b)
		k, k2 := []string{"e", "i", "a"}[vpChoose(3)], []string{"e", "i", "a"}[vpChoose(3)]
		s.Tables["pg_cast"] = []map[string]any{
			{"oid": int64(801), "castsource": int64(a), "casttarget": int64(b), "castcontext": k},
			{"oid": int64(802), "castsource": int64(b), "casttarget": int64(a), "castcontext": k2},
		}
		db, err, stop := vpOpenServer(s)
		defer stop()
		vpAssert(err == nil, "the catalog is not read")
		x, y := db.catalog.Casts[CastKey{Source: a, Target: b}], db.catalog.Casts[CastKey{Source: b, Target: a}]
		vpAssert(x != nil && y != nil, "a cast is missing")
		vpAssert(vpAnd(x.Source == a, x.Target == b, string(x.Context) == k, y.Source == b, y.Target == a, string(y.Context) == k2), "a cast is another one")
		vpReach("casts")
	case 3: // functions
		b := vpBytes(vpBound("letters of a function", 4, 5))
		for _, c := range b {
			vpAssume(vpOr(vpAnd(c >= 'a', c <= 'z'), c == '_'))
		}
		name, agg := string(b), vpBool()
		arg, ret := int64(vpU8()), oid.OID(vpU8())
		s.Tables["pg_proc"] = []map[string]any{
			vpProcRow(701, name, VPVec{arg}, ret, agg), vpProcRow(702, name, VPVec{arg, 23}, ret, false),
			vpProcRow(703, name, VPVec{}, ret, false), vpProcRow(704, "lower", VPVec{25}, 25, !agg), vpProcRow(705, "lower", VPVec{26}, 25, agg),
		}
		db, err, stop := vpOpenServer(s)
		defer stop()
		vpAssert(err == nil, "the catalog is not read")
		l := db.catalog.Procs["lower"]
		vpAssert(len(l) == 2, "a function is missing")
		if l[0].OID != 704 {
			l[0], l[1] = l[1], l[0]
		}
		vpAssert(l[0].OID == 704 && l[1].OID == 705 && l[0].ArgType == 25 && l[1].ArgType == 26 && l[0].IsAgg == !agg && l[1].IsAgg == agg, "a function is another one")
		if vpAnd(b[0] == 'p', b[1] == 'g', b[2] == '_') || vpAnd(b[0] == '_', b[1] == 'p', b[2] == 'g', b[3] == '_') {
			vpReach("internal")
			return // the database's own
		}
		l = db.catalog.Procs[name]
		vpAssert(len(l) == 1, "a function is missing, or takes another number of arguments")
		vpAssert(vpAnd(l[0].OID == 701, l[0].Name == name, int64(l[0].ArgType) == arg, l[0].RetType == ret, l[0].IsAgg == agg), "a function is another one")
		vpReach("functions")
	}
}

// vpLoad checks a target over the relation, and gives what is known about it.
func vpLoadRel(db *DB, id analysis.RelIdent) (*Relation, error) {
	qs := &analysis.QueryStruct{TypeName: "Query", Kind: analysis.QueryKindSelectCount, Rel: &analysis.RelField{FieldName: "R", Id: id}}
	_, err := vpCheckTarget(db, qs)
	return db.catalog.Relations[id], err
}

// Relations with their columns, constraints and indexes.
func VP_T08_Relation() {
	part := vpChoose(3) // what varies: columns, indexes, constraints
	choose := func(in, n int) int {
		if in != part {
			return 0
		}
		return vpChoose(n)
	}
	flip := func(in int) bool { return in == part && vpBool() }
	s := vpServer()
	id := analysis.RelIdent{Name: "users"}
	asked := "users"
	if flip(2) {
		id.Qualifier, asked = "app", "app.users"
	}
	kind := []string{"r", "p", "f", "v", "m"}[choose(0, 5)]
	s.Regclass = func(name string) int64 {
		if name == asked {
			return 5001
		}
		return 5002
	}
	s.Tables["pg_class"] = []map[string]any{
		{"oid": int64(5002), "relname": "others", "relkind": "r", "relnamespace": int64(2200)},
		{"oid": int64(5001), "relname": "users", "relkind": kind, "relnamespace": int64(2200)},
		{"oid": int64(5003), "relname": "users_pkey", "relkind": "i", "relnamespace": int64(2200)},
		{"oid": int64(5004), "relname": "users_key", "relkind": "i", "relnamespace": int64(2200)},
	}
	types := []oid.OID{oid.Int4, oid.Text, oid.Int4Arr}
	att := func(rel, num int64, name string, t oid.OID) vpRow {
		return vpRow{"attrelid": rel, "attnum": num, "attname": name, "atttypmod": int64(-1), "attnotnull": false, "atthasdef": false, "attndims": int64(0), "atttypid": int64(t), "attisdropped": false}
	}
	cols := []vpRow{}
	base := []int64{0, 126, 1597}[choose(1, 3)] // the numbers of columns that were dropped come first
	for i := int64(1); i <= 3; i++ {
		r := att(5001, base+i, []string{"id", "email", "tags"}[i-1], types[i-1])
		if i < 3 && part == 0 {
			r["attnotnull"], r["atthasdef"] = vpBool(), vpBool()
			r["atttypmod"] = int64(int16(vpU16()))
			r["attndims"] = int64(vpU8())
		}
		cols = append(cols, r)
	}
	dropped := choose(0, 4)
	if dropped < 3 {
		cols[dropped]["attisdropped"] = true
	}
	// rows come in any order
	rows := []vpRow{cols[2], att(5002, 1, "id", oid.Text), att(5001, -1, "ctid", oid.Text), cols[0], cols[1]}
	if flip(0) {
		rows = []vpRow{att(5001, -1, "ctid", oid.Text), cols[0], cols[1], cols[2], att(5002, 2, "name", oid.Text)}
	}
	s.Tables["pg_attribute"] = rows
	// a primary key with columns that are only included, and another index
	pk := []VPVec{{1}, {1, 2}, {2, 1}, {3}}[choose(1, 4)]
	for i := range pk {
		pk[i] += base
	}
	nkey := len(pk)
	if !vpOld && flip(1) {
		nkey = 1
	}
	pkey := vpIndexRow(5003, 5001, pk, nkey, "CREATE UNIQUE INDEX users_pkey ON public.users USING btree (id)", nil)
	pkey["indisprimary"], pkey["indisunique"] = part != 1 || vpBool(), true
	key := vpIndexRow(5004, 5001, VPVec{base + 2, 0}, 2, "CREATE INDEX users_key ON public.users USING btree (email, lower(email)) WHERE (id > 1)", nil)
	if flip(1) {
		key["indpred"] = "id > 1"
	}
	flags := []string{"indisunique", "indisexclusion", "indimmediate", "indisready"}
	flag := flags[choose(1, len(flags))]
	key[flag] = flip(1)
	s.Tables["pg_index"] = []map[string]any{pkey, vpIndexRow(5005, 5002, VPVec{1}, 1, "CREATE INDEX x ON others (id)", nil), key}
	far := []int64{2, 1600}[choose(2, 2)]
	con := vpRow{"oid": int64(6001), "conname": "users_pkey", "contype": []string{"p", "u", "x"}[choose(2, 3)], "condeferrable": flip(2), "condeferred": flip(2),
		"conkey": VPArr{1, far}, "confkey": nil, "conrelid": int64(5001), "conindid": int64(5003)}
	con2 := vpRow{"oid": int64(6000), "conname": "users_fkey", "contype": "f", "condeferrable": false, "condeferred": false,
		"conkey": VPArr{2}, "confkey": VPArr{4, 1}, "conrelid": int64(5001), "conindid": int64(0)}
	con3 := vpRow{"oid": int64(6002), "conname": "others_key", "contype": "u", "condeferrable": false, "condeferred": false,
		"conkey": VPArr{1}, "confkey": nil, "conrelid": int64(5002), "conindid": int64(5005)}
	s.Tables["pg_constraint"] = []map[string]any{con, con3, con2}

	db, err, stop := vpOpenServer(s)
	defer stop()
	vpAssert(err == nil, "the catalog is not read")
	rel, err := vpLoadRel(db, id)
	vpAssert(err == nil && rel != nil, "the relation is not read")
	vpAssert(rel.OID == 5001 && rel.Name == "users" && rel.Schema == "public" && string(rel.RelKind) == kind, "another relation is read")
	k := 0
	for i, r := range cols {
		if i == dropped {
			continue
		}
		vpAssert(k < len(rel.Columns), "a column is missing")
		c := rel.Columns[k]
		k++
		vpAssert(int64(c.Num) == r["attnum"].(int64) && c.Name == r["attname"] && c.Relation == rel, "the columns are others, or in another order")
		vpAssert(vpAnd(int64(c.TypeMod) == r["atttypmod"].(int64), c.HasNotNull == r["attnotnull"].(bool), c.HasDefault == r["atthasdef"].(bool), int64(c.NumDims) == r["attndims"].(int64)), "a column is another one")
		vpAssert(c.Type == db.catalog.Types[types[i]] && c.TypeOID == types[i], "a column has another type")
		prim := false
		for _, n := range pk[:nkey] {
			prim = prim || n == int64(c.Num)
		}
		vpAssert(c.IsPrimary == vpAnd(prim, pkey["indisprimary"].(bool)), "a column is missing from the primary key, or taken for a part of it")
		if kind == "r" || kind == "p" || kind == "f" {
			vpAssert(c.IsNULLable() == !r["attnotnull"].(bool), "a column that may be NULL is taken for one that may not, or the reverse")
		}
	}
	vpAssert(k == len(rel.Columns), "there is a column too many")
	vpAssert(len(rel.Indexes) == 2, "an index is missing, or another relation's")
	p, q := rel.Indexes[0], rel.Indexes[1]
	vpAssert(p.OID == 5003 && p.Name == "users_pkey" && p.IsUnique && p.IsPrimary == pkey["indisprimary"].(bool) && p.IsImmediate && p.IsReady && !p.IsExclusion && p.Predicate == "" && p.Expression == "id", "an index is another one")
	vpAssert(len(p.Key) == nkey, "an index has another key")
	for i, n := range pk[:nkey] {
		vpAssert(int64(p.Key[i]) == n, "an index has another key")
	}
	vpAssert(q.OID == 5004 && q.Name == "users_key" && len(q.Key) == 2 && int64(q.Key[0]) == base+2 && q.Key[1] == 0 && q.Expression == "email, lower(email)", "an index is another one")
	vpAssert(vpAnd(q.IsUnique == key["indisunique"].(bool), q.IsPrimary == false, q.IsExclusion == key["indisexclusion"].(bool), q.IsImmediate == key["indimmediate"].(bool), q.IsReady == key["indisready"].(bool)), "an index has other flags")
	vpAssert((q.Predicate != "") == (key["indpred"] != nil) && (q.Predicate == "" || q.Predicate == "id > 1"), "an index has another predicate")
	vpAssert(len(rel.Constraints) == 2, "a constraint is missing, or another relation's")
	c1, c2 := rel.Constraints[1], rel.Constraints[0]
	vpAssert(c1.OID == 6001 && c1.Name == "users_pkey" && string(c1.Type) == con["contype"] && len(c1.Key) == 2 && c1.Key[0] == 1 && int64(c1.Key[1]) == far && len(c1.FKey) == 0, "a constraint is another one")
	vpAssert(vpAnd(c1.IsDeferrable == con["condeferrable"].(bool), c1.IsDeferred == con["condeferred"].(bool)), "a constraint has other flags")
	vpAssert(c2.OID == 6000 && c2.Name == "users_fkey" && string(c2.Type) == "f" && len(c2.Key) == 1 && c2.Key[0] == 2 && len(c2.FKey) == 2 && c2.FKey[0] == 4 && c2.FKey[1] == 1, "a constraint is another one")
	vpReach("relation")
}

// A query that fails, at once or midway, is reported.
func VP_T08_Failures() {
	s := vpServer()
	s.Regclass = func(name string) int64 {
		if name == "users" {
			return 5001
		}
		return 0
	}
	att := func(num int64, name string, t int64) vpRow {
		return vpRow{"attrelid": int64(5001), "attnum": num, "attname": name, "atttypmod": int64(-1), "attnotnull": false, "atthasdef": false, "attndims": int64(0), "atttypid": t, "attisdropped": false}
	}
	con := func(o int64) vpRow {
		return vpRow{"oid": o, "conname": "c", "contype": "u", "condeferrable": false, "condeferred": false, "conkey": VPArr{1}, "confkey": nil, "conrelid": int64(5001), "conindid": int64(0)}
	}
	unknown := vpBool() // a column's type
	t := int64(oid.Int4)
	if unknown {
		t = 99999
	}
	s.Tables["pg_class"] = []map[string]any{{"oid": int64(5001), "relname": "users", "relkind": "r", "relnamespace": int64(2200)},
		{"oid": int64(5003), "relname": "a", "relkind": "i", "relnamespace": int64(2200)}, {"oid": int64(5004), "relname": "b", "relkind": "i", "relnamespace": int64(2200)}}
	s.Tables["pg_attribute"] = []map[string]any{att(1, "id", int64(oid.Int4)), att(2, "n", t)}
	s.Tables["pg_index"] = []map[string]any{vpIndexRow(5003, 5001, VPVec{1}, 1, "CREATE INDEX a ON users (id)", nil), vpIndexRow(5004, 5001, VPVec{2}, 1, "CREATE INDEX b ON users (n)", nil)}
	s.Tables["pg_constraint"] = []map[string]any{con(6001), con(6002)}
	s.Tables["pg_operator"] = []map[string]any{
		{"oid": int64(901), "oprname": "=", "oprkind": "b", "oprleft": int64(23), "oprright": int64(23), "oprresult": int64(16)},
		{"oid": int64(902), "oprname": "=", "oprkind": "b", "oprleft": int64(25), "oprright": int64(25), "oprresult": int64(16)}}
	s.Tables["pg_cast"] = []map[string]any{
		{"oid": int64(801), "castsource": int64(1), "casttarget": int64(2), "castcontext": "i"},
		{"oid": int64(802), "castsource": int64(2), "casttarget": int64(1), "castcontext": "i"}}
	s.Tables["pg_proc"] = []map[string]any{vpProcRow(704, "lower", VPVec{25}, 25, false), vpProcRow(705, "upper", VPVec{25}, 25, false)}
	s.FailAt, s.FailRows = vpChoose(14), vpChoose(2)
	missing := vpBool()
	id := analysis.RelIdent{Name: "users"}
	if missing {
		id.Name = "missing"
	}
	db, err, stop := vpOpenServer(s)
	defer stop()
	n := s.Asked
	if err == nil {
		_, err = vpLoadRel(db, id)
		n = s.Asked
	}
	failed := s.FailAt > 0 && s.FailAt <= n
	vpObs("err", err == nil)
	vpAssert((err != nil) == (failed || missing || unknown), "a failure goes unreported, or there is one without a cause")
	if err == nil {
		// what was read is not read again
		s.FailAt = s.Asked + 1
		_, err := vpLoadRel(db, id)
		vpAssert(err == nil, "the relation is lost")
		vpReach("read")
	} else if failed {
		vpReach("failure")
		// nothing of what failed is kept
		if db != nil && !missing && !unknown {
			s.FailAt = 0
			rel, err := vpLoadRel(db, id)
			vpAssert(err == nil && len(rel.Columns) == 2 && len(rel.Indexes) == 2 && len(rel.Constraints) == 2, "a relation that was read in part is kept")
			vpReach("again")
		}
	}
}

// The type of a literal is the one the database gives it.
func VP_T08_Literals() {
	s := vpServer()
	s.Regclass = func(name string) int64 { return 5001 }
	s.Tables["pg_class"] = []map[string]any{{"oid": int64(5001), "relname": "users", "relkind": "r", "relnamespace": int64(2200)}}
	s.Tables["pg_attribute"] = []map[string]any{
		{"attrelid": int64(5001), "attnum": int64(1), "attname": "id", "atttypmod": int64(-1), "attnotnull": false, "atthasdef": false, "attndims": int64(0), "atttypid": int64(oid.Int4), "attisdropped": false},
		{"attrelid": int64(5001), "attnum": int64(2), "attname": "name", "atttypmod": int64(-1), "attnotnull": false, "atthasdef": false, "attndims": int64(0), "atttypid": int64(oid.Text), "attisdropped": false},
	}
	types := []oid.OID{oid.Int4, oid.Text, oid.Int4Arr, 99999}
	s.Tables["pg_operator"] = []map[string]any{}
	l, r := vpChoose(2), vpChoose(4)
	has := vpBool()
	if has {
		s.Tables["pg_operator"] = append(s.Tables["pg_operator"], vpRow{"oid": int64(901), "oprname": "<", "oprkind": "b", "oprleft": int64(types[l]), "oprright": int64(types[r]), "oprresult": int64(16)})
	}
	lit := []string{"1", "'a b'", "(1+(2))", "now()", "'it''s'", "ARRAY[1,2]", "'%s'", "'100%'"}[vpChoose(8)]
	asked := ""
	s.Typeof = func(expr string) int64 {
		asked = expr
		return int64(types[r])
	}
	db, err, stop := vpOpenServer(s)
	defer stop()
	vpAssert(err == nil, "the catalog is not read")
	id := analysis.RelIdent{Name: "users"}
	_, err = vpLoadRel(db, id)
	vpAssert(err == nil, "the relation is not read")
	fails := vpBool()
	if fails {
		s.FailAt = s.Asked + 1
	}
	wcd := &analysis.WhereColumnDirective{LHSColIdent: analysis.ColIdent{Name: []string{"id", "name"}[l]}, RHSLiteral: lit, Predicate: analysis.IsLT}
	qs := &analysis.QueryStruct{
		TypeName: "Query", Kind: analysis.QueryKindSelectCount, Rel: &analysis.RelField{FieldName: "R", Id: id},
		Where: &analysis.WhereStruct{FieldName: "Where", Items: []analysis.WhereItem{wcd}},
	}
	res, err := vpCheckTarget(db, qs)
	vpObs("asked", asked)
	vpAssert(asked == lit, "another literal is asked about")
	ok := vpAnd(!fails, types[r] != 99999, vpOr(types[l] == types[r], has))
	vpAssert((err == nil) == ok, "a comparison with a literal is rejected though the database has it, or accepted though it does not")
	if err != nil {
		vpReach("rejected")
		return
	}
	cond, _ := res.Where[0].(*ColumnConditional)
	vpAssert(cond != nil && cond.RHSLiteral == lit && cond.RHSType == db.catalog.Types[types[r]], "a literal has another type")
	vpReach("accepted")
}

// A relation is the one whose name is written in the generated queries, where it is quoted
// and its qualifier is not.
func VP_T08_Names() {
	s := vpServer()
	a, b := vpByte(), vpByte()
	letter := func(c byte) bool { return vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z')) }
	vpAssume(vpAnd(letter(a), vpOr(letter(b), vpAnd(b >= '0', b <= '9'), b == '_')))
	name := string([]byte{a, b})
	id := analysis.RelIdent{Name: name}
	schema := ""
	if vpBool() {
		id.Qualifier, schema = []string{"app", "App"}[vpChoose(2)], "app."
	}
	s.Regclass = func(n string) int64 {
		if n == schema+name {
			return 5001
		}
		return 0
	}
	s.Tables["pg_class"] = []map[string]any{{"oid": int64(5001), "relname": name, "relkind": "r", "relnamespace": int64(2200)}}
	s.Tables["pg_attribute"] = []map[string]any{{"attrelid": int64(5001), "attnum": int64(1), "attname": "id", "atttypmod": int64(-1), "attnotnull": false, "atthasdef": false, "attndims": int64(0), "atttypid": int64(oid.Int4), "attisdropped": false}}
	db, err, stop := vpOpenServer(s)
	defer stop()
	vpAssert(err == nil, "the catalog is not read")
	rel, err := vpLoadRel(db, id)
	vpObs("found", err == nil)
	vpAssert(err == nil && rel.Name == name, "a relation that the generated queries name is another one in the check, or none")
	vpReach("named")
}
