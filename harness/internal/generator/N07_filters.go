package generator

//vp:export internal/postgres

import (
	"go/ast"
	"go/token"
	"strconv"
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/postgres"
)

// Filter types: what their generated methods hand to the constructor.

// vpCol is a field of a filter's record that has a column.
type vpColF struct {
	name string // of the method: the names of the fields that lead to it
	key  string
	col  string
	null bool
	conv string
}

// vpFilterKind is the kind of the relation t: what of it can be NULL is for the
// columns to say, whatever kind it has.
var vpFilterKind = postgres.RelKindOrdinaryTable

// vpFilterDB has the table t, some columns of which can be NULL.
func vpFilterDB() *postgres.DB {
	db := vpDatabase()
	var cols []*postgres.Column
	for i := 0; i < 6; i++ {
		c := vpColumn("c"+strconv.Itoa(i), vpText)
		c.HasNotNull = i%2 == 0
		cols = append(cols, c)
	}
	cols = append(cols, vpColumn("ts", vpTSV))
	vpTable(db, []analysis.RelIdent{{Name: "t"}, {Name: "t", Alias: "x"}}, cols...).RelKind = vpFilterKind
	return db
}

// vpFilterMap reads the generated map of columns.
func vpFilterMap(p *vpProgram, name string, v2 bool) (keys []string, cols map[string]vpColF) {
	cols = map[string]vpColF{}
	text := func(x ast.Expr) string {
		l, ok := x.(*ast.BasicLit)
		if !ok || l.Kind != token.STRING {
			return "not a string"
		}
		s, err := strconv.Unquote(l.Value)
		vpAssert(err == nil, "a generated string is malformed")
		return s
	}
	for _, d := range p.out.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		vs := gd.Specs[0].(*ast.ValueSpec)
		if vs.Names[0].Name != name {
			continue
		}
		for _, el := range vs.Values[0].(*ast.CompositeLit).Elts {
			kv := el.(*ast.KeyValueExpr)
			c := vpColF{key: text(kv.Key)}
			if !v2 {
				c.col = text(kv.Value)
			} else {
				for _, fe := range kv.Value.(*ast.CompositeLit).Elts {
					fkv := fe.(*ast.KeyValueExpr)
					switch fkv.Key.(*ast.Ident).Name {
					case "Name":
						c.col = text(fkv.Value)
					case "IsNULLable":
						c.null = fkv.Value.(*ast.Ident).Name == "true"
					case "ConvertValue":
						switch f := fkv.Value.(type) {
						case *ast.Ident:
							c.conv = f.Name
						case *ast.SelectorExpr:
							c.conv = f.X.(*ast.Ident).Name + "." + f.Sel.Name
						}
					}
				}
			}
			keys = append(keys, c.key)
			cols[c.key] = c
		}
	}
	return keys, cols
}

// vpFilterCheck generates the methods of a filter and compares them with the fields.
func vpFilterCheck(p *vpProgram, typ, ctor, ts string, v2 bool, fields []vpColF, taken map[string]bool) {
	p.load()
	vpObs("source", p.src)
	err := p.analyse(vpFilterDB(), typ)
	vpFilterKind = postgres.RelKindOrdinaryTable
	vpAssert(err == nil, "a valid declaration is rejected")
	if err != nil {
		return
	}
	p.generate()

	// what Init hands over
	rt := &vpRT{pkg: p.gen, globals: func(name string) vpVal { return vpLeaf("global " + name) }}
	recv := vpPtr{&vpCell{path: "q", v: rt.instance(p.gen.Scope().Lookup(typ).Type(), "q", false)}}
	init := "Init"
	if v2 {
		init = "InitV2"
	}
	mapid := "_" + typ + "_colmap"
	rt.run(p.method(typ, "Init"), recv)
	vpObs("log", strings.Join(rt.log, "; "))
	vpAssert(len(rt.log) == 1 && rt.log[0] == init+" global "+mapid+" "+strconv.Quote(ts), "the constructor is not initialised with the columns and the search document")

	// the columns by their keys: the first field of a key is the one meant
	keys, cols := vpFilterMap(p, mapid, v2)
	want := map[string]bool{}
	for _, f := range fields {
		if f.key == "" || want[f.key] {
			continue
		}
		want[f.key] = true
		got, ok := cols[f.key]
		vpAssert(ok, "a column cannot be filtered by its key")
		vpAssert(got.col == f.col, "a key stands for another column")
		if v2 {
			vpAssert(got.null == f.null, "whether a column can be NULL is wrong")
			vpAssert(got.conv == f.conv, "the converter of a column's values is wrong")
		}
	}
	vpAssert(len(keys) == len(want), "a key is made up")

	// the methods: one per field, unless its name means something else
	names := map[string]bool{}
	for _, f := range fields {
		if taken[f.name] || names[f.name] {
			continue
		}
		names[f.name] = true
		rt.log = nil
		res := rt.run(p.method(typ, f.name), recv, vpLeaf("op"), vpLeaf("val"))
		vpAssert(len(rt.log) == 1 && rt.log[0] == "Col "+strconv.Quote(f.col)+" op val", "a method does not compare its column")
		vpAssert(res == vpVal(recv), "a method does not return the filter")
	}

	// the connectives
	for _, op := range []string{"And", "Or"} {
		rt.log = nil
		res := rt.run(p.method(typ, op), recv, nil)
		vpAssert(len(rt.log) == 1 && rt.log[0] == op+" nil", "a connective is lost")
		vpAssert(res == vpVal(recv), "a connective does not return the filter")
		rt.log = nil
		nest := vpFn(func(args []vpVal) []vpVal {
			vpAssert(len(args) == 1 && args[0] == vpVal(recv), "a group is not built with the filter itself")
			rt.log = append(rt.log, "nested")
			return nil
		})
		res = rt.run(p.method(typ, op), recv, nest)
		vpAssert(len(rt.log) == 1 && rt.log[0] == op+" func[nested]", "a group is lost")
		vpAssert(res == vpVal(recv), "a connective does not return the filter")
	}
	n := 0
	for _, d := range p.out.Decls {
		if _, ok := d.(*ast.FuncDecl); ok {
			n++
		}
	}
	vpAssert(n == 3+len(names), "a method is made up")
	vpReach("filter")
}

// vpTaken are the names a field's method cannot have: those of the methods that
// are generated for every filter, or that are to be reached through it.
var vpTaken = []string{"Init", "And", "Or", "UnmarshalFQL", "UnmarshalSort", "TextSearch", "AND", "OR"}

func vpTakenNames(ctor string) map[string]bool {
	m := map[string]bool{ctor: true, "User": true}
	for _, n := range vpTaken {
		m[n] = true
	}
	return m
}

func vpFilterType(rec, ctor string, v2 bool, ts string) string {
	s := "type FilterOne struct {\n\tUser " + rec + " `rel:\"t:x\"`\n\t"
	if ctor != "FilterConstructor" {
		s += ctor + " "
	}
	s += "gosql.FilterConstructor"
	if v2 {
		s += " `filter:\"v2\"`"
	}
	s += "\n"
	if ts != "" {
		s += "\t_ gosql.TextSearch `sql:\"" + ts + "\"`\n"
	}
	return "import \"github.com/frk/gosql\"\nvar _ gosql.Conn\n" + s + "}\n"
}

// Names: fields of any of the names that mean something, and paths whose names
// run together.
func VP_N07_Names() {
	menu := []string{"A", "AB", "B", "BC", "C", "ABC", "name", "Init", "And", "Or", "AND", "TextSearch", "UnmarshalFQL", "UnmarshalSort", "ToSQL", "FilterConstructor", "User", "Col", "X", "f", "op", "val", "nest", "string"}
	ctor := []string{"FilterConstructor", "X"}[vpChoose(2)]
	shape := vpChoose(3)
	v2 := vpThorough() && vpBool() || shape == 2
	var fields []vpColF
	src := ""
	switch shape {
	case 0: // side by side
		a := vpChoose(len(menu))
		b := vpChoose(vpBound("second name", 2, len(menu)))
		vpAssume(a != b)
		src = "type Rec struct {\n\t" + menu[a] + " string `sql:\"c0\" json:\"k0\"`\n\t" + menu[b] + " string `sql:\"c1\" json:\"k1\"`\n}\n"
		fields = []vpColF{{menu[a], "k0", `x."c0"`, false, ""}, {menu[b], "k1", `x."c1"`, true, ""}}
	case 1: // nested
		out := []string{"A", "AB", "And", "T"}
		a := vpChoose(len(out))
		b := vpChoose(len(menu))
		in := menu[b]
		src = "type Rec struct {\n\t" + out[a] + " Sub `sql:\">\" json:\"n\"`\n\tAB *Sub `sql:\">\"`\n\tABC string `sql:\"c4\" json:\"n.k\"`\n}\ntype Sub struct {\n\t" + in + " string `sql:\"c2\" json:\"k\"`\n\tC string `sql:\"c3\"`\n}\n"
		if out[a] == "AB" || in == "C" {
			vpSkip()
		}
		fields = []vpColF{{out[a] + in, "n.k", `x."c2"`, false, ""}, {out[a] + "C", "n", `x."c3"`, true, ""}, {"AB" + in, "k", `x."c2"`, false, ""}, {"ABC", "", `x."c3"`, true, ""}, {"ABC", "n.k", `x."c4"`, false, ""}}
	case 2: // embedded
		b := vpChoose(len(menu))
		in := menu[b]
		vpAssume(in != "AB")
		src = "type Rec struct {\n\tSub `sql:\">\"`\n\tAB string `sql:\"c5\" json:\"k\"`\n}\ntype Sub struct {\n\t" + in + " string `sql:\"c2\" json:\"k\"`\n\tAB string `sql:\"c1,nn\" json:\"l\"`\n}\n"
		fields = []vpColF{{"Sub" + in, "k", `x."c2"`, false, ""}, {"SubAB", "l", `x."c1"`, false, ""}, {"AB", "k", `x."c5"`, true, ""}}
	}
	p := vpNew(vpFilterType("Rec", ctor, v2, "") + src)
	p.cfg.QuoteIdentifiers.Value = true
	vpFilterCheck(p, "FilterOne", ctor, "", v2, fields, vpTakenNames(ctor))
}

// Letters: two nested fields of any names.
func VP_N07_Letters() {
	name := func(n int) string {
		s := vpString(n)
		for i := 0; i < n; i++ {
			c := s[i]
			if i == 0 {
				vpAssume(vpAnd(c >= 'A', c <= 'Z'))
			} else {
				vpAssume(vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z'), vpAnd(c >= '0', c <= '9'), c == '_'))
			}
		}
		return s
	}
	k := vpChoose(vpBound("shapes of two paths", 2, 3))
	na, nb := 1, 2
	if k == 1 {
		na, nb = 2, 1
	}
	a, b := name(na), name(nb)
	a2, b2 := name(nb), name(na)
	if k == 2 {
		a2, b2 = name(1), name(2)
	}
	vpAssume(a != a2)
	src := "type Rec struct {\n\t" + a + " struct {\n\t\t" + b + " string `sql:\"c0\" json:\"k0\"`\n\t} `sql:\">\"`\n\t" +
		a2 + " struct {\n\t\t" + b2 + " string `sql:\"c1\" json:\"k1\"`\n\t} `sql:\">\"`\n}\n"
	fields := []vpColF{{a + b, "k0", `x."c0"`, false, ""}, {a2 + b2, "k1", `x."c1"`, true, ""}}
	p := vpNew(vpFilterType("Rec", "FilterConstructor", true, "") + src)
	p.cfg.QuoteIdentifiers.Value = true
	vpFilterCheck(p, "FilterOne", "FilterConstructor", "", true, fields, vpTakenNames("FilterConstructor"))
}

// Keys: any two keys of two bytes.
func VP_N07_Keys() {
	key := func() string {
		n := vpChoose(3)
		s := vpString(n)
		for i := 0; i < n; i++ {
			// printable, and nothing a tag gives a meaning of its own
			vpAssume(vpAnd(s[i] >= ' ', s[i] < 0x7f, s[i] != ',', s[i] != '`', s[i] != ' '))
		}
		vpAssume(s != "-")
		return s
	}
	a, b := key(), key()
	tag := func(k string) string {
		s := ""
		for i := 0; i < len(k); i++ {
			if vpOr(k[i] == '"', k[i] == '\\') {
				s += "\\"
			}
			s += k[i : i+1]
		}
		return s
	}
	v2 := vpBool()
	src := "type Rec struct {\n\tA string `sql:\"c0\" json:\"" + tag(a) + "\"`\n\tB string `sql:\"c1\" json:\"" + tag(b) + "\"`\n}\n"
	fields := []vpColF{{"A", a, `x."c0"`, false, ""}, {"B", b, `x."c1"`, true, ""}}
	p := vpNew(vpFilterType("Rec", "FilterConstructor", v2, "") + src)
	p.cfg.QuoteIdentifiers.Value = true
	vpFilterCheck(p, "FilterOne", "FilterConstructor", "", v2, fields, vpTakenNames("FilterConstructor"))
}

// Options: the configuration of keys and quotes, converters, options of fields
// and the search document.
func VP_N07_Options() {
	v2, quoted := vpBool(), vpBool()
	col := func(n string) string {
		if quoted {
			return `x."` + n + `"`
		}
		return "x." + n
	}
	ts, doc := "", ""
	if vpBool() {
		ts, doc = "x.ts", col("ts")
		if vpBool() { // the qualifier is the user's to give
			ts, doc = "ts", doc[2:]
		}
	}
	key := vpChoose(4)
	rich := vpChoose(2) // what is varied: the keys, or the options of a field
	if rich == 1 && !vpThorough() {
		vpAssume(key == 0)
	}
	sep := "."
	if rich == 0 || vpThorough() {
		sep = []string{".", "", "/", "\""}[vpChoose(4)]
	}
	keys := []string{"a", "s" + sep + "b", "s" + sep + "c", "s" + sep + "d"}
	switch key {
	case 1: // the last name only
		keys = []string{"a", "b", "c", "d"}
	case 2: // names of fields
		keys = []string{"A", "S" + sep + "B", "S" + sep + "C", "S" + sep + "D"}
	case 3:
		keys = []string{"A", "B", "C", "D"}
	}
	opt := ""
	if rich == 1 {
		if vpBool() {
			vpFilterKind = postgres.RelKindView
		}
		opt = []string{",ro", ",wo", ",xf", ",nn", ",-N", ",-r", ",+f", ",-w"}[vpChoose(8)]
	}
	src := "type Conv string\ntype Plain string\nfunc conv(interface{}) (interface{}, error)\n" +
		"type Rec struct {\n\tA Conv `sql:\"c0\" json:\"a\"`\n\tS struct {\n\t\tB Plain `sql:\"c1" + opt + "\" json:\"b\"`\n\t\tC Plain `sql:\"c2\" json:\"c\"`\n\t\tD Conv `sql:\"c3\" json:\"d\"`\n\t} `sql:\">\" json:\"s\"`\n}\n"
	p := vpNew(vpFilterType("[]*Rec", "Make", v2, ts) + src)
	p.cfg.QuoteIdentifiers.Value = quoted
	p.cfg.FilterColumnKeySeparator.Value = sep
	p.cfg.FilterColumnKeyBase.Value = key&1 != 0
	if key >= 2 {
		p.cfg.FilterColumnKeyTag.Value = ""
	}
	p.cfg.FilterValueConverters = []config.FilterValueConverter{{Type: config.ObjectIdent{PkgPath: p.path, Name: "Conv"}, Func: config.ObjectIdent{PkgPath: p.path, Name: "conv"}}}
	_ = analysis.AnalyzeFilterValueConverters(p.cfg)
	var fields []vpColF
	for i, n := range []string{"A", "SB", "SC", "SD"} {
		f := vpColF{n, keys[i], col("c" + strconv.Itoa(i)), i%2 == 1, ""}
		if n == "A" || n == "SD" {
			f.conv = "conv"
		}
		if n == "SB" {
			if opt == ",xf" || opt == ",wo" || opt == ",-r" {
				continue
			}
			f.null = opt != ",nn" && opt != ",-N"
		}
		fields = append(fields, f)
	}
	vpFilterCheck(p, "FilterOne", "Make", doc, v2, fields, vpTakenNames("Make"))
}

// Tags: keys of fields within structs some of which have none, or are ignored.
func VP_N07_Tags() {
	menu := []string{"", "a", "-", "b,omitempty", ",x", "-x"}[:vpBound("tags of a nested field", 4, 6)]
	first := []string{"", "a", "-", "b", "", "-x"}
	depth := 1 + vpChoose(vpBound("depth of a keyed field", 2, 3))
	tagged := vpChoose(3) // which tag gives the keys
	sep, base := ".", tagged == 1
	if tagged == 1 {
		sep = ""
	}
	if vpThorough() {
		sep, base = []string{".", ""}[vpChoose(2)], vpBool()
	} else if tagged == 0 {
		base = vpBool()
	}
	tag := []string{"json", "key", "json"}[tagged]
	n := make([]int, depth+1)
	for i := range n {
		n[i] = vpChoose(len(menu))
	}
	over := -1 // the field or struct that has options of its own about keys
	ovr := ""
	okey := tag
	osep, obase := sep, base
	if tagged == 2 {
		over = vpChoose(depth + 1)
		switch vpChoose(4) {
		case 0:
			ovr, osep = "sep:/", "/"
		case 1:
			ovr, obase = "base:true", true
		case 2:
			ovr, obase = "base:false", false
		case 3:
			ovr, okey = "tag:nokey", "nokey"
		}
	}
	src := ""
	close := ""
	for i := 0; i <= depth; i++ {
		t := " " + tag + ":\"" + menu[n[i]] + "\""
		if menu[n[i]] == "" {
			t = ""
		}
		if i == over {
			t += " fck:\"" + ovr + "\""
		}
		if i < depth {
			src += "S" + strconv.Itoa(i) + " struct {\n"
			close = "} `sql:\">\"" + t + "`\n" + close
		} else {
			src += "F string `sql:\"c0\"" + t + "`\n"
		}
	}
	src = "type Rec struct {\n" + src + close + "}\n"
	// the options of the field itself come before those of the structs it is in,
	// and those of a struct apply to the names from there on
	key := ""
	from := 0
	if over >= 0 && over < depth {
		from = over
	}
	name := ""
	for i := 0; i <= depth; i++ {
		if i < depth {
			name += "S" + strconv.Itoa(i)
		} else {
			name += "F"
		}
	}
	ignored, any := false, false
	for i := from; i <= depth; i++ {
		if obase && i < depth || okey == "nokey" {
			continue
		}
		k := first[n[i]]
		if k == "-" {
			ignored = true
		}
		if k == "" {
			continue
		}
		if any {
			key += osep
		}
		key, any = key+k, true
	}
	if ignored {
		key = ""
	}
	p := vpNew(vpFilterType("Rec", "FilterConstructor", true, "") + src)
	p.cfg.QuoteIdentifiers.Value = true
	p.cfg.FilterColumnKeyTag.Value = tag
	p.cfg.FilterColumnKeySeparator.Value = sep
	p.cfg.FilterColumnKeyBase.Value = base
	vpFilterCheck(p, "FilterOne", "FilterConstructor", "", true, []vpColF{{name, key, `x."c0"`, false, ""}}, vpTakenNames("FilterConstructor"))
}
