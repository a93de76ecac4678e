package postgres

import (
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

//vp:params pgsql vpConverters

// vpPg is a type of PostgreSQL, the prefix of the names that its converters have in
// the library, and whether the conversions are those of values of length one.
type vpPg struct {
	oid  oid.OID
	conv string
	one  bool
}

var vpPgs = []vpPg{
	{oid.Bit, "Bit", true},
	{oid.BitArr, "BitArray", true},
	{oid.BPChar, "BPChar", true},
	{oid.BPCharArr, "BPCharArray", true},
	{oid.Char, "Char", true},
	{oid.CharArr, "CharArray", true},
	{oid.Bool, "Bool", false},
	{oid.BoolArr, "BoolArray", false},
	{oid.Box, "Box", false},
	{oid.BoxArr, "BoxArray", false},
	{oid.Bytea, "Bytea", false},
	{oid.ByteaArr, "ByteaArray", false},
	{oid.CIDR, "CIDR", false},
	{oid.CIDRArr, "CIDRArray", false},
	{oid.Circle, "Circle", false},
	{oid.CircleArr, "CircleArray", false},
	{oid.Date, "Date", false},
	{oid.DateArr, "DateArray", false},
	{oid.DateRange, "DateRange", false},
	{oid.DateRangeArr, "DateRangeArray", false},
	{oid.Float4, "Float4", false},
	{oid.Float4Arr, "Float4Array", false},
	{oid.Float8, "Float8", false},
	{oid.Float8Arr, "Float8Array", false},
	{oid.Inet, "Inet", false},
	{oid.InetArr, "InetArray", false},
	{oid.Int2, "Int2", false},
	{oid.Int2Arr, "Int2Array", false},
	{oid.Int2Vector, "Int2Vector", false},
	{oid.Int2VectorArr, "Int2VectorArray", false},
	{oid.Int4, "Int4", false},
	{oid.Int4Arr, "Int4Array", false},
	{oid.Int4Range, "Int4Range", false},
	{oid.Int4RangeArr, "Int4RangeArray", false},
	{oid.Int8, "Int8", false},
	{oid.Int8Arr, "Int8Array", false},
	{oid.Int8Range, "Int8Range", false},
	{oid.Int8RangeArr, "Int8RangeArray", false},
	{oid.Interval, "Interval", false},
	{oid.IntervalArr, "IntervalArray", false},
	{oid.JSON, "JSON", false},
	{oid.JSONArr, "JSONArray", false},
	{oid.JSONB, "JSONB", false},
	{oid.JSONBArr, "JSONArray", false},
	{oid.Line, "Line", false},
	{oid.LineArr, "LineArray", false},
	{oid.LSeg, "Lseg", false},
	{oid.LSegArr, "LsegArray", false},
	{oid.MACAddr, "MACAddr", false},
	{oid.MACAddrArr, "MACAddrArray", false},
	{oid.MACAddr8, "MACAddr8", false},
	{oid.MACAddr8Arr, "MACAddr8Array", false},
	{oid.Money, "Money", false},
	{oid.MoneyArr, "MoneyArray", false},
	{oid.Numeric, "Numeric", false},
	{oid.NumericArr, "NumericArray", false},
	{oid.NumRange, "NumRange", false},
	{oid.NumRangeArr, "NumRangeArray", false},
	{oid.Path, "Path", false},
	{oid.PathArr, "PathArray", false},
	{oid.Point, "Point", false},
	{oid.PointArr, "PointArray", false},
	{oid.Polygon, "Polygon", false},
	{oid.PolygonArr, "PolygonArray", false},
	{oid.Text, "Text", false},
	{oid.TextArr, "TextArray", false},
	{oid.Time, "Time", false},
	{oid.TimeArr, "TimeArray", false},
	{oid.Timestamp, "Timestamp", false},
	{oid.TimestampArr, "TimestampArray", false},
	{oid.Timestamptz, "Timestamptz", false},
	{oid.TimestamptzArr, "TimestamptzArray", false},
	{oid.Timetz, "Timetz", false},
	{oid.TimetzArr, "TimetzArray", false},
	{oid.TSQuery, "TSQuery", false},
	{oid.TSQueryArr, "TSQueryArray", false},
	{oid.TsRange, "TsRange", false},
	{oid.TsRangeArr, "TsRangeArray", false},
	{oid.TsTzRange, "TstzRange", false},
	{oid.TsTzRangeArr, "TstzRangeArray", false},
	{oid.TSVector, "TSVector", false},
	{oid.TSVectorArr, "TSVectorArray", false},
	{oid.UUID, "UUID", false},
	{oid.UUIDArr, "UUIDArray", false},
	{oid.VarBit, "VarBit", false},
	{oid.VarBitArr, "VarBitArray", false},
	{oid.VarChar, "VarChar", false},
	{oid.VarCharArr, "VarCharArray", false},
	{oid.XML, "XML", false},
	{oid.XMLArr, "XMLArray", false},
}

// The Go types, as literals.
var vpLiterals = []string{
	`[16]byte`,
	`[2][2]float64`,
	`[2]big.Float`,
	`[2]big.Int`,
	`[2]float32`,
	`[2]float64`,
	`[2]int`,
	`[2]int16`,
	`[2]int32`,
	`[2]int64`,
	`[2]int8`,
	`[2]time.Time`,
	`[2]uint`,
	`[2]uint16`,
	`[2]uint32`,
	`[2]uint64`,
	`[2]uint8`,
	`[3]float64`,
	`[][16]byte`,
	`[][2][2]float64`,
	`[][2]big.Float`,
	`[][2]big.Int`,
	`[][2]float32`,
	`[][2]float64`,
	`[][2]int`,
	`[][2]int16`,
	`[][2]int32`,
	`[][2]int64`,
	`[][2]int8`,
	`[][2]time.Time`,
	`[][2]uint`,
	`[][2]uint16`,
	`[][2]uint32`,
	`[][2]uint64`,
	`[][2]uint8`,
	`[][3]float64`,
	`[][][2]float64`,
	`[][][]byte`,
	`[][]bool`,
	`[][]byte`,
	`[][]float32`,
	`[][]float64`,
	`[][]int`,
	`[][]int16`,
	`[][]int32`,
	`[][]int64`,
	`[][]int8`,
	`[][]rune`,
	`[][]string`,
	`[][]uint`,
	`[][]uint16`,
	`[][]uint32`,
	`[][]uint64`,
	`[][]uint8`,
	`[]big.Float`,
	`[]big.Int`,
	`[]bool`,
	`[]byte`,
	`[]float32`,
	`[]float64`,
	`[]int`,
	`[]int16`,
	`[]int32`,
	`[]int64`,
	`[]int8`,
	`[]map[string]*string`,
	`[]map[string]sql.NullString`,
	`[]map[string]string`,
	`[]net.HardwareAddr`,
	`[]net.IP`,
	`[]net.IPNet`,
	`[]rune`,
	`[]string`,
	`[]time.Time`,
	`[]uint`,
	`[]uint16`,
	`[]uint32`,
	`[]uint64`,
	`[]uint8`,
	`big.Float`,
	`big.Int`,
	`bool`,
	`byte`,
	`float32`,
	`float64`,
	`int`,
	`int16`,
	`int32`,
	`int64`,
	`int8`,
	`interface{}`,
	`map[string]*string`,
	`map[string]sql.NullString`,
	`map[string]string`,
	`net.HardwareAddr`,
	`net.IP`,
	`net.IPNet`,
	`rune`,
	`string`,
	`time.Time`,
	`uint`,
	`uint16`,
	`uint32`,
	`uint64`,
	`uint8`,
	`[]interface{}`,
	`[3]int`,
	`map[int]string`,
	`[][][]int`,
	`*int`,
	`*[]int`,
	`chan`,
	`[4]byte`,
}

var vpBasicKinds = map[string]analysis.TypeKind{
	"bool": analysis.TypeKindBool, "int": analysis.TypeKindInt, "int8": analysis.TypeKindInt8, "int16": analysis.TypeKindInt16, "int32": analysis.TypeKindInt32, "int64": analysis.TypeKindInt64,
	"uint": analysis.TypeKindUint, "uint8": analysis.TypeKindUint8, "uint16": analysis.TypeKindUint16, "uint32": analysis.TypeKindUint32, "uint64": analysis.TypeKindUint64,
	"float32": analysis.TypeKindFloat32, "float64": analysis.TypeKindFloat64, "string": analysis.TypeKindString,
}

// vpTypeOf is the type that a literal denotes.
func vpTypeOf(s string) analysis.TypeInfo {
	sub := func(s string) *analysis.TypeInfo { t := vpTypeOf(s); return &t }
	std := func(path string, k analysis.TypeKind, elem *analysis.TypeInfo) analysis.TypeInfo {
		pkg, name, _ := strings.Cut(s, ".")
		return analysis.TypeInfo{Kind: k, Name: name, PkgPath: path, PkgName: pkg, PkgLocal: pkg, IsImported: true, Elem: elem}
	}
	switch {
	case strings.HasPrefix(s, "[]"):
		return analysis.TypeInfo{Kind: analysis.TypeKindSlice, Elem: sub(s[2:])}
	case s[0] == '[':
		n, elem, _ := strings.Cut(s[1:], "]")
		l := int64(0)
		for _, d := range n {
			l = l*10 + int64(d-'0')
		}
		return analysis.TypeInfo{Kind: analysis.TypeKindArray, ArrayLen: l, Elem: sub(elem)}
	case s[0] == '*':
		return analysis.TypeInfo{Kind: analysis.TypeKindPtr, Elem: sub(s[1:])}
	case strings.HasPrefix(s, "map["):
		key, elem, _ := strings.Cut(s[4:], "]")
		return analysis.TypeInfo{Kind: analysis.TypeKindMap, Key: sub(key), Elem: sub(elem)}
	}
	switch s {
	case "byte":
		return analysis.TypeInfo{Kind: analysis.TypeKindUint8, IsByte: true}
	case "rune":
		return analysis.TypeInfo{Kind: analysis.TypeKindInt32, IsRune: true}
	case "interface{}":
		return analysis.TypeInfo{Kind: analysis.TypeKindInterface, IsEmptyInterface: true}
	case "chan":
		return analysis.TypeInfo{Kind: analysis.TypeKindChan}
	case "net.IP", "net.HardwareAddr":
		return std("net", analysis.TypeKindSlice, sub("byte"))
	case "net.IPNet":
		return std("net", analysis.TypeKindStruct, nil)
	case "time.Time":
		return std("time", analysis.TypeKindStruct, nil)
	case "big.Int", "big.Float":
		return std("math/big", analysis.TypeKindStruct, nil)
	case "sql.NullString":
		return std("database/sql", analysis.TypeKindStruct, nil)
	}
	k, ok := vpBasicKinds[s]
	vpAssert(ok, "the model does not know a type")
	return analysis.TypeInfo{Kind: k}
}

// vpNumber reports whether the driver itself takes a value of the type for a number.
func vpNumber(lit string) bool {
	k := vpBasicKinds[lit]
	return k >= analysis.TypeKindInt && k <= analysis.TypeKindFloat64
}

// vpPlain reports whether a column of the type and the Go type need no converter.
func vpPlain(pg oid.OID, lit string) bool {
	if lit == "string" || lit == "[]byte" {
		return true
	}
	switch pg {
	case oid.Int2, oid.Int4, oid.Int8, oid.Numeric:
		return vpNumber(lit)
	case oid.Float4, oid.Float8:
		return lit == "float32" || lit == "float64"
	case oid.Bool:
		return lit == "bool"
	case oid.Bit:
		return lit == "uint" || lit == "uint8" || lit == "bool"
	case oid.Date, oid.Time, oid.Timetz, oid.Timestamp, oid.Timestamptz:
		return lit == "time.Time"
	}
	return false
}

// vpConverter is the library's converter of a type's values from (or to) a Go type.
func vpConverter(prefix, lit string) string {
	found := ""
	for name, param := range vpConverters {
		if param == lit && strings.HasPrefix(name, prefix) {
			vpAssert(found == "" || found == name, "two converters do the same")
			found = name
		}
	}
	return found
}

// vpDocument is the converter of the type's documents.
func vpDocument(pg oid.OID) string {
	switch pg {
	case oid.JSON, oid.JSONB:
		return "JSON"
	case oid.XML:
		return "XML"
	}
	return ""
}

// vpColumnOf is the database with a column of the type, and the column.
func vpColumnOf(t *Type, elem *Type, typmod int) *DB {
	db := vpDatabase(t)
	if elem != nil {
		t.Elem = elem.OID
		db.catalog.Types[elem.OID] = elem
	}
	c := vpColumn("c", t)
	c.TypeMod = typmod
	vpTable(db, vpRel, c)
	return db
}

// vpConversions are the converters a field of a record gets for what is written to
// and read from its column, if it is accepted.
func vpConversions(db *DB, typ analysis.TypeInfo) (valuer, scanner string, written, read bool) {
	for _, kind := range []analysis.QueryKind{analysis.QueryKindInsert, analysis.QueryKindSelect} {
		f := vpField("c", typ)
		qs := &analysis.QueryStruct{
			TypeName: "Query", Kind: kind,
			Rel: &analysis.RelField{FieldName: "R", Id: vpRel, Type: analysis.RelType{Fields: []*analysis.FieldInfo{f}}},
		}
		res, err := vpCheckTarget(db, qs)
		if err != nil {
			continue
		}
		if kind == analysis.QueryKindInsert {
			vpAssert(len(res.Writes) == 1, "a field is not written")
			valuer, written = res.Writes[0].Valuer, true
		} else {
			vpAssert(len(res.Reads) == 1, "a field is not read")
			scanner, read = res.Reads[0].Scanner, true
		}
	}
	return
}

// Pairs: every type of PostgreSQL with every Go type: accepted when the library has
// the converters or none are needed, and with those converters.
func VP_T01_Pairs() {
	pg := vpPgs[vpChoose(len(vpPgs))]
	lit := vpLiterals[vpChoose(len(vpLiterals))]
	t := &Type{OID: pg.oid, Name: "t", NameFmt: "t", Type: TypeTypeBase}
	cat, one := TypeCategoryUserdefined, 1
	switch strings.TrimSuffix(pg.conv, "Array") {
	case "Bit", "VarBit":
		cat = TypeCategoryBitstring
	case "Text", "VarChar", "BPChar", "Char":
		cat, one = TypeCategoryString, 5
	}
	typmod := int(vpI32())
	if pg.one {
		typmod = one
	}
	var elem *Type
	t.Category = cat
	if strings.HasSuffix(pg.conv, "Array") {
		t.Category = TypeCategoryArray
		elem = &Type{OID: 99999, Category: cat}
	}
	db := vpColumnOf(t, elem, typmod)
	valuer, scanner, written, read := vpConversions(db, vpTypeOf(lit))
	vpObs("pair", pg.conv+" "+lit+": "+valuer+" "+scanner)
	if doc := vpDocument(pg.oid); doc != "" { // any value is one of a document
		want := doc
		switch lit {
		case "string", "[]byte", "[]uint8", "net.IP", "net.HardwareAddr": // text, or bytes, as they are
			want = ""
		}
		illegal := lit == "chan" || doc == "XML" && strings.HasPrefix(lit, "map")
		vpAssert(vpAnd(written == !illegal, read == !illegal), "a Go type is wrongly (not) accepted for a document")
		vpAssert(illegal || vpAnd(valuer == want, scanner == want || lit == "interface{}" && scanner == "AnyToEmptyInterface"), "a document is not converted as one")
		vpReach("document")
		return
	}
	if lit == "interface{}" {
		vpAssert(!written, "anything is accepted for what is written to a column")
		vpAssert(read && scanner == "AnyToEmptyInterface", "an empty interface is not read as one")
		vpReach("anything")
		return
	}
	from, to := vpConverter(pg.conv+"From", strings.TrimPrefix(lit, "*")), vpConverter(pg.conv+"To", "*"+strings.TrimPrefix(lit, "*"))
	if from == "" && elem != nil && cat == TypeCategoryString { // arrays of text
		from, to = vpConverter("TextArrayFrom", strings.TrimPrefix(lit, "*")), vpConverter("TextArrayTo", "*"+strings.TrimPrefix(lit, "*"))
	}
	plain := vpPlain(pg.oid, strings.TrimPrefix(lit, "*"))
	vpAssert(written == (plain || from != ""), "a Go type is wrongly (not) accepted for what is written to a column")
	vpAssert(read == (plain || to != ""), "a Go type is wrongly (not) accepted for what is read from a column")
	if written {
		vpAssert(valuer == from, "what is written is not converted by the converter of the two types")
		vpReach("written")
	}
	if read {
		vpAssert(scanner == to, "what is read is not converted by the converter of the two types")
		vpReach("read")
	}
}

// Others: columns of any other type, of any length: text, labels and arrays of text
// are handled as text, and nothing else is known how to convert.
func VP_T01_Others() {
	id := oid.OID(vpU32())
	for _, pg := range vpPgs {
		vpAssume(id != pg.oid)
	}
	lit := vpLiterals[vpChoose(len(vpLiterals))]
	typmod := int(vpI32())
	t := &Type{OID: id, Name: "t", NameFmt: "t", Type: TypeTypeBase}
	var elem *Type
	text, texts := false, false
	switch vpChoose(6) {
	case 0:
		t.Category, text = TypeCategoryString, true
	case 1:
		t.Type, t.Category, text = TypeTypeEnum, TypeCategoryEnum, true
	case 2:
		t.Category, texts = TypeCategoryArray, true
		elem = &Type{OID: id - 1, Category: TypeCategoryString}
	case 3:
		t.Category = TypeCategoryArray
		elem = &Type{OID: id - 1, Category: TypeCategoryUserdefined}
	case 4:
		t.Type, t.Category = TypeTypeComposite, TypeCategoryComposite
	case 5:
		t.Category = TypeCategoryUserdefined
	}
	valuer, scanner, written, read := vpConversions(vpColumnOf(t, elem, typmod), vpTypeOf(lit))
	vpObs("types", lit+": "+valuer+" "+scanner)
	if lit == "interface{}" {
		vpReach("of its own")
		return
	}
	lit = strings.TrimPrefix(lit, "*")
	plain := (text || texts) && (lit == "string" || lit == "[]byte")
	from, to := "", ""
	if texts {
		from, to = vpConverter("TextArrayFrom", lit), vpConverter("TextArrayTo", "*"+lit)
	}
	vpAssert(written == (plain || from != ""), "a Go type is wrongly (not) accepted for what is written to a column of another type")
	vpAssert(read == (plain || to != ""), "a Go type is wrongly (not) accepted for what is read from a column of another type")
	vpAssert(!written || valuer == from, "what is written is not converted by the converter of the two types")
	vpAssert(!read || scanner == to, "what is read is not converted by the converter of the two types")
	vpReach("checked")
}

// Namesakes: types of other packages with the names of the types that are known.
func VP_T01_Namesakes() {
	pg := vpPgs[vpChoose(len(vpPgs))]
	if vpDocument(pg.oid) != "" {
		vpSkip()
	}
	known := []string{"net.IP", "net.IPNet", "net.HardwareAddr", "time.Time", "big.Int", "big.Float", "sql.NullString"}[vpChoose(7)]
	typ := vpTypeOf(known)
	typ.PkgPath = []string{"example.com/" + typ.PkgName, typ.PkgName, "internal/" + typ.PkgPath}[vpChoose(3)]
	if typ.PkgPath == vpTypeOf(known).PkgPath {
		vpSkip()
	}
	inner := typ
	switch vpChoose(5) {
	case 1:
		typ = analysis.TypeInfo{Kind: analysis.TypeKindSlice, Elem: &inner}
	case 2:
		typ = analysis.TypeInfo{Kind: analysis.TypeKindArray, ArrayLen: 2, Elem: &inner}
	case 3:
		arr := analysis.TypeInfo{Kind: analysis.TypeKindArray, ArrayLen: 2, Elem: &inner}
		typ = analysis.TypeInfo{Kind: analysis.TypeKindSlice, Elem: &arr}
	case 4:
		typ = analysis.TypeInfo{Kind: analysis.TypeKindPtr, Elem: &inner}
	}
	t := &Type{OID: pg.oid, Name: "t", NameFmt: "t", Type: TypeTypeBase, Category: TypeCategoryUserdefined}
	valuer, scanner, written, read := vpConversions(vpColumnOf(t, nil, -1), typ)
	vpObs("converters", valuer+" "+scanner)
	vpAssert(vpAnd(!written, !read), "a type is taken for another one that has its name")
	vpReach("rejected")
}
