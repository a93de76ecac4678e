def m(name,where): return {"name":name,"where":where}
TST="The table-driven tests push a handful of fixed values through a live PostgreSQL; the guarantee quantifies over every %s, and the inputs that break it (%s) are a vanishing fraction of the space."

# ---------------------------------------------------------------- pgsql codecs
p("P01","String and byte array values reach PostgreSQL unchanged",
  "Encoding a Go slice of strings or byte slices as a text, varchar, json, or xml array yields a well-formed PostgreSQL array literal whose elements, read back by PostgreSQL's array input rules, are exactly the given values in order, whatever bytes the values contain. A nil slice is sent as SQL NULL and an empty slice as an empty array; no value can add, remove, merge or alter an element.",
  ["inputs"],"for every list of byte strings (all byte values, including quotes, backslashes, braces, commas, the word NULL and empty strings)",
  TST%("list of strings","quotes and backslashes in particular positions, NULL-like words, empty strings"),
  ["pgsql/textarr.go","pgsql/varchararr.go","pgsql/jsonarr.go","pgsql/xmlarr.go","pgsql/convert_util.go"],
  [m("element quoting and escaping","pgsql/convert_util.go pgAppendQuote1"),m("array encoders","pgsql/textarr.go")],
  ["driver value returned by the array valuers"])
p("P02","String and byte arrays read from PostgreSQL are decoded exactly",
  "Scanning the text form that PostgreSQL emits for a text, varchar, json, or xml array yields exactly the array's elements in order, with all quoting and escaping undone. This holds for empty arrays, empty elements and elements containing quotes, backslashes, braces, commas or the word NULL, whether the driver delivers bytes or a string.",
  ["inputs"],"for every array value whose text form PostgreSQL's array output function produces",
  TST%("array text PostgreSQL can emit","an escaped quote or backslash next to a separator, elements that must be quoted next to ones that are not"),
  ["pgsql/textarr.go","pgsql/varchararr.go","pgsql/jsonarr.go","pgsql/xmlarr.go","pgsql/convert_util.go"],
  [m("array text parser","pgsql/convert_util.go pgParseStringArray, pgParseQuotedStringArray")],
  ["target slice after Scan"])
p("P03","hstore maps survive the trip to PostgreSQL and back",
  "Encoding a Go map as hstore yields well-formed hstore input that denotes exactly the given keys and values (a null value as NULL, never as the string \"NULL\"), and scanning the text PostgreSQL emits for an hstore yields exactly its pairs. No byte in a key or value can introduce, drop or alter a pair.",
  ["inputs"],"for every map with string keys and (nullable) string values",
  TST%("map","escapes, quotes or NULL next to pair separators"),
  ["pgsql/hstore.go","pgsql/convert_util.go"],
  [m("hstore quoting","pgsql/convert_util.go pgAppendQuote1"),m("hstore parser","pgsql/convert_util.go pgparsehstore")],
  ["driver value / target map"])
p("P04","Arrays of hstore survive the trip to PostgreSQL and back",
  "Encoding a slice of Go maps as hstore[] yields a well-formed array literal whose elements are well-formed hstore input denoting exactly the given maps, and scanning the text PostgreSQL emits for an hstore[] yields exactly the stored maps, through both layers of quoting.",
  ["inputs"],"for every slice of maps with (nullable) string values",
  TST%("slice of maps","doubly escaped quotes and backslashes"),
  ["pgsql/hstorearr.go","pgsql/convert_util.go"],
  [m("double quoting","pgsql/convert_util.go pgAppendQuote2"),m("hstore array parser","pgsql/convert_util.go pgparsehstorearr")],
  ["driver value / target slice"])
p("P05","Bit and bit-varying values keep every bit",
  "Converting Go booleans, unsigned integers, byte flags, strings or 64-bit integers to bit/varbit values and arrays yields exactly the corresponding bit string(s), and scanning bit/varbit values and arrays yields exactly the corresponding Go values. Conversions that go out and back are the identity.",
  ["inputs"],"for every bit string, bit-string array and every Go value of the supported source types",
  TST%("bit pattern","particular flag values and element boundaries"),
  ["pgsql/bit.go","pgsql/bitarr.go","pgsql/varbit.go","pgsql/varbitarr.go"],
  [m("bit formatting and parsing","pgsql/varbitarr.go")],
  ["driver value / target"])
p("P06","bytea arrays keep every byte",
  "Encoding a slice of byte strings as bytea[] yields an array literal in hex format that PostgreSQL reads back as exactly the given byte strings, and scanning the text PostgreSQL emits for a bytea[] yields exactly the stored byte strings, including empty ones.",
  ["inputs"],"for every slice of byte strings",
  TST%("byte string","all-zero/high bytes, empty elements"),
  ["pgsql/byteaarr.go"],[m("hex codec","pgsql/byteaarr.go")],["driver value / target slice"])
p("P07","Integer arrays and vectors are never silently corrupted",
  "Encoding a Go integer slice as an integer or numeric array (or int2vector) yields the decimal form of every element in order. Scanning an integer array, int2vector or int2vector array into any Go integer slice either stores exactly the array's numbers or reports an error: no element is truncated, wrapped, dropped or reordered.",
  ["inputs"],"for every integer array PostgreSQL can hold and every supported Go integer element type",
  TST%("integer and element width","values just outside the Go type's range"),
  ["pgsql/int2arr.go","pgsql/int4arr.go","pgsql/int8arr.go","pgsql/numericarr.go","pgsql/int2vector.go","pgsql/int2vectorarr.go","pgsql/convert_util.go"],
  [m("per-width parsing","pgsql/int4arr.go"),m("comma splitter","pgsql/convert_util.go pgParseCommaArray")],
  ["driver value / target slice / error"])
p("P08","Integer ranges are never silently corrupted",
  "Encoding a pair of Go integers as an int4, int8 or numeric range (or an array of such pairs as a range array) yields the range with exactly those bounds, and scanning a range or range array PostgreSQL emits yields exactly its bounds (an unbounded side as zero) or an error. No bound is truncated, wrapped or attributed to the wrong side or element.",
  ["inputs"],"for every pair of bounds and every range text PostgreSQL emits",
  TST%("pair of bounds","unbounded sides, negative bounds, values at the width limit"),
  ["pgsql/int4range.go","pgsql/int8range.go","pgsql/numrange.go","pgsql/int4rangearr.go","pgsql/int8rangearr.go","pgsql/numrangearr.go","pgsql/convert_util.go"],
  [m("range parser","pgsql/convert_util.go pgParseRange")],["driver value / target"])
p("P09","UUID conversions are exact",
  "Converting 16-byte values to uuid and uuid[] yields their canonical hexadecimal form and scanning uuid and uuid[] text yields exactly those 16 bytes (or the same text for textual targets); malformed hexadecimal is reported as an error, never stored as a different identifier.",
  ["inputs"],"for every 16-byte value and every 36-byte text",
  TST%("identifier","a non-hex byte, a wrong separator"),
  ["pgsql/uuid.go","pgsql/uuidarr.go","pgsql/convert_util.go"],
  [m("uuid codec","pgsql/convert_util.go pgParseUUID, pgFormatUUID")],["driver value / target / error"])
p("P10","Single-character columns and arrays keep their characters",
  "Encoding Go bytes, runes and strings as char(1) values and arrays yields an array literal whose elements are exactly the given characters, and scanning what PostgreSQL emits for such arrays yields exactly those characters, including characters that need quoting.",
  ["inputs"],"for every character and list of characters",
  TST%("character","quotes, backslashes, braces, multi-byte characters"),
  ["pgsql/char.go","pgsql/chararr.go","pgsql/bpchar.go","pgsql/bpchararr.go","pgsql/convert_util.go"],
  [m("char array codec","pgsql/chararr.go, pgsql/convert_util.go pgparsearray2/3")],["driver value / target"])
p("P11","Text-search vectors and queries keep their lexemes",
  "Encoding lexemes as tsvector (and slices of them as tsvector[]) or queries as tsquery[] yields input PostgreSQL reads back as exactly those lexemes or queries, and scanning what PostgreSQL emits for such values yields exactly the stored lexemes or queries.",
  ["inputs"],"for every list of lexemes / queries",
  TST%("lexeme","quotes, backslashes, spaces inside lexemes"),
  ["pgsql/tsvector.go","pgsql/tsvectorarr.go","pgsql/tsqueryarr.go","pgsql/convert_util.go"],
  [m("vector parsers","pgsql/convert_util.go pgParseVector, pgParseVectorArray")],["driver value / target"])
p("P12","Geometric values keep every coordinate in its place",
  "Encoding points, lines, segments, boxes, paths, polygons and arrays of them places every coordinate in PostgreSQL's syntax in the right order, and scanning what PostgreSQL emits stores every coordinate at the right position: no coordinate is lost, swapped or merged and no shape is attributed to the wrong element.",
  ["inputs"],"for every list of shapes and every textual form of the coordinates",
  TST%("shape list and coordinate text","signs, exponents, several elements"),
  ["pgsql/point.go","pgsql/line.go","pgsql/lseg.go","pgsql/box.go","pgsql/path.go","pgsql/polygon.go","pgsql/pointarr.go","pgsql/linearr.go","pgsql/lsegarr.go","pgsql/boxarr.go","pgsql/patharr.go","pgsql/polygonarr.go","pgsql/convert_util.go"],
  [m("geometry parsers","pgsql/convert_util.go pgParsePoint .. pgParseBoxArray")],["driver value / target"])
p("P13","Network addresses survive the trip to PostgreSQL and back",
  "Converting IP addresses, networks and hardware addresses to inet, cidr, macaddr and macaddr8 values and arrays and scanning them back yields the same address, prefix length and element order. A value with a prefix length scanned into an address alone yields its address.",
  ["inputs"],"for every IPv4 address and prefix length and every hardware address",
  TST%("address","prefix lengths, element order"),
  ["pgsql/inet.go","pgsql/inetarr.go","pgsql/cidr.go","pgsql/cidrarr.go","pgsql/macaddr.go","pgsql/macaddrarr.go","pgsql/macaddr8.go","pgsql/macaddr8arr.go"],
  [m("address codecs","pgsql/inet.go")],["driver value / target"])
p("P14","Money amounts are exact to the cent",
  "Converting an integer number of cents to money (and slices to money[]) yields exactly that amount, and scanning the amount PostgreSQL emits yields exactly its number of cents: no cent is gained or lost, whatever the sign or magnitude.",
  ["inputs"],"for every 64-bit number of cents",
  TST%("amount","amounts whose cents are not exactly representable in binary, negative amounts, thousands separators"),
  ["pgsql/money.go","pgsql/moneyarr.go"],[m("money codec","pgsql/money.go")],["driver value / target"])
p("P15","Scanning NULL clears slices and maps",
  "Scanning SQL NULL into a slice, map or interface target leaves it nil whatever it held before, and never reports an error, so that a reused target never shows the previous row's data.",
  ["inputs","histories"],"for every previous content of the target",
  "The tests always scan into a fresh target, so a converter that leaves stale data behind passes them.",
  ["pgsql/*.go"],[m("nil handling in the scanners","pgsql/*arr.go")],["target after Scan(nil)"])
p("P16","Scanned data is independent of the driver's buffer",
  "After a successful scan the target shares no memory with the buffer the driver supplied, and scanning never modifies that buffer; likewise producing a driver value never modifies the Go value it was made from, and producing it twice gives the same result.",
  ["inputs","histories"],"for every input and every later overwrite of the driver's buffer",
  "database/sql only promises the buffer until the next row is fetched; the tests read one row and look at the result at once, so aliasing never shows.",
  ["pgsql/*.go"],[m("copying","pgsql/convert_util.go, pgsql/*.go")],["target after the buffer is overwritten"])
p("P17","Floats survive the trip through arrays, vectors and ranges",
  "Float and numeric arrays, int2vector, integer arrays and numeric and integer ranges held in Go floats keep every value exactly, fractions included, in both directions: the produced text denotes exactly the given numbers, and scanning gives exactly the numbers of the text in their order. A missing bound or an empty range scans as zero, and NULL elements as zero or an error.",
  ["inputs"],"for every integer the float holds exactly and every short decimal fraction",
  "Tests use a few values; truncated fractions and swapped bounds need particular numbers.",
  ["pgsql/float4arr.go","pgsql/float8arr.go","pgsql/numericarr.go","pgsql/numrange.go","pgsql/numrangearr.go","pgsql/int2vector.go","pgsql/int4range.go","pgsql/int8range.go"],[m("float converters","pgsql/*Float32*, *Float64*")],["driver value / target"])
p("P18","Dates, times and their ranges survive the trip",
  "Date, time, timetz, timestamp and timestamptz values, arrays and ranges keep every instant to PostgreSQL's microsecond resolution (and its zone offset) through encoding and scanning; NULL, empty and unbounded ranges scan as documented (zero) or as an error, never as a panic or another value.",
  ["inputs"],"for every fraction of a second and the listed dates and zones",
  "Tests use instants with whole or millisecond seconds and bounded ranges.",
  ["pgsql/time.go","pgsql/timetz.go","pgsql/timearr.go","pgsql/timetzarr.go","pgsql/timestamparr.go","pgsql/timestamptzarr.go","pgsql/datearr.go","pgsql/daterange.go","pgsql/daterangearr.go","pgsql/tsrange.go","pgsql/tsrangearr.go","pgsql/tstzrange.go","pgsql/tstzrangearr.go"],[m("layouts","pgsql time layouts"),m("range splitting","pgsql/tsrangearr.go, tstzrangearr.go")],["driver value / target"])
p("P19","JSON and XML documents survive the trip",
  "A json, jsonb or xml document reaches the Go value exactly as the standard codec reads it, whether the driver delivers it as bytes or as a string, and in memory of its own; a document the codec refuses is an error, and NULL leaves the value alone without an error. A Go value is sent as the document the standard codec writes for it, nil as NULL, and what the codec refuses to write is an error. An empty-interface target receives exactly what the driver delivered, of the same type.",
  ["inputs"],"for every document within the bounds and every form in which a driver delivers it",
  "Tests deliver documents as bytes only, through the one driver they use.",
  ["pgsql/json.go","pgsql/xml.go","pgsql/any.go"],[m("document scanners","pgsql/json.go, xml.go, any.go"),m("source forms","pgsql/convert_util.go srcbytes")],["driver value / target"])
# ---------------------------------------------------------------- filter
p("F01","Filter placeholders match their parameters",
  "For every sequence of filter-building calls and every starting position, the placeholders in the produced SQL are numbered consecutively from the position after the starting one, in order of appearance, with exactly one parameter for each, and each parameter is the value given for the condition that holds its placeholder. Rendering the filter again, or from another position, changes nothing but the numbers.",
  ["histories","inputs"],"for every call history and starting position",
  "Tests build a dozen fixed filters; the guarantee is over all call histories, mixes of predicates and start positions.",
  ["filter/filter.go","filter/convenience.go","gosql.go"],[m("parameter counter","filter/filter.go sqlWriter"),m("ordinals","gosql.go OrdinalParameters")],["ToSQL result"])
p("F02","Filters are always syntactically valid SQL conditions",
  "For every sequence of filter-building calls the produced text is either empty or a syntactically valid WHERE/ORDER BY/LIMIT/OFFSET tail: predicates are joined by exactly one connective, parentheses balance and are never empty, and no connective dangles. Nesting and connectives are rendered as the calls requested them, a group without conditions being left out together with the connective before it.",
  ["histories"],"for every history of calls, including nested groups that turn out empty and values that are nil or boolean",
  "Tests contain only well-behaved histories; empty groups, ignored keys and nil values with ordering operators never occur in them.",
  ["filter/filter.go","filter/convenience.go"],[m("connective insertion","filter/filter.go canAndOr")],["ToSQL text"])
p("F03","Filter query strings cannot inject SQL and keep their meaning",
  "For every filter query string, the produced SQL consists only of whitelisted column names, fixed operators, connectives, parentheses and placeholders; every user-supplied value is passed as a parameter with its operator and column intact. Unknown keys are reported in strict mode and otherwise ignored, together with the connective before them, without making the condition malformed; malformed query strings are reported or rendered harmlessly.",
  ["inputs"],"for every query string",
  "The input is attacker-controlled text; tests try a few benign strings.",
  ["filter/filter.go"],[m("query decoding","filter/filter.go UnmarshalFQL")],["ToSQL text and params, error"])
p("F04","Sort strings order by exactly the requested whitelisted columns",
  "For every sort string, the ORDER BY clause lists exactly the known keys' columns in the order given, descending exactly for keys preceded by a hyphen, nulls last for nullable columns; empty items are ignored and unknown keys are ignored or, in strict mode, reported. Nothing else of the string reaches the SQL.",
  ["inputs"],"for every sort string",
  "Attacker-controlled text; tests try a few benign strings.",
  ["filter/filter.go"],[m("sort decoding","filter/filter.go UnmarshalSort, OrderByV2")],["ToSQL text, error"])
p("F05","Limit, offset and page select the requested window",
  "A positive limit and offset appear exactly in the SQL and non-positive ones leave the previous setting in place; page n of limit k starts at row k*(n-1). The counting variant of a filter has the same condition and parameters as the filter and neither ordering nor limit nor offset.",
  ["inputs","histories"],"for every order of calls and all 64-bit values whose product fits",
  "Tests use a few small values in one order.",
  ["filter/filter.go"],[m("window arithmetic","filter/filter.go Limit/Offset/Page"),m("count filter","filter/filter.go countFilter")],["ToSQL text"])
p("F06","Text-search filters search for every term as a prefix",
  "For every list of plain search terms separated by spaces the text-search parameter is the conjunction of all terms, in order, each marked for prefix matching, and the search text only travels as a parameter.",
  ["inputs"],"for every list of plain terms and every amount of surrounding space",
  "Tests cover three fixed strings.",
  ["filter/filter.go"],[m("tsquery building","filter/filter.go toTSQuery")],["params"])
p("G01","Value lists enumerate consecutive placeholders",
  "The list of placeholders for a given count and starting position is exactly the comma separated, consecutively numbered placeholders after that position, and the ordinal table holds the placeholder text of every ordinal.",
  ["inputs"],"for every count and position within the supported number of parameters",
  "Tests try a few small counts.",
  ["gosql.go"],[m("list building","gosql.go InValueList"),m("ordinal table","gosql.go OrdinalParameters")],["returned string"])
# ---------------------------------------------------------------- analysis
p("A01","Condition tags are parsed into exactly what they say",
  "For every condition expression in a struct tag (a column condition, or the tag of a condition field), the analysis recovers the left operand, the predicate, the quantifier and the right operand exactly as written (case-insensitively for keywords), with the longest operator winning; it never panics and never loses or invents part of an operand. Expressions whose parts do not fit together (an unknown predicate, a quantifier with a predicate that does not allow one, such as IS DISTINCT FROM and SIMILAR TO, a missing operand) are rejected with an error.",
  ["inputs"],"for every expression string",
  "Tests list a few dozen expressions; operators adjacent to unusual operands, keyword-like column names and non-ASCII text are not among them.",
  ["internal/analysis/analysis.go"],[m("predicate expression parser","internal/analysis/analysis.go parsePredicateExpr")],["parsed parts"])
p("A02","Relation and column identifiers are validated and split correctly",
  "A relation or column identifier in a tag is accepted exactly when it has the documented form, and then its qualifier, name and alias are exactly the written parts; everything else is rejected. Lists of column identifiers are parsed element by element in order.",
  ["inputs"],"for every tag string",
  "Tests list a few identifiers.",
  ["internal/analysis/analysis.go"],[m("identifier parsers","internal/analysis/analysis.go parseRelIdent, parseColIdent, parseColIdentList")],["parsed identifiers / error"])
p("A03","Field options decide what is read, inserted, updated and filtered",
  "The options of a field's sql tag (ro, wo, xf, nn, the -/+ flags r w s f i u N, nullempty, add, default, coalesce and coalesce(value)) have exactly their documented effect, in every combination, order and nesting, and no other option changes it; for a field nested with the > marker the columns' prefixes and the parents' options accumulate. A struct's field is a column exactly when it has an sql tag other than -, a name, and can be accessed from the target's package. The key under which a filter knows a field is built from names or tags exactly as the configuration and the fck options say.",
  ["inputs","configurations"],"for every combination of options",
  "Tests cover single options.",
  ["internal/analysis/fieldmode.go","internal/analysis/analysis.go","internal/analysis/types.go"],[m("mode parsing","internal/analysis/fieldmode.go"),m("field list","internal/analysis/analysis.go analyzeFieldInfoList"),m("filter key","internal/analysis/analysis.go parseFilterColumnKey")],["field info of the analysis"])
p("A04","Go types are recognised as exactly what they are",
  "The analysis of a Go type recovers its structure: kind, element, key, array length, name and package, with aliases standing for the types they name; the canonical literal used for column compatibility spells exactly that structure (a named basic type as its kind, an outermost pointer elided). A record is accepted exactly when it is a struct, a pointer to, or a slice or array of, a named struct (or pointers to it), or an iterator function over one or an interface that declares exactly one such method itself (what it embeds does not count).",
  ["inputs"],"for every type built from basic kinds, slices, arrays, maps, pointers, named types and aliases to the stated depth",
  "Tests cover the types that occur in fixtures.",
  ["internal/analysis/analysis.go","internal/analysis/types.go"],[m("type analysis","internal/analysis/analysis.go analyzeTypeInfo, analyzeRelType"),m("literal building","internal/analysis/analysis.go GenericLiteral, Literal")],["type info, literal, error"])
p("A05","Conditions and joins keep the structure they are declared with",
  "The analysed condition of a query has exactly the items of the where struct in their order, joined by the connectives their bool tags name (and by default), nested exactly as the structs are; a between item has the declared predicate and its lower and upper bound on the right side whichever order they are declared in. A join or from/using block yields exactly the declared relations and joins of the declared type, in order, with conditions separated by commas joined by AND and by semicolons joined by OR. Anything malformed is rejected, nested structs without a condition and from/using blocks without a relation included.",
  ["inputs","programs"],"for every tree of conditions and list of joins within the stated sizes",
  "Tests use one fixture of each form.",
  ["internal/analysis/analysis.go"],[m("where analysis","internal/analysis/analysis.go analyzeWhereStruct"),m("join analysis","internal/analysis/analysis.go analyzeJoinStruct")],["where and join trees of the analysis, error"])
p("A06","Query clauses are analysed as declared and only where they are legal",
  "Order-by lists, limits, offsets, overriding, conflict handling, return, force, optional, default and text-search clauses are analysed to exactly what their tags and types say, each is accepted exactly for the kinds of query that support it, at most once, and clauses that contradict each other are rejected.",
  ["inputs","programs"],"for every tag text within the stated lengths and every pair of clauses for every kind of query",
  "Tests use one fixture for each error.",
  ["internal/analysis/analysis.go"],[m("directive analysis","internal/analysis/analysis.go analyzeQueryStructDirective, analyzeQueryStructField")],["query struct of the analysis, error"])
p("A07","An analysis depends on its target only",
  "The result of analysing a target does not depend on what was analysed before in the same process: not on targets of other packages over the same record type, and not on targets whose analysis failed.",
  ["histories"],"for every sequence of analyses within the stated length",
  "Tests analyse every fixture once, from one package.",
  ["internal/analysis/analysis.go"],[m("record type cache","internal/analysis/analysis.go relTypeCache")],["analysis result"])
p("A08","Types are recognised exactly when they have the methods",
  "A type used in a query is recognised as an error handler, after-scan hook, Scanner, Valuer, JSON or XML (un)marshaler, filter constructor or connection exactly when Go's method-set rules say that it has the methods of that interface with those signatures: through embedding, through interface types, behind aliases, and with the pointer receiver only where a pointer is at hand; methods with the same name and another signature do not count.",
  ["inputs","programs"],"for every type of the stated shapes, every method receiver kind and every signature variation",
  "Tests contain one or two well formed types for each interface.",
  ["internal/typesutil/predicates.go","internal/typesutil/utils.go"],[m("interface recognition","internal/typesutil/predicates.go")],["recognised / not recognised"])
# ---------------------------------------------------------------- type checker
p("T01","Every advertised column conversion exists and fits",
  "A field is accepted for a column exactly when values of its Go type need no conversion to and from the column's type or the library has converters between the two, and then those are the ones named for what is written and what is read: the value converter takes exactly that Go type and produces that PostgreSQL type, the scan converter fills that Go type. Text of any kind, labels of enums and arrays of text are handled as text, any value is one of a JSON or XML document (but for channels and functions, and maps as XML), and an empty interface can be read from any column. How long the column's values may be makes no difference but for the types whose values of length one have converters of their own. A type of another package that merely has the name of a known one is not taken for it.",
  ["inputs"],"for each of 90 PostgreSQL types, any other type of each category and every length, and each of 116 Go types",
  "Tests exercise a fraction of the several hundred pairs.",
  ["internal/postgres/compatibility.go","internal/postgres/postgres.go","pgsql/*.go"],[m("compatibility table","internal/postgres/compatibility.go"),m("table lookup","internal/postgres/postgres.go typeCompatibility")],["accepted / error, converters named, signatures of the library"])
p("T02","Conflict targets are resolved to the right unique index",
  "A conflict target given as columns is accepted exactly when some unique, unconditional index without expressions, or a primary key, covers exactly that set of columns, and the target rendered is that index's; a target given by index or constraint name is accepted exactly when the named index or constraint exists on the relation and is unique; a conflict clause is accepted only with the action (ignore or update) it needs and only with columns of the target relation.",
  ["inputs","configurations"],"for every set of index keys, flags, column numbers and column list within the stated sizes",
  "Tests use one fixed database schema.",
  ["internal/postgres/postgres.go"],[m("index matching","internal/postgres/postgres.go typeCheckQueryOnConflictStruct, matchNumbers")],["accepted target / error code"])
p("T03","Index expressions are extracted exactly from index definitions",
  "From every index definition PostgreSQL reports, the extracted index expression is exactly the text between the index's outermost parentheses, whatever quotes, parentheses and literals the expression contains, and extraction never fails at run time.",
  ["inputs"],"for every index definition",
  "Tests use the few indexes of the fixture schema.",
  ["internal/postgres/postgres.go"],[m("index definition parser","internal/postgres/postgres.go parseIndexExpr")],["extracted text"])
p("T04","Writes, reads and keys are selected exactly by the fields' options",
  "For every relation and set of fields, the columns written by an insert or update, the columns read, the primary-key columns and the filterable columns are exactly those the fields' options, the force list and the column list request, each paired with the right field; options of a struct field apply to the fields nested in it; every listed column must belong to the relation its qualifier names; a field without a matching column is reported unless it is optional or read-only. A write of a record without a column to write, and one by primary key to a relation that has none or whose key the record does not hold, is reported. (Whether a write-only column may be listed in a return clause is not specified.)",
  ["inputs","configurations"],"for every combination of options, column flags and force lists within the stated sizes",
  "Tests use fixed fixtures; the combinations are exponential.",
  ["internal/postgres/postgres.go"],[m("field checks","internal/postgres/postgres.go typeCheckQueryRelField")],["checker result"])
p("T05","Comparisons of columns are judged by the database's catalog",
  "A comparison of a column with a column or a literal is accepted exactly when the types are equal, the left side is text and the literal untyped, or the database has an operator for the two types directly or after an implicit cast of either side (assignment and explicit casts do not count), using the element type for quantified and list predicates; array operands are demanded exactly for those, boolean tests of boolean columns and NULL tests of nullable (or joined) columns; a type missing from the catalog is an error, never a crash.",
  ["inputs","configurations"],"for every operator, cast and type catalog within the stated sizes",
  "Tests use one catalog and a few comparisons.",
  ["internal/postgres/postgres.go"],[m("comparison check","internal/postgres/postgres.go typeCheckComparison, typeCheckColumnConditional")],["accept / error code"])
p("T07","Conditions on fields are accepted exactly when PostgreSQL can evaluate them",
  "A condition that compares a column with a field is accepted exactly when the database has an operator of the predicate's name for the column's type and a type the field's values can be sent as (arrays of it for quantified predicates, the elements of the field one by one for list predicates; the elements are what the operator compares), and the converter recorded for the field produces the type that operator takes; with a modifier function, exactly when functions of that name, not aggregates, take the column (directly or by an implicit cast) and the field and their results are comparable; range conditions are accepted exactly when both bounds are comparable with the predicate's two operators, each bound keeping its own field.",
  ["inputs","configurations"],"for every operator set, function set, cast, predicate, quantifier and field type within the stated sizes",
  "Tests use one catalog and a few conditions; whether a rejected or accepted combination is right depends on the whole catalog.",
  ["internal/postgres/postgres.go"],[m("condition check","internal/postgres/postgres.go typeCheckFieldConditional, typeCheckFieldConditionalWithFunc, typeCheckWhereBetweenStruct")],["accept / error code, chosen converter"])
p("T06","Type checking is deterministic",
  "The same target checked against the same database always gives the same result, independent of the iteration order of internal tables.",
  ["schedules","inputs"],"for every iteration order of the catalog and compatibility maps",
  "A test run observes one order at a time.",
  ["internal/postgres/postgres.go","internal/postgres/compatibility.go"],[m("operator search","internal/postgres/postgres.go typeCheckFieldConditional")],["chosen converter"])
p("T08","Targets are checked against what the database says about itself",
  "The types, operators, casts, functions of one argument, relations, columns, constraints, indexes and types of literals that targets are checked against are those that the database's catalogs hold, whatever the order of rows and whatever else the catalogs hold: a relation is the one that its name, quoted as in the generated queries, stands for, and of it exactly its own columns that are not dropped, in their order, each with its type, NOT NULL, default and whether it is part of the primary key; only the key columns of its indexes; a column counts as nullable exactly when a table (plain, partitioned or foreign) does not declare it NOT NULL. (Views' columns count as not nullable; functions beginning with pg_ are left out.) A query of the catalogs that fails, at once or midway, is reported and nothing of it is kept; what was read is not read again.",
  ["inputs","fault_sequences"],"for every value of the attributes, 2 to 5 rows in each catalog, server versions 9.6, 10, 11 and 16, and each failing query",
  "Tests use one database.",
  ["internal/postgres/postgres.go","internal/postgres/types.go"],[m("catalog","internal/postgres/postgres.go loadCatalog"),m("relations","internal/postgres/postgres.go loadRelation"),m("literals","internal/postgres/postgres.go typeOfLiteral")],["catalog after Open and Check, errors"])
# ---------------------------------------------------------------- generator
p("N01","Generated queries pass arguments in placeholder order",
  "In every generated query, placeholder $k refers to the k-th argument of the generated call, and that argument is the value of the field whose condition or column the placeholder belongs to, passed through the converter of the pgsql package that the column's type calls for, if any; no placeholder lacks an argument and no argument lacks a placeholder.",
  ["inputs","programs"],"for every query kind and every combination of writes, conditions, nesting, limits and offsets within the stated sizes",
  "Tests compare fixed fixtures with golden files.",
  ["internal/generator/generator.go"],[m("parameter counter","internal/generator/generator.go")],["generated source"])
p("N02","Generated conditions express the declared predicates",
  "Every predicate, quantifier, range predicate, function modifier, connective and nesting declared for a query appears in the generated SQL with exactly its meaning, on the declared operands.",
  ["inputs","programs"],"for every predicate and every condition tree within the stated sizes",
  "Golden files cover selected predicates.",
  ["internal/generator/generator.go"],[m("condition rendering","internal/generator/generator.go")],["generated SQL text"])
p("N03","Generated column lists and value lists agree",
  "In every generated INSERT, UPDATE and SELECT the i-th column corresponds to the i-th value or scan target, for single and batch operations, including defaults, coalescing and conflict handling.",
  ["inputs","programs"],"for every record with one field of every kind and option among up to three others, every combination of the write directives, returning clauses and conflict clauses tried, single records and batches of two, and fields with options nested one to four structs deep, embedded or behind pointers",
  "Golden files cover selected structs.",
  ["internal/generator/generator.go"],[m("write/read rendering","internal/generator/generator.go")],["generated source"])
p("N04","Generated scan targets are initialised before use",
  "Generated code initialises every pointer on the path to a scanned nested field before the scan, for every nesting of fields: no scan goes through a nil pointer, each row lands in a record of its own, and every column in the field it was read for.",
  ["inputs","programs"],"for every tree of four nested fields, each embedded or named, by value or by pointer (six in the thorough tier), in every kind of output: single, slices, arrays, iterators, returned, with one or two rows",
  "Golden files cover two nestings.",
  ["internal/generator/generator.go"],[m("output initialisation","internal/generator/generator.go buildQueryOutputInitFields")],["generated source"])
p("N05","Generated files name every package and type they refer to",
  "Whatever the paths and names of the packages a query type's file, fields, filters, value converters and connection come from: the generated file imports each package it uses exactly once, under a name that no other import, predeclared identifier, local of the generated code or top-level identifier of the user's package has; every type and function written in it is the one meant, so the parameters of the generated methods have exactly the types configured or declared; and no import is unused.",
  ["inputs","programs"],"for one to three packages with colliding, reserved and unusual names and paths, every name of one or two lower-case letters, 29 forms of a filter's value type, and connection types and converters from any of the packages",
  "Golden files have no colliding package names beyond two.",
  ["internal/generator/generator.go"],[m("import registry","internal/generator/generator.go addimport"),m("types of filter values","internal/generator/generator.go makeFilterValueTypeNode")],["import declarations, selectors and the types of the generated methods"])
p("N06","Generated methods report every failure and hand over every record",
  "For every kind of query and every way to receive its results, a generated method: returns the error of the query, of a scan, of the rows, of the rows affected or of the iterator, or hands it to the query type's error handler (with the query string, the kind and name of the query and the query itself, where that is declared) and returns what the handler gives; returns nil when nothing failed; closes the rows on every path; calls AfterScan once per record, after its scan and before it is handed over; hands each record to the iterator once and in order; uses the context given; and stores the number of rows affected in its field, whatever integer type that has.",
  ["inputs","programs","fault_sequences"],"for 17 query declarations, each failing operation, up to 2 rows (3 thorough), handlers as fields, embedded or behind pointers, contexts from the method or the query type, 14 types of the rows-affected field and query type names ending in any one or two letters, digits or underscores",
  "Tests compare generated text, no test runs it against failing connections.",
  ["internal/generator/generator.go","internal/analysis/analysis.go"],[m("error returns","internal/generator/generator.go makeErrorReturnStmt"),m("scans and iteration","internal/generator/generator.go buildQueryResultRowsScan")],["results, handler, iterator and connection calls of the interpreted method"])
p("N07","Filter types compare the columns of their fields",
  "A generated filter type hands its constructor the columns of its fields, each under the key the field's tags or the configuration give it (the first field with a key keeps it), with the column's name, whether NULL can be in it and the converter of a field that needs one, and the text-search column, if there is one. It has one method per filterable field, named by the path of the field, unless that name is taken; each adds the comparison of that field's column with the operator and the value given and returns the filter. And and Or connect what follows, or a group.",
  ["inputs","programs"],"for fields under nested structs with any combination of ignored, empty and optioned keys, 23 field names in several shapes of struct, any identifiers of up to 3 letters in two nested paths, any printable keys of up to 2 bytes, key separators and configuration options, and 8 field options",
  "Tests compare the generated text of a few filters.",
  ["internal/generator/generator.go","internal/postgres/postgres.go","internal/analysis/analysis.go"],[m("filter methods","internal/generator/generator.go buildFilterMethodsForColumns"),m("keys","internal/generator/generator.go buildFilterColumnMap")],["constructor and filter calls of the interpreted methods"])
p("N08","The code generated for an accepted declaration compiles",
  "Every declaration of a query or filter type is either rejected with an error or yields a file of Go source that parses and type-checks together with the user's package; the tool never panics on one. Texts that are the user's or the database's to choose (literals, fallback values, index expressions and predicates) reach the query unchanged. Not covered: names of user types that equal the generated code's local variables or shadow predeclared identifiers; records in arrays and pointers to types of another package that are not exported are listed as known findings.",
  ["inputs","programs"],"for 67 types of records, 35 forms of nested structs up to 2 deep (3 thorough), 90 conditions and 90 other parts of queries under exported, unexported and blank names, in every kind of query, 8 names of query types in 6 forms of declaration, and any printable text of 2 bytes (3 thorough)",
  "Golden files have a fixed set of well-behaved declarations.",
  ["internal/generator/generator.go","internal/analysis/analysis.go"],[m("type nodes","internal/generator/generator.go makeTypeNode, buildQueryOutputInitRoot, buildQueryOutputInitFields"),m("accepted declarations","internal/analysis/analysis.go analyzeQueryStruct, analyzeWhereStruct"),m("raw text","internal/generator/generator.go fmtRawText")],["parser and type checker errors of the generated file, panics"])
p("N09","The order, limit and offset of a generated query are those declared",
  "A generated SELECT (of rows, of a single record, with an iterator, COUNT, EXISTS and NOT EXISTS) orders by exactly the declared columns, in their order, each in its direction and with its nulls where declared (by default ascending, nulls last), and has exactly the declared limit and offset: the number of the directive, or the value of the field, for which the number in its tag stands in when the field is zero. Without a declared limit, a query for a single record that has no filter is limited to one, others are not limited. The clauses stand in the order SQL requires, after the condition or what the filter adds, and the fields' values are passed to their placeholders.",
  ["inputs","programs"],"for every number of one or two digits, order-by lists of up to 2 columns (3 thorough), and every combination of kind of query, condition, list, filter, order, limit and offset, each given by a directive, a field or a field with a default",
  "Golden files cover single combinations.",
  ["internal/generator/generator.go","internal/analysis/analysis.go"],[m("order","internal/generator/generator.go buildSQLOrderClause"),m("limit and offset","internal/generator/generator.go buildSQLLimitClause, buildSQLOffsetClause, buildQueryLimitOffsetFallback"),m("after a filter","internal/generator/generator.go makeSQLFilterTail")],["SQL text and arguments the interpreted method sends"])
# ---------------------------------------------------------------- configuration
p("C01","Command-line flags take precedence over the configuration file",
  "An option given on the command line keeps that value whatever the configuration file contains; one not given there takes the file's value if the file has it, and its default otherwise. Options do not affect one another. The file is the one named on the command line, or else .gosql or .gosql.json at the root of the git project of the working directory. A value of another JSON type in the file is an error unless the command line gives the option.",
  ["inputs","histories"],"for every option, given in either, both or neither place, with any value of up to 3 printable characters (quick) or 4 (thorough)",
  "Tests cover a few values of a few options.",
  ["internal/config/types.go","internal/config/config.go"],[m("set markers","internal/config/types.go Bool, String, StringSlice, GoType, ObjectIdent"),m("merging","internal/config/config.go ParseFlags, ParseFile")],["configuration after flags and file were read, errors"])
p("C02","Type and function references in the configuration are split exactly",
  "A reference to a Go type or function is accepted exactly when it is well-formed and is then split at its last dot into the package's path and the name, keeping the pointer mark of types; nothing of a value set before is left in it.",
  ["inputs","histories"],"for every printable reference of up to 6 characters (8 thorough), and paths of up to 3 elements",
  "Tests cover a few references.",
  ["internal/config/types.go"],[m("reference parsing","internal/config/types.go GoType.Set, ObjectIdent.Set")],["parsed parts, errors"])
p("C03","Input selection and output naming follow the configuration",
  "A file is processed exactly when nothing is selected, or it is listed, or its path matches one of the expressions. The output of a file lies next to it and is named by applying the configured format to its name, with a Go extension; formats with a verb other than %s, with more than one, or that name the input itself are rejected. (Formats with slashes are not covered.).",
  ["inputs","configurations"],"for every path, list and expression of the stated small sizes and every format of up to 4 printable characters (5 thorough)",
  "Tests cover a few paths.",
  ["internal/config/config.go","internal/command/command.go"],[m("file filter","internal/config/config.go FileFilterFunc"),m("output name","internal/config/config.go Validate, internal/command/command.go outFilePath")],["filter result, output path, errors"])
p("C04","A file is written completely or left as it was",
  "Generated code that cannot be formatted leaves the output file as it was, or missing; a write that fails leaves no half-written file; a file that is written holds the generated code and nothing of the file it replaces. Not covered: that a run over several files writes all or none (it does not claim to).",
  ["fault_sequences"],"for every failing step of writing one file, with and without a file there before",
  "Tests do not inject faults.",
  ["internal/command/command.go"],[m("writing","internal/command/command.go writeOutFile")],["the file after the call, errors"])
p("C05","Configurations that cannot be used are rejected",
  "A configuration is accepted exactly when its working directory exists, its database can be reached, its filter column tag is a word, its separator is at most one byte, and its expressions compile; an accepted one works in the directory that was named.",
  ["configurations"],"for every tag of up to 3 printable characters (4 thorough), separators of up to 3, and the listed faults of the rest",
  "Tests cover the accepted ones.",
  ["internal/config/config.go","internal/command/command.go"],[m("validation","internal/config/config.go Validate"),m("start","internal/command/command.go New")],["error of New"])
p("C06","Code is generated for exactly the types that ask for it",
  "The types that code is generated for are the struct types, not aliases, declared at package level whose names begin with select, insert, update, delete or filter in any case, without gosql:ignore in the comment of the type or its group, in the selected files of the directory and, if asked for, those below it; each is listed once, with its own position and file.",
  ["programs","configurations"],"for every name of 4 to 14 characters, 8 forms of declarations with 9 forms of comments, alone, grouped or in sequence, and up to 2 targets in each of 4 files of 3 packages",
  "Tests cover one directory.",
  ["internal/search/search.go"],[m("targets","internal/search/search.go Search"),m("directives","internal/search/search.go hasIgnoreDirective")],["targets found"])
p("C07","The configured argument type is one that generated code can use",
  "A type given as that of the generated methods' argument is accepted exactly when the methods of gosql.Conn can be called on a value of it, however it is declared, and is then used under the name of its package.",
  ["programs","configurations"],"for interfaces and structs with any of the six methods missing, with another signature or behind embedding, pointers, aliases and named types",
  "Tests cover the default type.",
  ["internal/config/config.go","internal/command/command.go"],[m("argument type","internal/config/config.go checkMethodArgumentType")],["error, type used"])
