package generator

//vp:export internal/postgres

import (
	"strconv"
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres"
)

// Results of generated methods: errors, handlers, rows, iterators, contexts.

const vpAfter = "func (*User) AfterScan() {}\n"

const vpHandlers = `
type Handler struct{}
func (*Handler) HandleError(err error) error { return err }
type InfoHandler struct{}
func (*InfoHandler) HandleErrorInfo(info *gosql.ErrorInfo) error { return info.Error }
`

// vpKeyed is the database whose table users has a primary key.
func vpKeyed() *postgres.DB {
	db := vpUsers()
	postgres.VPCatalog(db).Relations[analysis.RelIdent{Name: "users", Alias: "u"}].Columns[0].IsPrimary = true
	return db
}

// vpOut is a way to run a query and receive what it gives.
type vpOut struct {
	name   string // of the query type
	kind   string // of the query
	decl   string
	method string // of the connection
	out    string // the field that receives, "" for none
	many   bool
	iter   string // the method that receives records
	ops    string // what can fail
}

var vpOuts = []vpOut{
	{"DeleteQ", "Delete", "Rel User `rel:\"users:u\"`\n_ gosql.All", "Exec", "", false, "", "query"},
	{"UpdateQ", "Update", "Rel *User `rel:\"users:u\"`\nRowsAffected int64", "Exec", "", false, "", "query affected"},
	{"InsertQ", "Insert", "Rel []*User `rel:\"users:u\"`\nRowsAffected uint16", "Exec", "", false, "", "query affected"},
	{"DeleteQ", "Delete", "Rel User `rel:\"users:u\"`\nRowsAffected int\nWhere struct { Ids []int `sql:\"id isin\"` }", "Exec", "", false, "", "query affected"},
	{"SelectQ", "Select", "Rel User `rel:\"users:u\"`\nWhere struct { Ids []int `sql:\"id isin\"` }", "QueryRow", "Rel", false, "", "query scan"},
	{"SelectQ", "Select", "Rel *User `rel:\"users:u\"`", "QueryRow", "Rel", false, "", "query scan"},
	{"SelectQ", "Select", "Rel []User `rel:\"users:u\"`", "Query", "Rel", true, "", "query scan rows"},
	{"SelectQ", "Select", "Rel []*User `rel:\"users:u\"`\nWhere struct { Ids []int `sql:\"id isin\"` }", "Query", "Rel", true, "", "query scan rows"},
	{"SelectQ", "Select", "Rel func(*User) error `rel:\"users:u\"`", "Query", "Rel", true, "Rel", "query scan rows iter"},
	{"SelectQ", "Select", "Rel interface { Each(User) error } `rel:\"users:u\"`", "Query", "Rel", true, "Each", "query scan rows iter"},
	{"InsertQ", "Insert", "Rel *User `rel:\"users:u\"`\n_ gosql.Return `sql:\"*\"`", "QueryRow", "Rel", false, "", "query scan"},
	{"InsertQ", "Insert", "Rel []*User `rel:\"users:u\"`\n_ gosql.Return `sql:\"*\"`", "Query", "Rel", true, "", "query scan rows"},
	{"UpdateQ", "Update", "Rel *User `rel:\"users:u\"`\nResult []*User", "Query", "Result", true, "", "query scan rows"},
	{"DeleteQ", "Delete", "Rel User `rel:\"users:u\"`\n_ gosql.All\nResult func(*User) error", "Query", "Result", true, "Result", "query scan rows iter"},
	{"SelectCountQ", "Select", "Count int `rel:\"users:u\"`", "QueryRow", "Count", false, "", "query scan"},
	{"SelectExistsQ", "Select", "Exists bool `rel:\"users:u\"`", "QueryRow", "Exists", false, "", "query scan"},
	{"SelectNotExistsQ", "Select", "NotExists bool `rel:\"users:u\"`", "QueryRow", "NotExists", false, "", "query scan"},
}

// vpFails are the operations that can fail.
var vpFails = []string{"", "query", "scan", "rows", "affected", "iter"}

func vpResult(o vpOut, handler string, after bool, ctx int, fail string, nrows int) {
	if fail != "" && !strings.Contains(o.ops, fail) {
		vpSkip()
	}
	if (fail == "scan" || fail == "iter") && o.many && nrows == 0 {
		vpSkip() // needs a row
	}
	src := vpUser + vpHandlers
	if after {
		src += vpAfter
	}
	decls := []string{o.decl}
	switch handler {
	case "error":
		decls = append(decls, "EH *Handler")
	case "embedded":
		decls = append(decls, "gosql.ErrorHandler")
	case "info":
		decls = append(decls, "eih *InfoHandler")
	case "embedded info":
		decls = append(decls, "gosql.ErrorInfoHandler")
	}
	if ctx&1 != 0 {
		src = "import \"context\"\n" + src
		decls = append(decls, "Ctx context.Context")
	}
	p := vpNew(src + vpQ(append([]string{"type " + o.name}, decls...)...))
	p.cfg.MethodWithContext.Value = ctx&2 != 0
	p.load()
	vpObs("source", p.src)
	err := p.analyse(vpKeyed(), o.name)
	vpAssert(err == nil, "a valid declaration is rejected")
	if err != nil {
		return
	}
	p.generate()

	rt := &vpRT{nrows: nrows, fail: fail, slices: func(path string) int {
		if path == "q.Where.Ids" {
			return 2
		}
		if o.kind == "Insert" {
			return nrows
		}
		return 0
	}}
	_, res := p.exec(rt, o.name)
	call := rt.calls[0]
	vpObs("res", vpDump(res))
	vpObs("log", strings.Join(rt.log, "; "))

	// the call
	method := o.method
	if ctx != 0 {
		method += "Context"
	}
	vpAssert(call.method == method, "the query is sent by another method of the connection")
	want := ""
	if ctx&2 != 0 {
		want = "ctx"
	} else if ctx&1 != 0 {
		want = "q.Ctx"
	}
	vpAssert(call.ctx == want, "the query is not sent with the context given")

	// the result
	e := ""
	if fail != "" {
		e = "error:" + fail
	}
	switch {
	case e == "":
		vpAssert(res == nil, "a query that succeeded returns an error")
		vpReach("success")
	case handler == "error" || handler == "embedded":
		vpAssert(vpDump(res) == "handled("+e+")", "an error is not handed to the handler")
		vpReach("handled")
	case handler == "info" || handler == "embedded info":
		vpAssert(vpDump(res) == "handled("+e+" query "+strconv.Quote(o.kind)+" "+strconv.Quote(o.name)+" q)", "an error is not handed to the handler with what it is about")
		vpReach("handled info")
	default:
		vpAssert(vpDump(res) == e, "an error is not returned")
		vpReach("error")
	}

	// the rows
	if o.method == "Query" {
		vpAssert(rt.closed == (fail != "query"), "the rows are not closed, or closed although there are none")
	}
	if fail == "query" {
		vpAssert(len(rt.received) == 0, "a record is made up")
	}
	read := nrows
	if !o.many {
		read = 1
	}
	if fail == "query" {
		read = 0
	} else if fail == "scan" {
		read--
	}
	if o.out == "" || strings.HasPrefix(o.name, "SelectCount") || strings.HasSuffix(o.name, "ExistsQ") {
		read = 0
		after = false
	}
	// every record is scanned, then told so, then handed over
	var events []string
	for i := 1; i <= read; i++ {
		if after {
			events = append(events, "AfterScan")
		}
		if o.iter != "" {
			events = append(events, "iter")
		}
	}
	ok := true
	i := 0
	for _, l := range rt.log {
		if strings.HasPrefix(l, "HandleError:nil") {
			continue // documented: the handler may be called without an error
		}
		if strings.HasPrefix(l, "HandleError:") {
			continue
		}
		if i >= len(events) || !strings.HasPrefix(l, events[i]) {
			ok = false
			break
		}
		row := i
		if after && o.iter != "" {
			row = i / 2
		}
		if !strings.Contains(l, "row"+strconv.Itoa(row+1)+":") {
			ok = false
		}
		i++
	}
	vpAssert(ok && i == len(events), "records are not scanned, told so and handed over in this order, once each")
}

// Flow: every way to fail of every way to receive, with every handler.
func VP_N06_Flow() {
	o := vpOuts[vpChoose(len(vpOuts))]
	handler := []string{"", "error", "info", "embedded", "embedded info"}[vpChoose(vpBound("handlers", 3, 5))]
	fail := vpFails[vpChoose(len(vpFails))]
	nrows := 1
	if o.many {
		nrows = vpChoose(vpBound("rows", 3, 4))
	}
	after := handler != "error"
	if vpThorough() {
		after = vpBool()
	}
	vpResult(o, handler, after, 0, fail, nrows)
}

// Context: the context of the method and that of the query type.
func VP_N06_Context() {
	o := vpOuts[vpChoose(len(vpOuts))]
	ctx := vpChoose(4)
	fail := vpFails[vpChoose(vpBound("failures with a context", 2, 6))]
	vpResult(o, "", false, ctx, fail, 1)
}

// Affected: the number of rows affected arrives in the field.
func VP_N06_Affected() {
	typ := []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune", "Count", "Alias"}[vpChoose(14)]
	kind := vpChoose(3)
	name, decl := "DeleteQ", "Rel User `rel:\"users:u\"`\n_ gosql.All"
	switch kind {
	case 1:
		name, decl = "UpdateQ", "Rel []User `rel:\"users:u\"`"
	case 2:
		name, decl = "InsertQ", "Rel *User `rel:\"users:u\"`"
	}
	p := vpNew(vpUser + "type Count int64\ntype Alias = int16\n" + vpQ("type "+name, decl, "RowsAffected "+typ))
	p.load()
	vpObs("source", p.src)
	if err := p.analyse(vpKeyed(), name); err != nil {
		vpAssert(typ == "Count", "a valid declaration is rejected")
		vpReach("rejected")
		return
	}
	p.generate()
	fail := []string{"", "query", "affected"}[vpChoose(3)]
	rt := &vpRT{fail: fail, slices: func(string) int { return 2 }}
	q, res := p.exec(rt, name)
	got := vpDump(q.v.(*vpStruct).fields["RowsAffected"].v)
	if fail == "" {
		vpAssert(res == nil && got == "affected", "the number of rows affected is lost")
		vpReach("affected")
		return
	}
	vpAssert(vpDump(res) == "error:"+fail, "an error is not returned")
	vpAssert(got == "q.RowsAffected", "a failed query sets the number of rows affected")
	vpReach("failed")
}

// Names: a query type whose name ends with any letters reports itself by its name.
func VP_N06_Names() {
	n := vpChoose(vpBound("letters of a query type's name", 2, 3)) + 1
	tail := vpString(n)
	for i := 0; i < n; i++ {
		c := tail[i]
		vpAssume(vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z'), vpAnd(c >= '0', c <= '9'), c == '_'))
	}
	k := vpChoose(4)
	name := []string{"Select", "Insert", "Update", "Delete"}[k] + tail
	kind := []string{"Select", "Insert", "Update", "Delete"}[k]
	more := []string{"", "", "", "_ gosql.All"}[k]
	p := vpNew(vpUser + vpHandlers + vpQ("type "+name, "Rel User `rel:\"users:u\"`", "H InfoHandler", more))
	p.load()
	err := p.analyse(vpKeyed(), name)
	vpAssert(err == nil, "a valid declaration is rejected")
	if err != nil {
		return
	}
	p.generate()
	rt := &vpRT{nrows: 1, fail: "query"}
	_, res := p.exec(rt, name)
	vpObs("name", name)
	vpAssert(vpDump(res) == "handled(error:query query \""+kind+"\" \""+name+"\" q)", "an error is not handed to the handler with what it is about")
	vpReach("named")
}
