package postgres

import (
	"database/sql"
	"errors"
	"io"
	"net"
	"strconv"
	"strings"

	"github.com/frk/gosql/internal/postgres/oid"
)

// A stand-in for a PostgreSQL server: tables of the system catalogs, and queries
// on them. In the symbolic run it answers in place of database/sql; natively it is
// a server that the real database/sql and lib/pq talk to.

type VPVec []int64 // an int2vector
type VPArr []int64 // an array of int2

type VPServer struct {
	Tables   map[string][]map[string]any
	Settings map[string]string
	Regclass func(name string) int64 // 0: there is none
	Typeof   func(expr string) int64
	FailAt   int // the query that fails, counted from 1
	FailRows int // it fails after that many rows
	Asked    int // the number of queries so far
}

var errVPServer = errors.New("server error")

type vpResult struct {
	rows [][]any
	at   int
	err  error
}

// run answers a query.
func (s *VPServer) run(q string, args []any) *vpResult {
	s.Asked++
	r := new(vpResult)
	if w := strings.Fields(q); strings.EqualFold(w[0], "show") {
		v, ok := s.Settings[strings.ToLower(w[1])]
		if !ok {
			panic("vp: no setting " + q)
		}
		r.rows = [][]any{{v}}
	} else {
		p := &vpSQLParser{s: s, toks: vpSQLTokens(q), args: args}
		r.rows = p.query()
	}
	if s.Asked == s.FailAt {
		r.err = errVPServer
		if s.FailRows < len(r.rows) {
			r.rows = r.rows[:s.FailRows]
		}
	}
	return r
}

// ------------------------------------------------------------------ the language

func vpSQLTokens(q string) (toks []string) {
	word := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; i < len(q); {
		c := q[i]
		j := i + 1
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
			continue
		case c == '\'':
			for j < len(q) && (q[j] != '\'' || j+1 < len(q) && q[j+1] == '\'') {
				if q[j] == '\'' {
					j++
				}
				j++
			}
			j++
		case c == '"':
			for j < len(q) && q[j] != '"' {
				j++
			}
			j++
		case word(c) || c == '$':
			for j < len(q) && word(q[j]) {
				j++
			}
		default:
			for _, op := range []string{"::", "<>", "!=", "<=", ">=", "||"} {
				if strings.HasPrefix(q[i:], op) {
					j = i + 2
				}
			}
		}
		if c == '-' && j < len(q) && q[j] == '-' {
			panic("vp: comments")
		}
		toks = append(toks, q[i:j])
		i = j
	}
	return toks
}

type vpSQLEnv map[string]map[string]any // rows by alias

type vpSQLExpr func(env vpSQLEnv) any

type vpSQLParser struct {
	s    *VPServer
	toks []string
	args []any
}

func (p *vpSQLParser) peek() string {
	if len(p.toks) == 0 {
		return ""
	}
	return p.toks[0]
}

func (p *vpSQLParser) take() string {
	t := p.peek()
	if t == "" {
		panic("vp: the query ends early")
	}
	p.toks = p.toks[1:]
	return t
}

func (p *vpSQLParser) got(words ...string) bool {
	if len(p.toks) < len(words) {
		return false
	}
	for i, w := range words {
		if !strings.EqualFold(p.toks[i], w) {
			return false
		}
	}
	p.toks = p.toks[len(words):]
	return true
}

func (p *vpSQLParser) want(w string) {
	if !p.got(w) {
		panic("vp: " + w + " expected at " + strings.Join(p.toks, " "))
	}
}

func vpSQLWord(t string) bool {
	c := t[0]
	return c == '"' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (p *vpSQLParser) query() (out [][]any) {
	p.want("SELECT")
	if p.got("DISTINCT") {
		panic("vp: DISTINCT")
	}
	list := []vpSQLExpr{}
	for {
		list = append(list, p.expr())
		if p.got("AS") {
			p.take()
		}
		if !p.got(",") {
			break
		}
	}
	envs := []vpSQLEnv{{}}
	if p.got("FROM") {
		envs = p.from()
	}
	where := func(vpSQLEnv) any { return true }
	if p.got("WHERE") {
		where = p.expr()
	}
	var order []vpSQLExpr
	if p.got("ORDER", "BY") {
		for {
			order = append(order, p.expr())
			p.got("ASC")
			if !p.got(",") {
				break
			}
		}
	}
	p.got(";")
	if len(p.toks) > 0 {
		panic("vp: not understood: " + strings.Join(p.toks, " "))
	}
	var keys [][]any
	for _, env := range envs {
		if !vpSQLTrue(where(env)) {
			continue
		}
		var row, key []any
		for _, e := range list {
			row = append(row, e(env))
		}
		for _, e := range order {
			key = append(key, e(env))
		}
		out, keys = append(out, row), append(keys, key)
		for i := len(out) - 1; i > 0 && vpSQLBefore(keys[i], keys[i-1]); i-- {
			out[i], out[i-1], keys[i], keys[i-1] = out[i-1], out[i], keys[i-1], keys[i]
		}
	}
	return out
}

func vpSQLBefore(a, b []any) bool {
	for i := range a {
		if vpSQLTrue(vpSQLCompare("<", a[i], b[i])) {
			return true
		}
		if vpSQLTrue(vpSQLCompare("<", b[i], a[i])) {
			return false
		}
	}
	return false
}

func (p *vpSQLParser) from() (envs []vpSQLEnv) {
	envs = []vpSQLEnv{{}}
	for first := true; ; first = false {
		left := false
		switch {
		case first:
		case p.got("LEFT", "OUTER", "JOIN"), p.got("LEFT", "JOIN"):
			left = true
		case p.got("INNER", "JOIN"), p.got("JOIN"):
		default:
			return envs
		}
		name := p.take()
		if p.got(".") {
			name = p.take()
		}
		var rows []map[string]any
		if p.peek() == "(" { // a function
			if name != "pg_typeof" {
				panic("vp: FROM " + name)
			}
			rows = []map[string]any{{}}
			for k, v := range map[string]any{"": p.typeof()} {
				rows[0][k] = v
			}
		} else {
			t, ok := p.s.Tables[strings.ToLower(name)]
			if !ok {
				panic("vp: no table " + name)
			}
			rows = t
		}
		alias := name
		p.got("AS")
		if w := p.peek(); w != "" && vpSQLWord(w) && !vpSQLKeyword(w) {
			alias = p.take()
		}
		if name == "pg_typeof" {
			rows = []map[string]any{{alias: rows[0][""]}}
		}
		on := func(vpSQLEnv) any { return true }
		if !first {
			p.want("ON")
			on = p.expr()
		}
		var next []vpSQLEnv
		for _, env := range envs {
			found := false
			for _, row := range rows {
				e := vpSQLEnv{alias: row}
				for k, v := range env {
					e[k] = v
				}
				if vpSQLTrue(on(e)) {
					next, found = append(next, e), true
				}
			}
			if !found && left {
				e := vpSQLEnv{alias: nil}
				for k, v := range env {
					e[k] = v
				}
				next = append(next, e)
			}
		}
		envs = next
	}
}

// typeof reads the argument of pg_typeof.
func (p *vpSQLParser) typeof() any {
	p.want("(")
	depth, text := 0, ""
	for depth > 0 || p.peek() != ")" {
		switch t := p.take(); t {
		case "(":
			depth++
			text += t
		case ")":
			depth--
			text += t
		default:
			text += t
		}
	}
	p.want(")")
	return p.s.Typeof(text)
}

func vpSQLKeyword(w string) bool {
	switch strings.ToUpper(w) {
	case "LEFT", "INNER", "JOIN", "ON", "WHERE", "ORDER", "AND", "OR", "NOT", "LIKE", "IN", "IS", "AS", "FROM", "ANY":
		return true
	}
	return false
}

func vpSQLTrue(v any) bool {
	b, ok := v.(bool)
	return ok && b
}

func (p *vpSQLParser) expr() vpSQLExpr {
	l := p.and()
	for p.got("OR") {
		a, b := l, p.and()
		l = func(env vpSQLEnv) any {
			x, y := a(env), b(env)
			switch {
			case vpSQLTrue(x) || vpSQLTrue(y):
				return true
			case x == nil || y == nil:
				return nil
			}
			return false
		}
	}
	return l
}

func (p *vpSQLParser) and() vpSQLExpr {
	l := p.not()
	for p.got("AND") {
		a, b := l, p.not()
		l = func(env vpSQLEnv) any {
			x := a(env)
			if bx, ok := x.(bool); ok && !bx {
				return false
			}
			y := b(env)
			if by, ok := y.(bool); ok && !by {
				return false
			}
			if x == nil || y == nil {
				return nil
			}
			return true
		}
	}
	return l
}

func vpSQLNot(e vpSQLExpr) vpSQLExpr {
	return func(env vpSQLEnv) any {
		b, ok := e(env).(bool)
		if !ok {
			return nil
		}
		return !b
	}
}

func (p *vpSQLParser) not() vpSQLExpr {
	if p.got("NOT") {
		return vpSQLNot(p.not())
	}
	return p.comparison()
}

func (p *vpSQLParser) comparison() vpSQLExpr {
	l := p.sum()
	switch op := p.peek(); {
	case op == "=" || op == "<>" || op == "!=" || op == "<" || op == ">" || op == "<=" || op == ">=":
		p.take()
		if p.got("ANY", "(") {
			r := p.expr()
			p.want(")")
			return vpSQLAny(op, l, r)
		}
		r := p.sum()
		return func(env vpSQLEnv) any { return vpSQLCompare(op, l(env), r(env)) }
	case p.got("IS", "NOT"):
		return vpSQLNot(p.is(l))
	case p.got("IS"):
		return p.is(l)
	case p.got("NOT", "LIKE"):
		return vpSQLNot(vpSQLLike(l, p.sum()))
	case p.got("LIKE"):
		return vpSQLLike(l, p.sum())
	case p.got("NOT", "IN"):
		return vpSQLNot(p.in(l))
	case p.got("IN"):
		return p.in(l)
	}
	return l
}

func (p *vpSQLParser) is(l vpSQLExpr) vpSQLExpr {
	switch w := strings.ToUpper(p.take()); w {
	case "NULL":
		return func(env vpSQLEnv) any { return l(env) == nil }
	case "TRUE":
		return func(env vpSQLEnv) any { return vpSQLTrue(l(env)) }
	default:
		panic("vp: IS " + w)
	}
}

func (p *vpSQLParser) in(l vpSQLExpr) vpSQLExpr {
	p.want("(")
	var list []vpSQLExpr
	for {
		list = append(list, p.sum())
		if !p.got(",") {
			break
		}
	}
	p.want(")")
	return func(env vpSQLEnv) any {
		v := l(env)
		for _, e := range list {
			if vpSQLTrue(vpSQLCompare("=", v, e(env))) {
				return true
			}
		}
		return false
	}
}

func vpSQLAny(op string, l, r vpSQLExpr) vpSQLExpr {
	return func(env vpSQLEnv) any {
		v := l(env)
		var list []int64
		switch a := r(env).(type) {
		case nil:
			return nil
		case VPVec:
			list = a
		case VPArr:
			list = a
		default:
			panic("vp: ANY of no array")
		}
		for _, x := range list {
			if vpSQLTrue(vpSQLCompare(op, v, x)) {
				return true
			}
		}
		return false
	}
}

func vpSQLCompare(op string, a, b any) any {
	if a == nil || b == nil {
		return nil
	}
	var eq, lt bool
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if s, str := b.(string); str { // an argument
			n, err := strconv.Atoi(s)
			y, ok = int64(n), err == nil
		}
		if !ok {
			panic("vp: a number is compared with something else")
		}
		eq, lt = x == y, x < y
	case string:
		y, ok := b.(string)
		if !ok {
			panic("vp: a text is compared with something else")
		}
		eq, lt = x == y, x < y
	case bool:
		y, ok := b.(bool)
		if !ok {
			panic("vp: a truth value is compared with something else")
		}
		eq, lt = x == y, !x && y
	default:
		panic("vp: values that cannot be compared")
	}
	switch op {
	case "=":
		return eq
	case "<>", "!=":
		return !eq
	case "<":
		return lt
	case ">":
		return !lt && !eq
	case "<=":
		return lt || eq
	}
	return !lt
}

func vpSQLLike(l, r vpSQLExpr) vpSQLExpr {
	return func(env vpSQLEnv) any {
		a, b := l(env), r(env)
		if a == nil || b == nil {
			return nil
		}
		return vpSQLMatch(a.(string), b.(string))
	}
}

func vpSQLMatch(s, pat string) bool {
	if pat == "" {
		return s == ""
	}
	switch c := pat[0]; {
	case c == '%':
		for i := 0; i <= len(s); i++ {
			if vpSQLMatch(s[i:], pat[1:]) {
				return true
			}
		}
		return false
	case c == '_':
		return s != "" && vpSQLMatch(s[1:], pat[1:])
	case c == '\\' && len(pat) > 1:
		return s != "" && s[0] == pat[1] && vpSQLMatch(s[1:], pat[2:])
	default:
		return s != "" && s[0] == c && vpSQLMatch(s[1:], pat[1:])
	}
}

func (p *vpSQLParser) sum() vpSQLExpr {
	l := p.postfix()
	for p.peek() == "+" || p.peek() == "-" {
		op, a, b := p.take(), l, p.postfix()
		l = func(env vpSQLEnv) any {
			x, y := a(env), b(env)
			if x == nil || y == nil {
				return nil
			}
			if op == "+" {
				return x.(int64) + y.(int64)
			}
			return x.(int64) - y.(int64)
		}
	}
	return l
}

func (p *vpSQLParser) postfix() vpSQLExpr {
	l := p.primary()
	for {
		switch {
		case p.got("::"):
			p.take()
			if p.got("[") {
				p.want("]")
			}
		case p.got("["):
			a, from := l, p.sum()
			if p.got(":") {
				to := p.sum()
				p.want("]")
				l = func(env vpSQLEnv) any { return vpSQLSlice(a(env), from(env), to(env)) }
				continue
			}
			p.want("]")
			l = func(env vpSQLEnv) any {
				switch v := a(env).(type) {
				case nil:
					return nil
				case VPVec: // counted from 0
					i := from(env).(int64)
					if i < 0 || i >= int64(len(v)) {
						return nil
					}
					return v[i]
				case VPArr: // counted from 1
					i := from(env).(int64)
					if i < 1 || i > int64(len(v)) {
						return nil
					}
					return v[i-1]
				}
				panic("vp: an element of no array")
			}
		default:
			return l
		}
	}
}

// vpSQLSlice slices vectors, from element 0 on.
func vpSQLSlice(a, from, to any) any {
	if a == nil || from == nil || to == nil {
		return nil
	}
	v, ok := a.(VPVec)
	if !ok {
		panic("vp: a slice of no vector")
	}
	i, j := from.(int64), to.(int64)+1
	if i < 0 {
		i = 0
	}
	if j > int64(len(v)) {
		j = int64(len(v))
	}
	if i >= j {
		return VPVec{}
	}
	return v[i:j]
}

func (p *vpSQLParser) primary() vpSQLExpr {
	t := p.take()
	value := func(v any) vpSQLExpr { return func(vpSQLEnv) any { return v } }
	switch {
	case t == "(":
		e := p.expr()
		p.want(")")
		return e
	case t[0] == '\'':
		return value(strings.ReplaceAll(t[1:len(t)-1], "''", "'"))
	case t[0] == '$':
		n, _ := strconv.Atoi(t[1:])
		return value(p.args[n-1])
	case t[0] >= '0' && t[0] <= '9':
		n, _ := strconv.Atoi(t)
		return value(int64(n))
	case strings.EqualFold(t, "NULL"):
		return value(nil)
	case strings.EqualFold(t, "TRUE"):
		return value(true)
	case strings.EqualFold(t, "FALSE"):
		return value(false)
	case strings.EqualFold(t, "current_user"):
		return value("u")
	case !vpSQLWord(t):
		panic("vp: not understood: " + t)
	}
	alias, name := "", t
	if p.got(".") {
		alias, name = t, p.take()
	}
	if p.got("(") {
		var args []vpSQLExpr
		if !p.got(")") {
			for {
				args = append(args, p.expr())
				if !p.got(",") {
					break
				}
			}
			p.want(")")
		}
		return p.call(strings.ToLower(name), args)
	}
	return func(env vpSQLEnv) any {
		if alias != "" {
			row, ok := env[alias]
			if !ok {
				panic("vp: no table " + alias)
			}
			return vpSQLColumn(row, name)
		}
		for a, row := range env {
			if a == name && len(row) == 1 { // the value of a function
				return vpSQLColumn(row, name)
			}
			if _, ok := row[name]; ok {
				return vpSQLColumn(row, name)
			}
		}
		panic("vp: no column " + name)
	}
}

func vpSQLColumn(row map[string]any, name string) any {
	if row == nil {
		return nil
	}
	v, ok := row[name]
	if !ok {
		panic("vp: no column " + name)
	}
	return v
}

func (p *vpSQLParser) call(name string, args []vpSQLExpr) vpSQLExpr {
	s := p.s
	find := func(table, key, col string) vpSQLExpr {
		return func(env vpSQLEnv) any {
			v := args[0](env)
			for _, row := range s.Tables[table] {
				if vpSQLTrue(vpSQLCompare("=", row[key], v)) {
					return row[col]
				}
			}
			return nil
		}
	}
	switch name {
	case "coalesce":
		return func(env vpSQLEnv) any {
			for _, e := range args {
				if v := e(env); v != nil {
					return v
				}
			}
			return nil
		}
	case "current_database":
		return func(vpSQLEnv) any { return "db" }
	case "to_regclass":
		return func(env vpSQLEnv) any {
			if n := s.Regclass(vpRelName(args[0](env).(string))); n != 0 {
				return n
			}
			return nil
		}
	case "format_type":
		return find("pg_type", "oid", "(format)")
	case "pg_type_is_visible":
		return find("pg_type", "oid", "(visible)")
	case "pg_get_indexdef":
		return find("pg_index", "indexrelid", "(definition)")
	case "pg_get_expr":
		return args[0]
	}
	panic("vp: no function " + name)
}

// vpSQLText is the text of a value.
func vpSQLText(v any) string {
	list := func(l []int64, sep string) string {
		var s []string
		for _, x := range l {
			s = append(s, strconv.Itoa(int(x)))
		}
		return strings.Join(s, sep)
	}
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		if v {
			return "t"
		}
		return "f"
	case VPVec:
		return list(v, " ")
	case VPArr:
		return "{" + list(v, ",") + "}"
	}
	panic("vp: not a value")
}

// ------------------------------------------------------------------ the symbolic run

var (
	vpServing *VPServer
	vpRowsOf  map[*sql.Rows]*vpResult
	vpRowOf   map[*sql.Row]*vpResult
)

// VPServe lets connections to the dsn it gives be answered by the server.
//
//vp:stub github.com/frk/gosql/internal/postgres.VPServe
func vpServeModel(s *VPServer) (dsn string, stop func()) {
	vpServing, vpRowsOf, vpRowOf = s, map[*sql.Rows]*vpResult{}, map[*sql.Row]*vpResult{}
	return "host=up", func() {}
}

func vpSQLArgs(args []any) []any {
	var out []any
	for _, a := range args {
		switch v := a.(type) {
		case oid.OID:
			a = int64(v)
		case int:
			a = int64(v)
		}
		out = append(out, a)
	}
	return out
}

//vp:stub (*database/sql.DB).Query
func vpSQLQuery(db *sql.DB, q string, args ...any) (*sql.Rows, error) {
	r := vpServing.run(q, vpSQLArgs(args))
	if r.err != nil && len(r.rows) == 0 {
		return nil, r.err
	}
	rows := new(sql.Rows)
	vpRowsOf[rows] = r
	return rows, nil
}

//vp:stub (*database/sql.DB).QueryRow
func vpSQLQueryRow(db *sql.DB, q string, args ...any) *sql.Row {
	row := new(sql.Row)
	vpRowOf[row] = vpServing.run(q, vpSQLArgs(args))
	return row
}

//vp:stub (*database/sql.Rows).Next
func vpSQLNext(rows *sql.Rows) bool {
	r := vpRowsOf[rows]
	r.at++
	return r.at <= len(r.rows)
}

//vp:stub (*database/sql.Rows).Err
func vpSQLErr(rows *sql.Rows) error {
	if r := vpRowsOf[rows]; r.at > len(r.rows) {
		return r.err
	}
	return nil
}

//vp:stub (*database/sql.Rows).Close
func vpSQLClose(rows *sql.Rows) error { return nil }

//vp:stub (*database/sql.Rows).Scan
func vpSQLScan(rows *sql.Rows, dest ...any) error {
	r := vpRowsOf[rows]
	return vpSQLAssign(r.rows[r.at-1], dest)
}

//vp:stub (*database/sql.Row).Scan
func vpSQLRowScan(row *sql.Row, dest ...any) error {
	r := vpRowOf[row]
	if r.err != nil {
		return r.err
	}
	if len(r.rows) == 0 {
		return sql.ErrNoRows
	}
	return vpSQLAssign(r.rows[0], dest)
}

func vpSQLAssign(row []any, dest []any) error {
	if len(row) != len(dest) {
		return errors.New("another number of columns")
	}
	for i, d := range dest {
		v := row[i]
		if s, ok := d.(sql.Scanner); ok {
			var src any
			if v != nil {
				src = []byte(vpSQLText(v))
			}
			if err := s.Scan(src); err != nil {
				return err
			}
			continue
		}
		if v == nil {
			return errors.New("NULL")
		}
		num := func() int64 {
			switch v := v.(type) {
			case int64:
				return v
			case string:
				n, err := strconv.ParseInt(v, 10, 64)
				if err == nil {
					return n
				}
			}
			panic("vp: no number is scanned into one")
		}
		switch d := d.(type) {
		case *string:
			*d = vpSQLText(v)
		case *TypeType:
			*d = TypeType(vpSQLText(v))
		case *TypeCategory:
			*d = TypeCategory(vpSQLText(v))
		case *RelKind:
			*d = RelKind(vpSQLText(v))
		case *ConstraintType:
			*d = ConstraintType(vpSQLText(v))
		case *CastContext:
			*d = CastContext(vpSQLText(v))
		case *bool:
			*d = v.(bool)
		case *int:
			*d = int(num())
		case *int16:
			*d = int16(num())
		case *int64:
			*d = num()
		case *oid.OID:
			*d = oid.OID(num())
		default:
			panic("vp: scanned into something else")
		}
	}
	return nil
}

// ------------------------------------------------------------------ the native run

var vpServed int

func VPServe(s *VPServer) (dsn string, stop func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				vpWire(c, s)
			}()
		}
	}()
	port := l.Addr().(*net.TCPAddr).Port
	vpServed++ // the catalog is cached by the dsn
	return "host=127.0.0.1 user=u dbname=db sslmode=disable application_name=vp" + strconv.Itoa(vpServed) + " port=" + strconv.Itoa(port), func() { l.Close() }
}

// vpSQLLast lists the last words of the expressions in the select list.
func vpSQLLast(q string) (last []string) {
	depth, prev := 0, ""
	for _, t := range vpSQLTokens(q) {
		switch {
		case t == "(" || t == "[":
			depth++
		case t == ")" || t == "]":
			depth--
		case depth == 0 && t == ",":
			last = append(last, prev)
		case depth == 0 && strings.EqualFold(t, "FROM"):
			return append(last, prev)
		}
		prev = t
	}
	return append(last, prev)
}

// vpWire speaks the protocol of PostgreSQL.
func vpWire(c net.Conn, s *VPServer) {
	i32 := func(n int) string { return string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}) }
	i16 := func(n int) string { return string([]byte{byte(n >> 8), byte(n)}) }
	send := func(k byte, body string) { io.WriteString(c, string([]byte{k})+i32(len(body)+4)+body) }
	read := func(head int) (k byte, body []byte, ok bool) {
		h := make([]byte, head+4)
		if _, err := io.ReadFull(c, h); err != nil {
			return 0, nil, false
		}
		n := int(h[head])<<24 | int(h[head+1])<<16 | int(h[head+2])<<8 | int(h[head+3])
		body = make([]byte, n-4)
		if _, err := io.ReadFull(c, body); err != nil {
			return 0, nil, false
		}
		return h[0], body, true
	}
	cstr := func(b []byte) string { return string(b[:strings.IndexByte(string(b), 0)]) }
	describe := func(q string) {
		last := vpSQLLast(q)
		body := i16(len(last))
		for _, name := range last {
			typ := 25
			switch name {
			case "indkey":
				typ = 22
			case "conkey", "confkey":
				typ = 1005
			}
			body += "c\x00" + i32(0) + i16(0) + i32(typ) + i16(-1) + i32(-1) + i16(0)
		}
		send('T', body)
	}
	data := func(r *vpResult) {
		for _, row := range r.rows {
			body := i16(len(row))
			for _, v := range row {
				if v == nil {
					body += i32(-1)
					continue
				}
				t := vpSQLText(v)
				body += i32(len(t)) + t
			}
			send('D', body)
		}
		if r.err != nil {
			send('E', "SERROR\x00CXX000\x00Mserver error\x00\x00")
			return
		}
		send('C', "SELECT\x00")
	}
	if _, _, ok := read(0); !ok {
		return
	}
	send('R', i32(0))
	send('Z', "I")
	query, res := "", new(vpResult)
	for {
		k, body, ok := read(1)
		if !ok {
			return
		}
		switch k {
		case 'X':
			return
		case 'Q':
			q := cstr(body)
			if strings.Trim(q, "; \n\t") == "" {
				send('I', "")
			} else {
				r := s.run(q, nil)
				if r.err == nil || len(r.rows) > 0 {
					describe(q)
				}
				data(r)
			}
			send('Z', "I")
		case 'P':
			body = body[len(cstr(body))+1:]
			query = cstr(body)
			send('1', "")
		case 'D':
			// the result is not known before the arguments are
			n := strings.Count(query, "$")
			send('t', i16(n)+strings.Repeat(i32(25), n))
			describe(query)
		case 'B':
			b := body[len(cstr(body))+1:]
			b = b[len(cstr(b))+1:]
			num16 := func() int { n := int(b[0])<<8 | int(b[1]); b = b[2:]; return n }
			for n := num16(); n > 0; n-- {
				num16()
			}
			var args []any
			for n := num16(); n > 0; n-- {
				l := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
				args = append(args, string(b[4:4+l]))
				b = b[4+l:]
			}
			res = s.run(query, args)
			send('2', "")
		case 'E':
			data(res)
		case 'C':
			send('3', "")
		case 'S':
			send('Z', "I")
		}
	}
}

// vpRelName is the name that an identifier, possibly qualified and quoted, stands for: PostgreSQL
// folds what is not quoted to lower case.
func vpRelName(s string) string {
	out, quoted := []byte{}, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			quoted = !quoted
			continue
		}
		if !quoted && c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		out = append(out, c)
	}
	return string(out)
}
