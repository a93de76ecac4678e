package filter

import (
	"database/sql/driver"
	"strconv"
)

// vpRef is the reference for the WHERE clause: pieces of SQL with the parameters between them.
type vpRef struct {
	levels []vpLevel
	params []any
}

type vpLevel struct {
	pieces  []string // a placeholder follows every piece but the last
	n       int      // predicates and groups so far
	pending string
}

func vpNewRef() *vpRef { return &vpRef{levels: []vpLevel{{pieces: []string{""}}}} }

func (r *vpRef) top() *vpLevel { return &r.levels[len(r.levels)-1] }

func (l *vpLevel) join(pieces []string) {
	l.pieces[len(l.pieces)-1] += pieces[0]
	l.pieces = append(l.pieces, pieces[1:]...)
}

func (r *vpRef) operand(conn string, pieces []string, params ...any) {
	l := r.top()
	if l.n > 0 {
		if l.pending != "" {
			conn = l.pending
		}
		l.join([]string{" " + conn + " "})
	}
	l.join(pieces)
	l.n++
	l.pending = ""
	r.params = append(r.params, params...)
}

func (r *vpRef) connective(op string) {
	if l := r.top(); l.n > 0 && l.pending == "" {
		l.pending = op
	}
}

func (r *vpRef) open() { r.levels = append(r.levels, vpLevel{pieces: []string{""}}) }

func (r *vpRef) close(op string) {
	l := *r.top()
	r.levels = r.levels[:len(r.levels)-1]
	if l.n == 0 {
		return // an empty group says nothing
	}
	l.pieces[0] = "(" + l.pieces[0]
	l.pieces[len(l.pieces)-1] += ")"
	r.operand(op, l.pieces)
}

// sql renders the clause with placeholders after pos.
func (r *vpRef) sql(pos int) string {
	l := r.levels[0]
	if l.n == 0 {
		return ""
	}
	out := " WHERE " + l.pieces[0]
	for i, p := range l.pieces[1:] {
		out += "$" + strconv.Itoa(pos+i+1) + p
	}
	return out
}

// vpArr is a parameter which is a valuer producing the given text.
type vpArr struct{ text string }

func vpParamIs(got, want any) bool {
	a, ok := want.(vpArr)
	if !ok {
		return got == want
	}
	v, ok := got.(driver.Valuer)
	if !ok {
		return false
	}
	x, err := v.Value()
	b, ok := x.([]byte)
	return err == nil && ok && string(b) == a.text
}

// vpCheck compares what the filter renders at position pos with the reference; tail is the rest of the text.
func vpCheck(c *Constructor, r *vpRef, pos int, tail string) {
	sql, params := c.Filter().ToSQL(pos)
	vpObs("sql", sql)
	vpReach("rendered")
	vpAssert(sql == r.sql(pos)+tail, "the text is the requested condition with consecutive placeholders")
	vpAssert(len(params) == len(r.params), "there is one parameter for each placeholder")
	if len(params) == len(r.params) {
		for i := range params {
			vpAssert(vpParamIs(params[i], r.params[i]), "each parameter is the value of its placeholder's condition")
		}
	}
}

// vpValue is an arbitrary value of a few kinds.
func vpValue(kinds int) any {
	switch vpChoose(kinds) {
	case 0:
		return vpInt()
	case 1:
		return vpString(2)
	case 2:
		return nil
	case 3:
		return true
	case 4:
		return false
	case 5:
		return vpI64()
	}
	return 1.5
}

// vpCol adds a predicate for a column to both the filter and the reference.
func vpCol(c *Constructor, r *vpRef, col, op string, v any) {
	c.Col(col, op, v)
	if op == "=" || op == "<>" {
		is := " IS "
		if op == "<>" {
			is = " IS NOT "
		}
		switch v {
		case nil:
			r.operand("AND", []string{col + is + "NULL"})
			return
		case true:
			r.operand("AND", []string{col + is + "TRUE"})
			return
		case false:
			r.operand("AND", []string{col + is + "FALSE"})
			return
		}
	}
	r.operand("AND", []string{col + " " + op + " ", ""}, v)
}

func vpIn[T any](c *Constructor, r *vpRef, col string, vals []T, op string) {
	c.Col(col, op, vals)
	if len(vals) == 0 {
		r.operand("AND", []string{"FALSE"})
		return
	}
	pieces := []string{col + " IN ("}
	var params []any
	for _, v := range vals {
		pieces = append(pieces, ",")
		params = append(params, v)
	}
	pieces[len(pieces)-1] = ")"
	r.operand("AND", pieces, params...)
}
