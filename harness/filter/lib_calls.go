package filter

import "strconv"

// vpAnyCall makes one arbitrary call with arbitrary values.
func vpAnyCall(c *Constructor, r *vpRef, nest bool) {
	kinds := 9
	if nest {
		kinds = 11
	}
	switch k := vpChoose(kinds); k {
	case 0:
		vpCol(c, r, "a", "=", vpInt())
	case 1:
		vpCol(c, r, "b", "<>", vpString(2))
	case 2:
		vpCol(c, r, "c", "=", nil)
	case 3:
		c.Or(nil)
		r.connective("OR")
	case 4:
		vals := make([]int64, vpChoose(3))
		for i := range vals {
			vals[i] = vpI64()
		}
		vpIn(c, r, "d", vals, "in")
	case 5:
		vals := make([]string, vpChoose(3))
		for i := range vals {
			vals[i] = vpString(1)
		}
		vpIn(c, r, "e", vals, "IN")
	case 6:
		d := vpByte()
		vpAssume(d < 10)
		c.Col("f", "any", []int{int(d), 41})
		r.operand("AND", []string{"f = ANY(", "::int4[])"}, vpArr{"{" + strconv.Itoa(int(d)) + ",41}"})
	case 7:
		if vpBool() {
			c.Col("g", "ANY", []string{})
			r.operand("AND", []string{"g = ANY(", "::text[])"}, vpArr{`{}`})
			break
		}
		c.Col("g", "ANY", []string{"x", "y"})
		r.operand("AND", []string{"g = ANY(", "::text[])"}, vpArr{`{"x","y"}`})
	case 8:
		s := []string{" ", vpTerm(2)}[vpChoose(2)]
		c.TextSearch(s)
		if len(s) > 1 {
			s += ":*"
		} else {
			s = ""
		}
		r.operand("AND", []string{"ts @@ to_tsquery('simple', ", ")"}, s)
	default:
		f := func() {
			r.open()
			vpAnyCall(c, r, false)
			vpAnyCall(c, r, false)
		}
		if k == 9 {
			c.And(f)
			r.close("AND")
		} else {
			c.Or(f)
			r.close("OR")
		}
	}
}

// vpTerm is an arbitrary search term of n letters.
func vpTerm(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByte()
		vpAssume(b[i] >= 'a')
		vpAssume(b[i] <= 'z')
	}
	return string(b)
}
