package filter

import "strconv"

// VP_F01_History: every history of calls; rendered at two positions, and again.
func VP_F01_History() {
	c, r := &Constructor{}, vpNewRef()
	c.Init(nil, "ts")
	n := 1 + vpChoose(vpBound("calls", 3, 4))
	for i := 0; i < n; i++ {
		vpAnyCall(c, r, i == n-1)
	}
	vpCheck(c, r, 0, "")
	vpCheck(c, r, []int{0, 8, 98}[vpChoose(3)], "")
	vpCheck(c, r, 0, "")
}

// VP_F01_Grow: rendering between calls doesn't disturb the filter, and a rendered text doesn't change.
func VP_F01_Grow() {
	c, r := &Constructor{}, vpNewRef()
	c.Init(nil, "ts")
	c.And(func() { r.open(); vpAnyCall(c, r, false) })
	r.close("AND")
	first, p1 := c.Filter().ToSQL(3)
	want := r.sql(3)
	n := len(r.params)
	vpAnyCall(c, r, false)
	vpCheck(c, r, 3, "")
	vpAssert(first == want, "the text rendered before further calls is the condition up to them")
	vpAssert(len(p1) == n, "the parameters rendered before further calls are those up to them")
}

// VP_F01_Arrays: every type of list with every list operator.
func VP_F01_Arrays() {
	c, r := &Constructor{}, vpNewRef()
	c.Init(nil, "ts")
	vpCol(c, r, "z", "=", 1)
	d := vpByte()
	vpAssume(d < 10)
	t := "{" + strconv.Itoa(int(d)) + ",2}"
	op := []string{"any", "ANY", "Any"}[vpChoose(3)]
	in := []string{"in", "IN", "In"}[vpChoose(3)]
	switch vpChoose(7) {
	case 0:
		c.Col("a", op, []int64{int64(d), 2})
		r.operand("AND", []string{"a = ANY(", "::int8[])"}, vpArr{t})
	case 1:
		c.Col("a", op, []int{int(d), 2})
		r.operand("AND", []string{"a = ANY(", "::int4[])"}, vpArr{t})
	case 2:
		c.Col("a", op, []int16{int16(d), 2})
		r.operand("AND", []string{"a = ANY(", "::int2[])"}, vpArr{t})
	case 3:
		vpIn(c, r, "a", []int64{vpI64(), vpI64(), vpI64()}, in)
	case 4:
		vpIn(c, r, "a", []int{vpInt(), vpInt(), vpInt()}, in)
	case 5:
		vpIn(c, r, "a", []int16{vpI16(), vpI16(), vpI16()}, in)
	case 6:
		vpIn(c, r, "a", []string{vpString(1), vpString(2)}, in)
	}
	vpCol(c, r, "y", ">", 9)
	vpCheck(c, r, 0, "")
}

// VP_F01_Many: lists and filters of many values, two of which are any.
func VP_F01_Many() {
	c, r := &Constructor{}, vpNewRef()
	c.Init(nil, "ts")
	n := []int{16, 33, 101, 257, 1001}[vpChoose(vpBound("sizes of lists", 4, 5))]
	if vpBool() {
		vals := make([]int64, n)
		for i := range vals {
			vals[i] = int64(i / 2) // some of them equal
		}
		vals[0], vals[n-1] = vpI64(), vpI64()
		vpIn(c, r, "a", vals, "IN")
	} else {
		if n > 101 {
			n = 101
		}
		for i := 0; i < n; i++ {
			vpCol(c, r, "a", "=", i)
		}
	}
	vpCol(c, r, "y", ">", vpInt())
	vpCheck(c, r, []int{0, 7, 995}[vpChoose(3)], "")
}
