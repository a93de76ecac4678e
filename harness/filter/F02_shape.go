package filter

// vpShape makes one arbitrary call, nesting up to depth, keeping the reference in step.
func vpShape(c *Constructor, r *vpRef, depth, inner int) {
	kinds := 6
	if depth > 0 {
		kinds = 8
	}
	switch k := vpChoose(kinds); k {
	case 0:
		vpCol(c, r, "a", "=", int64(7))
	case 1:
		c.And(nil)
		r.connective("AND")
	case 2:
		c.Or(nil)
		r.connective("OR")
	case 3:
		vpCol(c, r, "b", ">", nil)
	case 4:
		c.TextSearch("x")
		r.operand("AND", []string{"ts @@ to_tsquery('simple', ", ")"}, "x:*")
	case 5:
		vpIn(c, r, "d", []int{}, "IN")
	default:
		n := vpChoose(inner + 1)
		f := func() {
			r.open()
			for i := 0; i < n; i++ {
				vpShape(c, r, depth-1, inner)
			}
		}
		if k == 6 {
			c.And(f)
			r.close("AND")
		} else {
			c.Or(f)
			r.close("OR")
		}
	}
}

// VP_F02_Flat: every history of calls without nesting.
func VP_F02_Flat() {
	c, r := &Constructor{}, vpNewRef()
	c.Init(nil, "ts")
	n := vpChoose(vpBound("calls", 5, 7) + 1)
	for i := 0; i < n; i++ {
		vpShape(c, r, 0, 0)
	}
	vpCheck(c, r, 0, "")
}

// VP_F02_Nested: histories with groups, empty ones and ones with dangling connectives included.
func VP_F02_Nested() {
	c, r := &Constructor{}, vpNewRef()
	c.Init(nil, "ts")
	for i := 0; i < 3; i++ {
		vpShape(c, r, vpBool2(i == 1), 2)
	}
	vpCheck(c, r, 0, "")
}

func vpBool2(b bool) int {
	if b {
		return vpBound("nesting", 1, 2)
	}
	return 0
}

// VP_F02_Deep: groups within groups.
func VP_F02_Deep() {
	c, r := &Constructor{}, vpNewRef()
	c.Init(nil, "ts")
	for i := 0; i < 2; i++ {
		vpShape(c, r, 3, 1)
	}
	vpCheck(c, r, 0, "")
}

// VP_F02_Ops: every listed operator with every kind of value, alone and after another predicate.
func VP_F02_Ops() {
	c, r := &Constructor{}, vpNewRef()
	c.Init(nil, "ts")
	if vpBool() {
		vpCol(c, r, "a", "<", 3)
	}
	op := []string{"=", "<>", "<", ">", "<=", ">=", "LIKE", "~", "@>", "IS DISTINCT FROM"}[vpChoose(10)]
	vpCol(c, r, "b", op, vpValue(7))
	vpCol(c, r, "c", "=", 5)
	vpCheck(c, r, 0, "")
}
