package filter

import "strconv"

func vpWindowText(limit, offset int64) string {
	out := ""
	if limit > 0 {
		out += " LIMIT " + strconv.FormatInt(limit, 10)
	}
	if offset > 0 {
		out += " OFFSET " + strconv.FormatInt(offset, 10)
	}
	return out
}

// VP_F05_Limit: arbitrary limit and offset in either order, set twice.
func VP_F05_Limit() {
	c := &Constructor{}
	var limit, offset int64
	for i := 0; i < 3; i++ {
		v := vpI64()
		if vpBool() {
			c.Limit(v)
			if v > 0 {
				limit = v
			}
		} else {
			c.Offset(v)
			if v > 0 {
				offset = v
			}
		}
	}
	sql, params := c.Filter().ToSQL(0)
	vpReach("rendered")
	vpAssert(sql == vpWindowText(limit, offset), "limit and offset are the last positive values set")
	vpAssert(len(params) == 0, "the window has no parameters")
}

// VP_F05_Page: every page of every limit whose product fits.
func VP_F05_Page() {
	c := &Constructor{}
	k := []int64{1, 10, 25, 1000, 8192}[vpChoose(5)]
	c.Limit(k)
	n := vpI64()
	vpAssume(n <= (1<<63-1)/k)
	before := int64(3)
	c.Offset(before)
	c.Page(n)
	want := before
	if n > 0 {
		want = k * (n - 1)
	}
	sql, _ := c.Filter().ToSQL(0)
	vpReach("rendered")
	vpAssert(sql == vpWindowText(k, want), "page n of limit k starts at row k*(n-1)")
}

// VP_F05_Count: the counting variant has the same condition and parameters and nothing else; every clause is in its place.
func VP_F05_Count() {
	c, r := vpNewFQL(false), vpNewRef()
	order := ""
	var limit, offset int64
	for i := 0; i < 4; i++ {
		switch vpChoose(6) {
		case 0:
			vpAnyCall(c, r, false)
		case 1:
			desc := vpBool()
			c.OrderBy("o", desc, false)
			if order == "" {
				order = " ORDER BY o"
			} else {
				order += ", o"
			}
			if desc {
				order += " DESC NULLS LAST"
			} else {
				order += " ASC NULLS LAST"
			}
		case 2:
			limit = 5
			c.Limit(limit)
		case 3:
			offset = 7
			c.Offset(offset)
		case 4:
			offset = limit * 2
			c.Page(3)
		default:
			vpCol(c, r, "q", "<", vpInt())
		}
	}
	tail := order + vpWindowText(limit, offset)
	vpCheck(c, r, 2, tail)
	sql, params := c.CountFilter().ToSQL(2)
	vpAssert(sql == r.sql(2), "the counting variant has the same condition and nothing else")
	vpAssert(len(params) == len(r.params), "the counting variant has the same parameters")
	if len(params) == len(r.params) {
		for i := range params {
			vpAssert(vpParamIs(params[i], r.params[i]), "the counting variant has the same parameters")
		}
	}
	vpCheck(c, r, 2, tail)
}
