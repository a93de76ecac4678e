package filter

// vpSortRef is the reference: items between commas, a leading hyphen, a lookup.
func vpSortRef(keys []string, descs []bool, strict bool) (string, string) {
	out := ""
	for i, k := range keys {
		col, null := "", false
		switch k {
		case "a":
			col = "col_a"
		case "b":
			col, null = "t.col_b", true
		case "u.s":
			col = "sub.col_us"
		case "c":
			col = "col_c"
		case "e":
			col = "col_e"
		default:
			if k != "" && strict {
				return out, k
			}
			continue
		}
		if out != "" {
			out += ", "
		}
		out += col
		if descs[i] {
			out += " DESC"
		} else {
			out += " ASC"
		}
		if null {
			out += " NULLS LAST"
		}
	}
	return out, ""
}

func vpCheckSort(c *Constructor, str string, strict bool) {
	var keys []string
	var descs []bool
	key, desc, fresh := "", false, true
	for i := 0; i <= len(str); i++ {
		if i == len(str) || str[i] == ',' {
			keys, descs = append(keys, key), append(descs, desc)
			key, desc, fresh = "", false, true
			continue
		}
		if fresh && str[i] == '-' {
			desc = true
		} else {
			key += str[i : i+1]
		}
		fresh = false
	}
	want, bad := vpSortRef(keys, descs, strict)
	err := c.UnmarshalSort(str)
	vpReach("sorted")
	if bad != "" {
		e, ok := err.(UnknownColumnKeyError)
		vpAssert(ok, "an unknown key is reported in strict mode")
		vpAssert(e.Key == bad, "the reported key is the unknown one")
		return
	}
	vpAssert(err == nil, "a sort string of known keys is accepted")
	if want != "" {
		want = " ORDER BY " + want
	}
	sql, params := c.Filter().ToSQL(0)
	vpObs("sql", sql)
	vpAssert(sql == want, "the order is exactly the known keys' columns with their directions")
	vpAssert(len(params) == 0, "sorting has no parameters")
}

// VP_F04_Bytes: every short string.
func VP_F04_Bytes() {
	strict := vpBool()
	c := vpNewFQL(strict)
	vpCheckSort(c, vpString(vpChoose(vpBound("bytes", 4, 6)+1)), strict)
}

// VP_F04_Items: every short list of items.
func VP_F04_Items() {
	strict := vpBool()
	c := vpNewFQL(strict)
	items := []string{"a", "b", "-a", "-b", "u.s", "-c", "", "-", "x", "--a", "-u.s", "e"}
	str := ""
	n := 1 + vpChoose(vpBound("items", 3, 4))
	for i := 0; i < n; i++ {
		if i > 0 {
			str += ","
		}
		str += items[vpChoose(len(items))]
	}
	vpObs("sort", str)
	vpCheckSort(c, str, strict)
}

// VP_F04_Calls: OrderBy and OrderByV2 with every combination of options, together with a sort string.
func VP_F04_Calls() {
	c := vpNewFQL(false)
	want := ""
	n := 1 + vpChoose(vpBound("calls", 3, 4))
	for i := 0; i < n; i++ {
		if i > 0 {
			want += ", "
		}
		desc, nullable, first := vpBool(), vpBool(), vpBool()
		col := string(rune('p' + i))
		dir := " ASC"
		if desc {
			dir = " DESC"
		}
		nulls := " NULLS LAST"
		if first {
			nulls = " NULLS FIRST"
		}
		switch vpChoose(3) {
		case 0:
			c.OrderBy(col, desc, first)
			want += col + dir + nulls
		case 1:
			c.OrderByV2(col, desc, nullable, first)
			want += col + dir
			if nullable {
				want += nulls
			}
		default:
			if desc {
				vpAssert(c.UnmarshalSort("-b") == nil, "a sort string of known keys is accepted")
			} else {
				vpAssert(c.UnmarshalSort("b") == nil, "a sort string of known keys is accepted")
			}
			want += "t.col_b" + dir + " NULLS LAST"
		}
	}
	sql, _ := c.Filter().ToSQL(0)
	vpReach("ordered")
	vpAssert(sql == " ORDER BY "+want, "the order lists every call's column with its options, in the order of the calls")
}
