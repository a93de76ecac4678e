package filter

// VP_F06_Terms: every short list of terms with every small amount of space around them.
func VP_F06_Terms() {
	c := &Constructor{}
	c.Init(nil, "ts")
	str, want := "", ""
	space := func(min int) {
		for n := min + vpChoose(3); n > 0; n-- {
			str += " "
		}
	}
	space(0)
	n := vpChoose(vpBound("terms", 3, 5) + 1)
	for i := 0; i < n; i++ {
		b := make([]byte, 1+vpChoose(2))
		for j := range b {
			b[j] = vpByte()
			vpAssume(b[j] > ' ')
			vpAssume(b[j] < 0x7f)
		}
		if i > 0 {
			space(1)
			want += " & "
		}
		str += string(b)
		want += string(b) + ":*"
	}
	space(0)
	c.TextSearch(str)
	sql, params := c.Filter().ToSQL(0)
	vpReach("rendered")
	vpAssert(sql == " WHERE ts @@ to_tsquery('simple', $1)", "the search text only travels as a parameter")
	vpAssert(len(params) == 1, "the search has one parameter")
	if len(params) == 1 {
		vpAssert(params[0] == any(want), "every term is searched for as a prefix, in order")
	}
}

// VP_F06_None: without a text-search column there's no condition.
func VP_F06_None() {
	c := &Constructor{}
	c.Init(nil, "")
	c.TextSearch(vpString(2))
	sql, params := c.Filter().ToSQL(0)
	vpReach("rendered")
	vpAssert(sql == "", "without a text-search column there is no condition")
	vpAssert(len(params) == 0, "without a text-search column there are no parameters")
}

// VP_F06_Long: terms in any script, long terms and many of them, some of them equal.
func VP_F06_Long() {
	c := &Constructor{}
	c.Init(nil, "ts")
	b := vpByte()
	vpAssume(vpAnd(b >= 0x80, b <= 0xbf))
	terms := []string{"x" + string([]byte{0xc3, b}) + "y", "日本語", "x", "x", "supercalifragilisticexpialidocious"}
	n := 1 + vpChoose(len(terms))
	if vpBool() {
		n += 40
	}
	str, want := "", ""
	for i := 0; i < n; i++ {
		t := terms[i%len(terms)]
		if i > 0 {
			str += " "
			want += " & "
		}
		str += t
		want += t + ":*"
	}
	c.TextSearch(str)
	sql, params := c.Filter().ToSQL(0)
	vpReach("rendered")
	vpAssert(sql == " WHERE ts @@ to_tsquery('simple', $1)", "the search text only travels as a parameter")
	vpAssert(len(params) == 1, "the search has one parameter")
	vpAssert(params[0] == any(want), "every term is searched for as a prefix, in order")
}
