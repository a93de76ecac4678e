package postgres

// vpText is a piece of symbolic text of up to n bytes.
func vpChars(n int, ok func(c byte) bool) string {
	b := make([]byte, vpChoose(n+1))
	for i := range b {
		b[i] = vpByte()
		vpAssume(ok(b[i]))
	}
	return string(b)
}

// vpQuoted is text between two quotes, with the quotes inside doubled.
func vpQuoted(q byte, n int) string {
	out := []byte{q}
	for i, n := 0, vpChoose(n+1); i < n; i++ {
		c := vpByte()
		vpAssume(vpAnd(c != 0, c < 0x80))
		if c == q {
			out = append(out, q)
		}
		out = append(out, c)
	}
	return string(append(out, q))
}

// vpName is an identifier as PostgreSQL prints it.
func vpName(n int) string {
	if vpBool() {
		return vpQuoted('"', n)
	}
	return "t" + vpChars(1, func(c byte) bool { return vpAnd(c >= 'a', c <= 'z') })
}

// vpExpr is an index expression: plain text, quoted text and nested parentheses.
func vpExpr(items, depth, n int) string {
	out := ""
	for i, k := 0, vpChoose(items+1); i < k; i++ {
		switch vpChoose(4) {
		case 0:
			c := vpByte()
			vpAssume(vpAnd(vpAnd(c != '(', c != ')'), vpAnd(c != '"', c != '\'')))
			vpAssume(vpAnd(c >= 0x20, c < 0x7f))
			out += string([]byte{c})
		case 1:
			out += vpQuoted('\'', n)
		case 2:
			out += vpQuoted('"', n)
		case 3:
			if depth == 0 {
				out += " USING "
			} else {
				out += "(" + vpExpr(items-1, depth-1, n) + ")"
			}
		}
	}
	return out
}

func vpDefinition(name, rel, expr, tail string) {
	def := "CREATE UNIQUE INDEX " + name + " ON " + rel + " USING btree (" + expr + ")" + tail
	got := parseIndexExpr(def)
	vpObs("definition", def)
	vpObs("expression", got)
	vpAssert(got == expr, "the index expression differs from the text between the parentheses")
	vpReach("extracted")
}

// The expression is varied, the names are simple.
func VP_T03_Expression() {
	n := vpBound("quoted bytes", 2, 4)
	items := vpBound("items", 2, 2)
	expr := vpExpr(items, vpBound("nesting", 1, 2), n)
	tail := []string{"", " INCLUDE (b)", " WHERE (b > 0)", " WHERE (b = ')'::text)", " WITH (fillfactor='70') TABLESPACE x"}[vpChoose(5)]
	vpDefinition("i", "public.t", expr, tail)
}

// The names are varied: anything PostgreSQL accepts as an identifier.
func VP_T03_Names() {
	n := vpBound("name bytes", 3, 5)
	rel := "public." + vpName(n)
	if vpBool() {
		rel = vpQuoted('"', 1) + "." + vpName(n)
	}
	if vpBool() {
		rel = "ONLY " + rel
	}
	vpDefinition(vpName(n), rel, "a, "+vpName(1), "")
}

// Names that look like the part of the definition that follows them.
func VP_T03_Misleading() {
	parts := []string{" USING x (", " using ", "(", ")", "''", "'", ".", "\"\"", " USING btree (a)"}
	pick := func() string {
		out := "\""
		for i, k := 0, vpChoose(3); i < k; i++ {
			out += parts[vpChoose(len(parts))]
		}
		return out + "\""
	}
	if vpBool() {
		vpDefinition(pick(), "public."+pick(), "a DESC", " WHERE (b > 0)")
		return
	}
	vpDefinition("i", "public.t", pick()+" DESC", " WHERE ("+pick()+" > 0)")
}

// Anything else (no such definition is ever reported) does not end the program.
func VP_T03_Any() {
	b := vpBytes(vpBound("bytes", 6, 8))
	s := string(b)
	vpAssert(!vpPanics(func() { parseIndexExpr(s) }), "extraction panics")
	vpReach("any")
}

// The parentheses of an expression nest in any way.
func VP_T03_Nested() {
	n := vpBound("parentheses and texts", 8, 11)
	expr, depth := "", 0
	c := vpByte()
	vpAssume(vpAnd(vpAnd(c != '(', c != ')'), vpAnd(c != '"', c != '\'')))
	vpAssume(vpAnd(c >= 0x20, c < 0x7f))
	for i, k := 0, vpChoose(n+1); i < k; i++ {
		switch x := vpChoose(3); {
		case x == 0:
			expr += "("
			depth++
		case x == 1 && depth > 0:
			expr += ")"
			depth--
		default:
			expr += string([]byte{c}) + "''"
		}
	}
	for ; depth > 0; depth-- {
		expr += ")"
	}
	vpDefinition("i", "public.t", expr, " WHERE (b > 0)")
}
