package filter

import (
	"strings"
	"time"
)

// vpGrammar checks a condition: predicates on known columns with consecutive placeholders, connectives and balanced parentheses.
type vpGrammar struct {
	s      string
	params int
}

func (g *vpGrammar) eat(p string) bool {
	if strings.HasPrefix(g.s, p) {
		g.s = g.s[len(p):]
		return true
	}
	return false
}

func (g *vpGrammar) cond() bool {
	for {
		if g.eat("(") {
			if !g.cond() || !g.eat(")") {
				return false
			}
		} else if !g.pred() {
			return false
		}
		if !g.eat(" AND ") && !g.eat(" OR ") {
			return true
		}
	}
}

func (g *vpGrammar) pred() bool {
	if !g.eat("col_a ") && !g.eat("t.col_b ") && !g.eat("col_c ") && !g.eat("sub.col_us ") {
		return false
	}
	for _, is := range []string{"IS NULL", "IS NOT NULL", "IS TRUE", "IS NOT TRUE", "IS FALSE", "IS NOT FALSE"} {
		if g.eat(is) {
			return true
		}
	}
	if !g.eat("= ") && !g.eat("<> ") && !g.eat(">= ") && !g.eat("<= ") && !g.eat("> ") && !g.eat("< ") {
		return false
	}
	g.params++
	return g.eat("$" + string(rune('0'+g.params)))
}

func vpHarmless(c *Constructor) {
	sql, params := c.Filter().ToSQL(0)
	vpObs("sql", sql)
	vpReach("rendered")
	if sql == "" {
		vpAssert(len(params) == 0, "no text means no parameters")
		return
	}
	g := &vpGrammar{s: sql}
	ok := g.eat(" WHERE ") && g.cond() && g.s == ""
	vpAssert(ok, "the text consists of known columns, fixed operators and placeholders and is well formed")
	vpAssert(g.params == len(params), "there is one parameter for each placeholder")
}

// VP_F03_Bytes: every short ASCII string.
func VP_F03_Bytes() {
	c := vpNewFQL(vpBool())
	n := vpChoose(vpBound("bytes", 4, 5) + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByte()
		vpAssume(b[i] < 0x80)
		vpAssume(b[i] != '.') // fractions are within VP_F03_Rule
	}
	_ = c.UnmarshalFQL(string(b))
	vpHarmless(c)
}

// VP_F03_Tokens: every short sequence of the language's tokens, spaces included, well formed or not.
func VP_F03_Tokens() {
	toks := []string{"(", ")", ";", ",", "a:1", "x:2", " "}
	str := ""
	c := vpNewFQL(false)
	for n := vpChoose(vpBound("tokens", 5, 7) + 1); n > 0; n-- {
		str += toks[vpChoose(len(toks))]
	}
	vpObs("fql", str)
	err := c.UnmarshalFQL(str)
	vpHarmless(c)
	c.Col("col_c", "=", 1)
	vpHarmless(c)
	if err != nil {
		_, params := c.Filter().ToSQL(0)
		vpAssert(len(params) == 1, "a rejected string leaves no condition behind")
	}
}

// vpRule writes an arbitrary rule and tells the reference; it reports whether the rule must be rejected.
func vpRule(r *vpRef, strict bool) (string, error) {
	key := []string{"a", "b", "u.s", "c", "zz", "e"}[vpChoose(6)]
	return vpRuleOf(r, key, strict)
}

func vpRuleOf(r *vpRef, key string, strict bool) (string, error) {
	var text, op string
	var val any
	full := true
	switch vpChoose(8) {
	case 0:
		text, val, full = "null", nil, false
	case 1:
		text, val, full = "true", true, false
	case 2:
		text, val, full = "false", false, false
	case 3:
		d := vpByte()
		vpAssume(d >= '0')
		vpAssume(d <= '9')
		text, val = string([]byte{d, '3'}), int64(d-'0')*10+3
	case 4:
		d := vpByte()
		vpAssume(d >= '0')
		vpAssume(d <= '9')
		text, val = string([]byte{'-', '4', d}), -(40 + int64(d-'0'))
	case 5:
		text, val = "-1.25", -1.25
	case 6:
		d := vpByte()
		vpAssume(d >= '0')
		vpAssume(d <= '9')
		text, val = string([]byte{'d', '1', d}), time.Unix(10+int64(d-'0'), 0)
	default:
		b := make([]byte, vpChoose(3))
		for i := range b {
			b[i] = vpByte()
			vpAssume(b[i] < 0x80)
			vpAssume(b[i] != '"')
			vpAssume(b[i] != '\\')
		}
		text, val = `"`+string(b)+`"`, string(b)
		if vpBool() {
			text, val = `"`+string(b)+`\""`, string(b)+`"`
		}
	}
	ops := 2
	if full {
		ops = 6
	}
	sqlop := ""
	switch vpChoose(ops) {
	case 0:
		op, sqlop = ":", "="
	case 1:
		op, sqlop = ":!", "<>"
	case 2:
		op, sqlop = ":>", ">"
	case 3:
		op, sqlop = ":<", "<"
	case 4:
		op, sqlop = ":>=", ">="
	default:
		op, sqlop = ":<=", "<="
	}
	out := key + op + text
	col := map[string]string{"a": "col_a", "b": "t.col_b", "u.s": "sub.col_us", "c": "col_c"}[key]
	switch key {
	case "zz":
		if strict {
			return out, UnknownColumnKeyError{Key: "zz"}
		}
		return out, nil
	case "e":
		return out, vpErrConvert
	case "c":
		val = vpConverted{val}
	}
	is := " IS "
	if sqlop == "<>" {
		is = " IS NOT "
	}
	switch val {
	case nil:
		r.operand("AND", []string{col + is + "NULL"})
	case true:
		r.operand("AND", []string{col + is + "TRUE"})
	case false:
		r.operand("AND", []string{col + is + "FALSE"})
	default:
		r.operand("AND", []string{col + " " + sqlop + " ", ""}, val)
	}
	return out, nil
}

// VP_F03_Rule: one arbitrary rule.
func VP_F03_Rule() {
	strict := vpBool()
	c, r := vpNewFQL(strict), vpNewRef()
	text, want := vpRule(r, strict)
	vpObs("fql", text)
	err := c.UnmarshalFQL(text)
	if want != nil {
		vpAssert(err == want, "an unknown key is reported in strict mode and a failed conversion always")
		vpReach("rejected")
		return
	}
	vpAssert(err == nil, "a well-formed filter is accepted")
	vpCheck(c, r, 0, "")
}

// vpSeq is the reference's view of a connective between the rules of a filter string: the latest counts if what's between is ignored.
func vpSeq(r *vpRef, op string) {
	if l := r.top(); l.n > 0 {
		l.pending = op
	}
}

// vpExpr writes an arbitrary expression of rules, known or not, and groups.
func vpExpr(r *vpRef, prior, depth int) string {
	out := ""
	max := 2
	if depth > 0 {
		max = vpBound("rules", 3, 3)
	}
	n := 1 + vpChoose(max)
	for i := 0; i < n; i++ {
		if i > 0 {
			if len(r.levels) == 1 && r.top().n == prior && prior > 0 {
				vpSkip() // whether a connective after ignored rules joins what follows to earlier calls is not specified
			}
			if vpBool() {
				out += ";"
				vpSeq(r, "AND")
			} else {
				out += ","
				vpSeq(r, "OR")
			}
		}
		kinds := 2
		if depth > 0 {
			kinds = 3
		}
		switch vpChoose(kinds) {
		case 0:
			d := vpByte()
			vpAssume(d >= '1')
			vpAssume(d <= '9')
			out += "a:" + string([]byte{d})
			r.operand("AND", []string{"col_a = ", ""}, int64(d-'0'))
		case 1:
			out += "zz:7"
		default:
			r.open()
			out += "(" + vpExpr(r, prior, depth-1) + ")"
			pending := r.levels[len(r.levels)-2].pending
			if r.top().n == 0 {
				r.close("AND")
				r.top().pending = pending
			} else {
				r.close("AND")
			}
		}
	}
	return out
}

// VP_F03_Expr: rules and groups joined by connectives, unknown keys among them, after earlier calls and before later ones.
func VP_F03_Expr() {
	c, r := vpNewFQL(false), vpNewRef()
	switch vpChoose(3) {
	case 1:
		vpCol(c, r, "x", "=", 1)
	case 2:
		vpCol(c, r, "x", "=", 1)
		c.Or(nil)
		r.connective("OR")
	}
	before := r.top().pending
	n := r.top().n
	text := vpExpr(r, n, vpBound("nesting", 1, 2))
	vpObs("fql", text)
	vpAssert(c.UnmarshalFQL(text) == nil, "a well-formed filter is accepted")
	vpCheck(c, r, 0, "")
	if r.top().pending = ""; r.top().n == n {
		r.top().pending = before
	}
	vpCol(c, r, "y", "=", 2)
	vpCheck(c, r, 0, "")
}
