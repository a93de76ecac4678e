package generator

import "strconv"

// SQL as tokens: words, numbers, quoted text, placeholders and symbols.

func vpTokens(s string) (out []string) {
	word := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c >= 0x80
	}
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
			continue
		case c == '"' || c == '\'':
			for j < len(s) && s[j] != c {
				j++
			}
			j++
			if j > len(s) {
				j = len(s)
			}
		case c == '{': // a parameter in an expected text
			for j < len(s) && s[j] != '}' {
				j++
			}
			j++
		case c == '$' || word(c):
			for j < len(s) && word(s[j]) {
				j++
			}
		case c == ':' && j < len(s) && s[j] == ':':
			j++
		case c == '<' || c == '>' || c == '!' || c == '~' || c == '=':
			for j < len(s) && (s[j] == '>' || s[j] == '=' || s[j] == '~' || s[j] == '*') {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func vpJoin(toks []string) string {
	s := ""
	for i, t := range toks {
		if i > 0 {
			s += " "
		}
		s += t
	}
	return s
}

// vpSQL normalises an expected text.
func vpSQL(s string) string { return vpJoin(vpTokens(s)) }

// vpBound renders a call's query with each placeholder replaced by its argument.
func vpBoundSQL(c vpCall) string {
	toks := vpTokens(c.query)
	used := make([]bool, len(c.args))
	for i, t := range toks {
		if t[0] == '$' && len(t) > 1 && t[1] >= '0' && t[1] <= '9' {
			n, err := strconv.Atoi(t[1:])
			vpAssert(err == nil && n >= 1 && n <= len(c.args), "a placeholder has no argument")
			if err != nil || n < 1 || n > len(c.args) {
				vpSkip()
			}
			used[n-1] = true
			toks[i] = "{" + vpDump(c.args[n-1]) + "}"
		}
	}
	for _, u := range used {
		vpAssert(u, "an argument has no placeholder")
	}
	return vpJoin(toks)
}

// vpColumns are the expressions a query returns.
func vpColumns(q string) (out []string) {
	toks := vpTokens(q)
	start := -1
	for i, t := range toks {
		if t == "RETURNING" || t == "SELECT" && i == 0 {
			start = i + 1
		}
	}
	if start < 0 {
		return nil
	}
	depth, cur := 0, ""
	for _, t := range toks[start:] {
		if depth == 0 && t == "FROM" {
			break
		}
		if depth == 0 && t == "," {
			out = append(out, cur)
			cur = ""
			continue
		}
		switch t {
		case "(":
			depth++
		case ")":
			depth--
		}
		if cur != "" {
			cur += " "
		}
		cur += t
	}
	return append(out, cur)
}
