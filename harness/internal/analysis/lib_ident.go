package analysis

// vpIdentOK is the condition that s has the form of an identifier.
func vpIdentOK(s string) bool {
	if len(s) == 0 {
		return false
	}
	ok := vpWord0(s[0])
	for i := 1; i < len(s); i++ {
		ok = vpAnd(ok, vpWord(s[i]))
	}
	return ok
}

// vpSplit cuts s at the first occurrence of c.
func vpSplit(s string, c byte) (a, b string, ok bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}

func vpSplitAll(s string, c byte) []string {
	var out []string
	for {
		a, b, ok := vpSplit(s, c)
		out = append(out, a)
		if !ok {
			return out
		}
		s = b
	}
}

// vpEqFold is the condition that s is the lower-case ASCII word w in any letter case.
func vpEqFold(s, w string) bool {
	if len(s) != len(w) {
		return false
	}
	ok := true
	for i := 0; i < len(w); i++ {
		c := s[i]
		if w[i] >= 'a' && w[i] <= 'z' {
			ok = vpAnd(ok, vpOr(c == w[i], c == w[i]-32))
		} else {
			ok = vpAnd(ok, c == w[i])
		}
	}
	return ok
}

var vpReserved = []string{"true", "false", "current_date", "current_time", "current_timestamp", "current_role",
	"current_schema", "current_user", "localtime", "localtimestamp", "session_user"}

func vpIsReserved(s string) bool {
	r := false
	for _, w := range vpReserved {
		r = vpOr(r, vpEqFold(s, w))
	}
	return r
}

// vpASCII returns n symbolic printable ASCII characters that do not end the
// quoted part of the struct tag.
func vpASCII(n int) string {
	s := vpString(n)
	for i := 0; i < n; i++ {
		vpAssume(vpAnd(s[i] >= 0x20, s[i] < 0x7f, s[i] != '"', s[i] != '\\'))
	}
	return s
}

// vpCid is a column identifier as written in a tag.
type vpCid struct {
	qual, name string
	hasQual    bool
	ok         bool // well formed
}

func vpColRef(s string) vpCid {
	q, rest, has := vpSplit(s, '.')
	if !has {
		q, rest = "", s
	}
	return vpCid{q, rest, has, vpAnd(vpIdentOK(rest), vpOr(!has, vpIdentOK(q)), !vpIsReserved(s))}
}

func vpTrim(s string) string {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

