package pgsql

import (
	"database/sql"
	"database/sql/driver"
)

// Reference models of PostgreSQL's own input and output syntax, written from the PostgreSQL documentation and sources
// (array_in / array_out, hstore_in / hstore_out).  They are deliberately straightforward.

func vpIsSpace(c byte) bool {
	return vpOr(c == ' ', vpAnd(c >= '\t', c <= '\r'))
}

func vpIsNullWord(b []byte) bool {
	if len(b) != 4 {
		return false
	}
	return vpAnd(b[0]|0x20 == 'n', b[1]|0x20 == 'u', b[2]|0x20 == 'l', b[3]|0x20 == 'l')
}

type vpElem struct {
	null bool
	val  []byte
}

// vpArrayIn parses a one-dimensional array literal the way PostgreSQL does; ok is false where PostgreSQL reports
// "malformed array literal" (or would read more than one dimension).
func vpArrayIn(s []byte, delim byte) (out []vpElem, ok bool) {
	i, n := 0, len(s)
	for i < n && vpIsSpace(s[i]) {
		i++
	}
	if i >= n || s[i] != '{' {
		return nil, false
	}
	i++
	first := true
	for {
		for i < n && vpIsSpace(s[i]) {
			i++
		}
		if i >= n {
			return nil, false
		}
		if first && s[i] == '}' {
			i++
			break
		}
		first = false
		var e vpElem
		e.val = []byte{}
		if s[i] == '"' {
			i++
			for {
				if i >= n {
					return nil, false
				}
				if s[i] == '\\' {
					if i+1 >= n {
						return nil, false
					}
					e.val = append(e.val, s[i+1])
					i += 2
					continue
				}
				if s[i] == '"' {
					i++
					break
				}
				e.val = append(e.val, s[i])
				i++
			}
			for i < n && vpIsSpace(s[i]) {
				i++
			}
		} else {
			esc := false
			last := 0 // length up to the last non-space (or escaped) character
			for i < n && s[i] != delim && s[i] != '}' {
				if s[i] == '"' || s[i] == '{' {
					return nil, false
				}
				if s[i] == '\\' {
					if i+1 >= n {
						return nil, false
					}
					esc = true
					e.val = append(e.val, s[i+1])
					last = len(e.val)
					i += 2
					continue
				}
				e.val = append(e.val, s[i])
				if !vpIsSpace(s[i]) {
					last = len(e.val)
				}
				i++
			}
			e.val = e.val[:last]
			if last == 0 {
				return nil, false
			}
			if !esc && vpIsNullWord(e.val) {
				e = vpElem{null: true}
			}
		}
		out = append(out, e)
		if i >= n {
			return nil, false
		}
		if s[i] == delim {
			i++
			continue
		}
		if s[i] == '}' {
			i++
			break
		}
		return nil, false
	}
	for i < n && vpIsSpace(s[i]) {
		i++
	}
	return out, i == n
}

// vpArrayOut renders a one-dimensional array the way PostgreSQL does.
func vpArrayOut(elems []vpElem, delim byte) []byte {
	out := []byte{'{'}
	for i, e := range elems {
		if i > 0 {
			out = append(out, delim)
		}
		if e.null {
			out = append(out, "NULL"...)
			continue
		}
		q := len(e.val) == 0
		if !q {
			need := vpIsNullWord(e.val)
			for _, c := range e.val {
				need = vpOr(need, c == '"', c == '\\', c == '{', c == '}', c == delim, vpIsSpace(c))
			}
			q = need
		}
		if q {
			out = append(out, '"')
			for _, c := range e.val {
				if vpOr(c == '"', c == '\\') {
					out = append(out, '\\')
				}
				out = append(out, c)
			}
			out = append(out, '"')
		} else {
			out = append(out, e.val...)
		}
	}
	return append(out, '}')
}

func vpElemsEq(a, b []vpElem) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		if a[i].null != b[i].null {
			return false
		}
		r = vpAnd(r, string(a[i].val) == string(b[i].val))
	}
	return r
}

// vpBytesOf normalises a driver value to bytes.
func vpBytesOf(v interface{}) ([]byte, bool) {
	switch x := v.(type) {
	case []byte:
		return x, x != nil
	case string:
		return []byte(x), true
	}
	return nil, false
}

// vpSrc delivers text as a driver would: as bytes or as a string.
func vpSrc(b []byte) interface{} {
	if vpBool() {
		return string(b)
	}
	return append([]byte{}, b...)
}

// vpEncoded evaluates a valuer and parses the array literal it produces.
func vpEncoded(v driver.Valuer, delim byte) []vpElem {
	val, err := v.Value()
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "a non-nil slice is not sent as NULL")
	vpObs("out", out)
	got, ok := vpArrayIn(out, delim)
	vpAssert(ok, "the array literal is well-formed")
	vpReach("encoded")
	return got
}

// vpEncodes asserts that a valuer denotes exactly the given elements.
func vpEncodes(v driver.Valuer, want []vpElem) {
	vpAssert(vpElemsEq(vpEncoded(v, ','), want), "the literal denotes exactly the given elements")
}

// vpScalar asserts that a valuer produces exactly the given text.
func vpScalar(v driver.Valuer, want []byte) {
	val, err := v.Value()
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "the value is not sent as NULL")
	vpObs("out", out)
	vpAssert(string(out) == string(want), "the text is exactly the value's")
	vpReach("encoded")
}

// vpNilValue asserts that every valuer sends NULL.
func vpNilValue(vs ...driver.Valuer) {
	for _, v := range vs {
		val, err := v.Value()
		vpAssert(err == nil, "encoding reports no error")
		vpAssert(val == nil, "a nil value is sent as NULL")
	}
	vpReach("nil")
}

// vpEmptyArray asserts that every valuer sends an empty array.
func vpEmptyArray(vs ...driver.Valuer) {
	for _, v := range vs {
		val, err := v.Value()
		vpAssert(err == nil, "encoding reports no error")
		out, ok := vpBytesOf(val)
		vpAssert(ok, "an empty slice is not sent as NULL")
		got, ok := vpArrayIn(out, ',')
		vpAssert(ok && len(got) == 0, "an empty slice is sent as an empty array")
	}
	vpReach("empty")
}

func vpScanOK(s sql.Scanner, text []byte) {
	vpObs("text", text)
	err := s.Scan(vpSrc(text))
	vpAssert(err == nil, "scanning reports no error")
	vpReach("scanned")
}

func vpBitStr(b bool) byte { return vpIteByte(b, '1', '0') }
