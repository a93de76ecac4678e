package pgsql

import "database/sql"

type vpPair struct {
	key  []byte
	val  []byte
	null bool
}

// vpHStoreIn parses hstore input the way PostgreSQL's hstore_in does.
func vpHStoreIn(s []byte) (out []vpPair, ok bool) {
	i, n := 0, len(s)
	word := func(stop byte) (w []byte, quoted, esc, ok bool) {
		w = []byte{}
		if i < n && s[i] == '"' {
			i++
			for {
				if i >= n {
					return nil, true, false, false
				}
				if s[i] == '\\' {
					if i+1 >= n {
						return nil, true, false, false
					}
					w = append(w, s[i+1])
					i += 2
					continue
				}
				if s[i] == '"' {
					i++
					return w, true, false, true
				}
				w = append(w, s[i])
				i++
			}
		}
		start := i
		for i < n && s[i] != stop && !vpIsSpace(s[i]) {
			if s[i] == '\\' {
				if i+1 >= n {
					return nil, false, false, false
				}
				esc = true
				w = append(w, s[i+1])
				i += 2
				continue
			}
			w = append(w, s[i])
			i++
		}
		return w, false, esc, i > start
	}
	space := func() {
		for i < n && vpIsSpace(s[i]) {
			i++
		}
	}
	space()
	for i < n {
		var p vpPair
		w, _, _, ok := word('=')
		if !ok {
			return nil, false
		}
		p.key = w
		space()
		if i+1 >= n || s[i] != '=' || s[i+1] != '>' {
			return nil, false
		}
		i += 2
		space()
		w, quoted, esc, ok := word(',')
		if !ok {
			return nil, false
		}
		p.val = w
		if !quoted && !esc && vpIsNullWord(w) {
			p.null = true
		}
		out = append(out, p)
		space()
		if i >= n {
			break
		}
		if s[i] != ',' {
			return nil, false
		}
		i++
		space()
		if i >= n {
			break // PostgreSQL accepts a trailing comma
		}
	}
	return out, true
}

// vpHStoreOut renders pairs the way hstore_out does.
func vpHStoreOut(pairs []vpPair) []byte {
	out := []byte{}
	q := func(b []byte) {
		out = append(out, '"')
		for _, c := range b {
			if vpOr(c == '"', c == '\\') {
				out = append(out, '\\')
			}
			out = append(out, c)
		}
		out = append(out, '"')
	}
	for i, p := range pairs {
		if i > 0 {
			out = append(out, ',', ' ')
		}
		q(p.key)
		out = append(out, '=', '>')
		if p.null {
			out = append(out, "NULL"...)
		} else {
			q(p.val)
		}
	}
	return out
}

// vpPairsEq compares two lists of pairs as maps.
func vpPairsEq(a, b []vpPair) bool {
	if len(a) != len(b) {
		return false
	}
	all := true
	for _, x := range a {
		one := false
		for _, y := range b {
			if x.null != y.null {
				continue
			}
			e := vpAnd(len(x.key) == len(y.key), string(x.key) == string(y.key))
			if !x.null {
				e = vpAnd(e, string(x.val) == string(y.val))
			}
			one = vpOr(one, e)
		}
		all = vpAnd(all, one)
	}
	return all
}

// vpPairs builds up to maxPairs arbitrary pairs with distinct keys.
func vpPairs(maxPairs, maxKey, maxVal int, nulls bool) []vpPair {
	ps := make([]vpPair, vpChoose(maxPairs+1))
	for i := range ps {
		ps[i].key = vpBytes(vpChoose(maxKey + 1))
		if nulls && vpBool() {
			ps[i].null = true
		} else {
			ps[i].val = vpBytes(vpChoose(maxVal + 1))
		}
		for _, q := range ps[:i] {
			if len(q.key) == len(ps[i].key) {
				vpAssume(string(q.key) != string(ps[i].key))
			}
		}
	}
	return ps
}

func vpStringMap(ps []vpPair) map[string]string {
	m := map[string]string{}
	for _, p := range ps {
		m[string(p.key)] = string(p.val)
	}
	return m
}

func vpStringPtrMap(ps []vpPair) map[string]*string {
	m := map[string]*string{}
	for _, p := range ps {
		m[string(p.key)] = nil
		if !p.null {
			s := string(p.val)
			m[string(p.key)] = &s
		}
	}
	return m
}

func vpNullStringMap(ps []vpPair) map[string]sql.NullString {
	m := map[string]sql.NullString{}
	for _, p := range ps {
		m[string(p.key)] = sql.NullString{String: string(p.val), Valid: !p.null}
	}
	return m
}

func vpCheckStringMap(m map[string]string, ps []vpPair) {
	vpAssert(len(m) == len(ps), "the map has exactly the stored pairs")
	for _, p := range ps {
		v, ok := m[string(p.key)]
		vpAssert(ok, "every key is scanned")
		vpAssert(v == string(p.val), "every value is scanned exactly")
	}
}

func vpCheckStringPtrMap(m map[string]*string, ps []vpPair) {
	vpAssert(len(m) == len(ps), "the map has exactly the stored pairs")
	for _, p := range ps {
		v, ok := m[string(p.key)]
		vpAssert(ok, "every key is scanned")
		vpAssert((v == nil) == p.null, "exactly NULL values are scanned as nil")
		if v != nil {
			vpAssert(*v == string(p.val), "every value is scanned exactly")
		}
	}
}

func vpCheckNullStringMap(m map[string]sql.NullString, ps []vpPair) {
	vpAssert(len(m) == len(ps), "the map has exactly the stored pairs")
	for _, p := range ps {
		v, ok := m[string(p.key)]
		vpAssert(ok, "every key is scanned")
		vpAssert(v.Valid == !p.null, "exactly NULL values are scanned as invalid")
		vpAssert(v.String == string(p.val), "every value is scanned exactly")
	}
}
