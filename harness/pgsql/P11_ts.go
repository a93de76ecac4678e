package pgsql

// vpLexeme returns an arbitrary lexeme in PostgreSQL's tsvector text form: quoted, with single quotes and backslashes doubled,
// and optionally followed by a position.
func vpLexeme(maxLen int) []byte {
	out := []byte{'\''}
	for i, n := 0, 1+vpChoose(maxLen); i < n; i++ {
		switch vpChoose(3) {
		case 0:
			out = append(out, '\'', '\'')
		case 1:
			out = append(out, '\\', '\\')
		default:
			b := vpByte()
			vpAssume(b != 0)
			vpAssume(b != '\'')
			vpAssume(b != '\\')
			out = append(out, b)
		}
	}
	out = append(out, '\'')
	if vpBool() {
		out = append(out, ":1,2A"...)
	}
	return out
}

// vpTSVectorIn splits tsvector input into its entries (spaces outside quotes separate them).
func vpTSVectorIn(a []byte) (out [][]byte, ok bool) {
	i := 0
	for {
		for i < len(a) && a[i] == ' ' {
			i++
		}
		if i == len(a) {
			return out, true
		}
		j := i
		for j < len(a) && a[j] != ' ' {
			if a[j] == '\'' {
				for j++; ; j++ {
					if j >= len(a) {
						return nil, false
					}
					if a[j] == '\\' {
						j++
					} else if a[j] == '\'' {
						if j+1 < len(a) && a[j+1] == '\'' {
							j++
						} else {
							break
						}
					}
				}
			} else if a[j] == '\\' {
				j++
			}
			j++
		}
		if j > len(a) {
			return nil, false
		}
		out = append(out, a[i:j])
		i = j
	}
}

func vpLexemes(maxLen int) [][]byte {
	ls := make([][]byte, vpChoose(3))
	for i := range ls {
		n := maxLen
		if i > 0 {
			n = 1
		}
		ls[i] = vpLexeme(n)
	}
	return ls
}

func vpStrs(bs [][]byte) []string {
	if bs == nil {
		return nil
	}
	out := make([]string, len(bs))
	for i := range bs {
		out[i] = string(bs[i])
	}
	return out
}

func vpSameEntries(got, want [][]byte, msg string) {
	vpAssert(len(got) == len(want), msg)
	if len(got) == len(want) {
		for i := range want {
			vpAssert(string(got[i]) == string(want[i]), msg)
		}
	}
}

func VP_P11_VectorFrom() {
	ls := vpLexemes(vpBound("lexeme bytes", 3, 5))
	v := TSVectorFromByteSliceSlice(ls)
	if vpBool() {
		v = TSVectorFromStringSlice(vpStrs(ls))
	}
	val, err := v.Value()
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "the value is not sent as NULL")
	vpReach("encoded")
	vpObs("out", out)
	got, ok := vpTSVectorIn(out)
	vpAssert(ok, "the text is a well-formed tsvector")
	vpSameEntries(got, ls, "the tsvector has exactly the given lexemes")
	vpNilValue(TSVectorFromByteSliceSlice(nil), TSVectorFromStringSlice(nil))
}

func VP_P11_VectorTo() {
	ls := vpLexemes(vpBound("lexeme bytes", 3, 5))
	text := vpJoin("", ls, " ", "")
	if vpBool() {
		got := []string{"x"}
		vpScanOK(TSVectorToStringSlice(&got), text)
		vpAssert(len(got) == len(ls), "every lexeme is scanned once")
		if len(got) == len(ls) {
			for i := range ls {
				vpAssert(got[i] == string(ls[i]), "every lexeme is scanned unchanged")
			}
		}
		return
	}
	got := [][]byte{{'x'}}
	vpScanOK(TSVectorToByteSliceSlice(&got), text)
	vpSameEntries(got, ls, "every lexeme is scanned unchanged")
}

// vpVectors returns up to two vectors, one of them possibly NULL.
func vpVectors(maxLen int) (vs [][][]byte, es []vpElem) {
	vs = make([][][]byte, vpChoose(3))
	es = make([]vpElem, len(vs))
	for i := range vs {
		switch {
		case i == len(vs)-1:
			vs[i] = vpLexemes(maxLen)
		case vpBool():
			es[i].null = true
			continue
		default:
			vs[i] = [][]byte{[]byte("'a'"), []byte("'b':1")}
		}
		es[i].val = vpJoin("", vs[i], " ", "")
	}
	return vs, es
}

func VP_P11_VectorArrayFrom() {
	vs, es := vpVectors(vpBound("lexeme bytes", 2, 3))
	if vpBool() {
		ss := make([][]string, len(vs))
		for i := range vs {
			ss[i] = vpStrs(vs[i])
		}
		vpEncodes(TSVectorArrayFromStringSliceSlice(ss), es)
	} else {
		vpEncodes(TSVectorArrayFromByteSliceSliceSlice(vs), es)
	}
	vpNilValue(TSVectorArrayFromStringSliceSlice(nil), TSVectorArrayFromByteSliceSliceSlice(nil))
}

func VP_P11_VectorArrayTo() {
	vs, es := vpVectors(vpBound("lexeme bytes", 2, 3))
	text := vpArrayOut(es, ',')
	if vpBool() {
		got := [][]string{{"x"}}
		vpScanOK(TSVectorArrayToStringSliceSlice(&got), text)
		vpAssert(len(got) == len(vs), "every vector is scanned once")
		if len(got) == len(vs) {
			for i := range vs {
				vpAssert((got[i] == nil) == es[i].null, "exactly the NULL vectors are scanned as nil")
				vpAssert(len(got[i]) == len(vs[i]), "every lexeme is scanned once")
				if len(got[i]) == len(vs[i]) {
					for j := range vs[i] {
						vpAssert(got[i][j] == string(vs[i][j]), "every lexeme is scanned unchanged")
					}
				}
			}
		}
		return
	}
	got := [][][]byte{{{'x'}}}
	vpScanOK(TSVectorArrayToByteSliceSliceSlice(&got), text)
	vpAssert(len(got) == len(vs), "every vector is scanned once")
	if len(got) == len(vs) {
		for i := range vs {
			vpAssert((got[i] == nil) == es[i].null, "exactly the NULL vectors are scanned as nil")
			vpSameEntries(got[i], vs[i], "every lexeme is scanned unchanged")
		}
	}
}

func vpQueries() []vpElem {
	es := make([]vpElem, vpChoose(3))
	for i := range es {
		n := vpBound("query bytes", 3, 4)
		if i > 0 {
			n = 1
		}
		n = vpChoose(n + 1)
		es[i].val = vpBytes(n)
		for _, b := range es[i].val {
			vpAssume(b != 0)
		}
		if n == 0 && vpBool() {
			es[i].null, es[i].val = true, nil
		}
	}
	return es
}

func VP_P11_QueryArrayFrom() {
	es := vpQueries()
	bs := make([][]byte, len(es))
	for i := range es {
		bs[i] = es[i].val
	}
	if vpBool() {
		for i := range es {
			if es[i].null {
				es[i].null, es[i].val = false, []byte{}
			}
		}
		vpEncodes(TSQueryArrayFromStringSlice(vpStrs(bs)), es)
	} else {
		vpEncodes(TSQueryArrayFromByteSliceSlice(bs), es)
	}
	vpNilValue(TSQueryArrayFromStringSlice(nil), TSQueryArrayFromByteSliceSlice(nil))
}

func VP_P11_QueryArrayTo() {
	es := vpQueries()
	text := vpArrayOut(es, ',')
	if vpBool() {
		got := []string{"x"}
		vpScanOK(TSQueryArrayToStringSlice(&got), text)
		vpAssert(len(got) == len(es), "every query is scanned once")
		if len(got) == len(es) {
			for i := range es {
				vpAssert(got[i] == string(es[i].val), "every query is scanned unchanged")
			}
		}
		return
	}
	got := [][]byte{{'x'}}
	vpScanOK(TSQueryArrayToByteSliceSlice(&got), text)
	vpAssert(len(got) == len(es), "every query is scanned once")
	if len(got) == len(es) {
		for i := range es {
			vpAssert((got[i] == nil) == es[i].null, "exactly the NULL queries are scanned as nil")
			vpAssert(string(got[i]) == string(es[i].val), "every query is scanned unchanged")
		}
	}
}
