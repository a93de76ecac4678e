package pgsql

func vpUUIDText(u [16]byte) []byte {
	out := []byte{}
	for i, c := range u {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			out = append(out, '-')
		}
		out = append(out, vpHexChar(c>>4), vpHexChar(c&15))
	}
	return out
}

func vpAnyUUID() (u [16]byte) {
	for i := range u {
		u[i] = vpByte()
	}
	return u
}

func VP_P09_Scalar() {
	u := vpAnyUUID()
	text := vpUUIDText(u)
	vpScalar(UUIDFromByteArray16(u), text)
	var got [16]byte
	vpScanOK(UUIDToByteArray16(&got), text)
	vpAssert(got == u, "the identifier is scanned exactly")
}

// every text of up to 36 bytes with the separators in place is either rejected or denotes the identifier stored
func VP_P09_AnyText() {
	b := vpBytes(36)
	for _, i := range []int{8, 13, 18, 23} {
		b[i] = '-'
	}
	got := [16]byte{7}
	err := UUIDToByteArray16(&got).Scan(vpSrc(b))
	k, all := 0, true
	var want [16]byte
	for i := 0; i < 36; {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			i++
			continue
		}
		h, o1 := vpHexDigit(b[i])
		l, o2 := vpHexDigit(b[i+1])
		all = vpAnd(all, o1, o2)
		want[k] = h<<4 | l
		k++
		i += 2
	}
	if err == nil {
		vpAssert(all, "text that is not hexadecimal is reported")
		vpAssert(got == want, "the identifier is exactly the text's")
		vpReach("accepted")
	} else {
		vpAssert(!all, "hexadecimal text of either case is accepted")
		vpAssert(got == [16]byte{7}, "the target is unchanged on error")
		vpReach("rejected")
	}
}

func VP_P09_Truncated() {
	n := vpChoose(vpBound("bytes", 40, 44))
	b := vpBytes(n)
	vpAssume(n != 36)
	got := [16]byte{7}
	err := UUIDToByteArray16(&got).Scan(vpSrc(b))
	vpAssert(err != nil, "text of the wrong length is reported")
	vpAssert(got == [16]byte{7}, "the target is unchanged on error")
}

func vpP09elems(max int, nulls bool) ([][16]byte, []vpElem) {
	us := make([][16]byte, vpChoose(max+1))
	es := make([]vpElem, len(us))
	for i := range us {
		if nulls && vpBool() {
			es[i].null = true
			continue
		}
		us[i] = vpAnyUUID()
		es[i].val = vpUUIDText(us[i])
	}
	return us, es
}

func VP_P09_ArrayFrom16() {
	us, es := vpP09elems(vpBound("elements", 2, 3), false)
	vpEncodes(UUIDArrayFromByteArray16Slice(us), es)
}

func VP_P09_ArrayFromStrings() {
	_, es := vpP09elems(vpBound("elements", 2, 3), false)
	in := make([]string, len(es))
	for i := range es {
		in[i] = string(es[i].val)
	}
	vpEncodes(UUIDArrayFromStringSlice(in), es)
}

func VP_P09_ArrayFromByteSlices() {
	_, es := vpP09elems(vpBound("elements", 2, 3), true)
	in := make([][]byte, len(es))
	for i := range es {
		if !es[i].null {
			in[i] = append([]byte{}, es[i].val...)
		}
	}
	vpEncodes(UUIDArrayFromByteSliceSlice(in), es)
}

func VP_P09_ArrayTo16() {
	us, es := vpP09elems(vpBound("elements", 2, 3), false)
	got := [][16]byte{{1}}
	vpScanOK(UUIDArrayToByteArray16Slice(&got), vpArrayOut(es, ','))
	vpAssert(len(got) == len(us), "every element is scanned exactly once")
	for i := range got {
		vpAssert(got[i] == us[i], "every identifier is scanned exactly")
	}
}

func VP_P09_ArrayTo16Nulls() {
	us, es := vpP09elems(2, true)
	got := [][16]byte{{1}}
	err := UUIDArrayToByteArray16Slice(&got).Scan(vpSrc(vpArrayOut(es, ',')))
	if err != nil {
		null := false
		for _, e := range es {
			null = null || e.null
		}
		vpAssert(null, "only a NULL element is an error")
		return
	}
	vpAssert(len(got) == len(us), "every element is scanned exactly once")
	for i := range got {
		vpAssert(got[i] == us[i], "every identifier is scanned exactly")
	}
}

func VP_P09_ArrayToStrings() {
	_, es := vpP09elems(vpBound("elements", 2, 3), true)
	got := []string{"previous"}
	vpScanOK(UUIDArrayToStringSlice(&got), vpArrayOut(es, ','))
	vpAssert(len(got) == len(es), "every element is scanned exactly once")
	for i := range got {
		vpAssert(got[i] == string(es[i].val), "every identifier is scanned exactly, NULL as empty")
	}
}

func VP_P09_ArrayToByteSlices() {
	_, es := vpP09elems(vpBound("elements", 2, 3), true)
	got := [][]byte{{1}}
	vpScanOK(UUIDArrayToByteSliceSlice(&got), vpArrayOut(es, ','))
	vpAssert(len(got) == len(es), "every element is scanned exactly once")
	for i := range got {
		vpAssert((got[i] == nil) == es[i].null, "exactly NULL elements are nil")
		vpAssert(string(got[i]) == string(es[i].val), "every identifier is scanned exactly")
	}
}

func VP_P09_NilAndEmpty() {
	vpNilValue(UUIDArrayFromByteArray16Slice(nil), UUIDArrayFromStringSlice(nil), UUIDArrayFromByteSliceSlice(nil))
	vpEmptyArray(UUIDArrayFromByteArray16Slice([][16]byte{}), UUIDArrayFromStringSlice([]string{}), UUIDArrayFromByteSliceSlice([][]byte{}))
}
