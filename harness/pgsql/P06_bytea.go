package pgsql

func vpHexByteaIn(b []byte) (out []byte, ok bool) {
	if len(b) < 2 || b[0] != '\\' || b[1] != 'x' {
		return nil, false
	}
	b = b[2:]
	ok = len(b)%2 == 0
	for i := 0; i+1 < len(b); i += 2 {
		h, o1 := vpHexDigit(b[i])
		l, o2 := vpHexDigit(b[i+1])
		ok = vpAnd(ok, o1, o2)
		out = append(out, h<<4|l)
	}
	return out, ok
}

func vpByteaOut(b []byte) []byte {
	out := []byte{'\\', 'x'}
	for _, c := range b {
		out = append(out, vpHexChar(c>>4), vpHexChar(c&15))
	}
	return out
}

func vpP06elems(maxElems, maxLen int, nulls bool) []vpElem {
	elems := make([]vpElem, vpChoose(maxElems+1))
	if len(elems) == 1 {
		maxLen = vpBound("bytes of a single element", 6, 8)
	}
	for i := range elems {
		if nulls && vpBool() {
			elems[i].null = true
			continue
		}
		elems[i].val = vpBytes(vpChoose(maxLen + 1))
	}
	return elems
}

func vpP06check(got, want []vpElem) {
	vpAssert(len(got) == len(want), "every byte string is one element")
	if len(got) != len(want) {
		return
	}
	for i := range want {
		vpAssert(!got[i].null, "a byte string is not sent as NULL")
		b, ok := vpHexByteaIn(got[i].val)
		vpAssert(ok, "every element is hex bytea input")
		vpAssert(string(b) == string(want[i].val), "every byte string is sent exactly")
	}
}

func VP_P06_FromByteSlices() {
	es := vpP06elems(vpBound("elements", 2, 3), vpBound("bytes", 3, 3), false)
	in := make([][]byte, len(es))
	for i := range es {
		in[i] = append([]byte{}, es[i].val...)
	}
	vpP06check(vpEncoded(ByteaArrayFromByteSliceSlice(in), ','), es)
}

func VP_P06_FromStrings() {
	es := vpP06elems(vpBound("elements", 2, 3), vpBound("bytes", 3, 3), false)
	in := make([]string, len(es))
	for i := range es {
		in[i] = string(es[i].val)
	}
	vpP06check(vpEncoded(ByteaArrayFromStringSlice(in), ','), es)
}

func vpP06text(es []vpElem) []byte {
	raw := make([]vpElem, len(es))
	for i := range es {
		raw[i].null = es[i].null
		if !es[i].null {
			raw[i].val = vpByteaOut(es[i].val)
		}
	}
	return vpArrayOut(raw, ',')
}

func VP_P06_ToByteSlices() {
	es := vpP06elems(vpBound("elements", 3, 4), vpBound("bytes", 2, 3), true)
	got := [][]byte{{1}}
	vpScanOK(ByteaArrayToByteSliceSlice(&got), vpP06text(es))
	vpAssert(len(got) == len(es), "every element is scanned exactly once")
	for i := range got {
		vpAssert((got[i] == nil) == es[i].null, "exactly NULL elements are nil")
		vpAssert(string(got[i]) == string(es[i].val), "every byte string is scanned exactly")
	}
}

func VP_P06_ToStrings() {
	es := vpP06elems(vpBound("elements", 3, 4), vpBound("bytes", 2, 3), true)
	got := []string{"previous"}
	vpScanOK(ByteaArrayToStringSlice(&got), vpP06text(es))
	vpAssert(len(got) == len(es), "every element is scanned exactly once")
	for i := range got {
		vpAssert(got[i] == string(es[i].val), "every byte string is scanned exactly, NULL as empty")
	}
}

func VP_P06_NilElement() {
	b := vpBytes(vpChoose(3))
	got := vpEncoded(ByteaArrayFromByteSliceSlice([][]byte{nil, b}), ',')
	vpAssert(len(got) == 2, "every byte string is one element")
	if len(got) == 2 {
		x, ok := vpHexByteaIn(got[0].val)
		vpAssert(got[0].null || ok && len(x) == 0, "a nil byte slice is sent as NULL or as no bytes")
		x, ok = vpHexByteaIn(got[1].val)
		vpAssert(ok && string(x) == string(b), "every byte string is sent exactly")
	}
}

func VP_P06_NilAndEmpty() {
	vpNilValue(ByteaArrayFromByteSliceSlice(nil), ByteaArrayFromStringSlice(nil))
	vpEmptyArray(ByteaArrayFromByteSliceSlice([][]byte{}), ByteaArrayFromStringSlice([]string{}))
}
