package pgsql

func vpP05bools(max int) ([]bool, []vpElem, []byte) {
	in := make([]bool, vpChoose(max+1))
	want := make([]vpElem, len(in))
	text := []byte{}
	for i := range in {
		in[i] = vpBool()
		want[i].val = []byte{vpBitStr(in[i])}
		text = append(text, want[i].val...)
	}
	return in, want, text
}

func vpP05flags(bs []bool) []uint8 {
	out := make([]uint8, len(bs))
	for i := range bs {
		out[i] = vpIteByte(bs[i], 1, 0)
	}
	return out
}

func VP_P05_BitFromBool() {
	b := vpBool()
	vpScalar(BitFromBool(b), []byte{vpBitStr(b)})
}

func VP_P05_BitArrayFrom() {
	bs, want, _ := vpP05bools(vpBound("elements", 5, 8))
	switch vpChoose(3) {
	case 0:
		vpEncodes(BitArrayFromBoolSlice(bs), want)
	case 1:
		vpEncodes(BitArrayFromUint8Slice(vpP05flags(bs)), want)
	case 2:
		us := make([]uint, len(bs))
		for i, f := range vpP05flags(bs) {
			us[i] = uint(f)
		}
		vpEncodes(BitArrayFromUintSlice(us), want)
	}
}

func VP_P05_BitArrayTo() {
	bs, want, _ := vpP05bools(vpBound("elements", 5, 8))
	text := vpArrayOut(want, ',')
	switch vpChoose(3) {
	case 0:
		got := []bool{true}
		vpScanOK(BitArrayToBoolSlice(&got), text)
		vpAssert(len(got) == len(bs), "every element is scanned exactly once")
		for i := range got {
			vpAssert(got[i] == bs[i], "every bit is scanned exactly")
		}
	case 1:
		got := []uint8{1}
		vpScanOK(BitArrayToUint8Slice(&got), text)
		vpAssert(len(got) == len(bs), "every element is scanned exactly once")
		for i := range got {
			vpAssert(got[i] == vpIteByte(bs[i], 1, 0), "every bit is scanned exactly")
		}
	case 2:
		got := []uint{1}
		vpScanOK(BitArrayToUintSlice(&got), text)
		vpAssert(len(got) == len(bs), "every element is scanned exactly once")
		for i := range got {
			vpAssert(got[i] == uint(vpIteByte(bs[i], 1, 0)), "every bit is scanned exactly")
		}
	}
}

func VP_P05_BoolArray() {
	bs, _, _ := vpP05bools(vpBound("elements", 5, 8))
	want := make([]vpElem, len(bs))
	for i := range bs {
		want[i].val = []byte{vpIteByte(bs[i], 't', 'f')}
	}
	vpEncodes(BoolArrayFromBoolSlice(bs), want)
	got := []bool{true}
	vpScanOK(BoolArrayToBoolSlice(&got), vpArrayOut(want, ','))
	vpAssert(len(got) == len(bs), "every element is scanned exactly once")
	for i := range got {
		vpAssert(got[i] == bs[i], "every boolean is scanned exactly")
	}
}

func VP_P05_VarBit() {
	bs, _, text := vpP05bools(vpBound("bits", 6, 9))
	switch vpChoose(4) {
	case 0:
		vpScalar(VarBitFromBoolSlice(bs), text)
	case 1:
		vpScalar(VarBitFromUint8Slice(vpP05flags(bs)), text)
	case 2:
		got := []bool{true}
		vpScanOK(VarBitToBoolSlice(&got), text)
		vpAssert(got != nil && len(got) == len(bs), "every bit is scanned exactly once")
		for i := range got {
			vpAssert(got[i] == bs[i], "every bit is scanned exactly")
		}
	case 3:
		got := []uint8{1}
		vpScanOK(VarBitToUint8Slice(&got), text)
		vpAssert(got != nil && len(got) == len(bs), "every bit is scanned exactly once")
		for i := range got {
			vpAssert(got[i] == vpIteByte(bs[i], 1, 0), "every bit is scanned exactly")
		}
	}
}

// vpP05denotes reads a bit string of at most 64 bits as a 64-bit number.
func vpP05denotes(b []byte) (n uint64, ok bool) {
	ok = len(b) > 0
	for len(b) > 64 {
		ok = vpAnd(ok, b[0] == '0')
		b = b[1:]
	}
	for _, c := range b {
		ok = vpAnd(ok, vpOr(c == '0', c == '1'))
		n = n<<1 | uint64(c&1)
	}
	return n, ok
}

func VP_P05_VarBitFromInt64() {
	x := vpI64()
	val, err := VarBitFromInt64(x).Value()
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "the value is not sent as NULL")
	n, ok := vpP05denotes(out)
	vpAssert(ok, "an integer is sent as a bit string")
	vpAssert(n == uint64(x), "an integer is sent as its own bits")
	vpReach("encoded")
}

func VP_P05_VarBitArrayFromInt64() {
	in := make([]int64, vpChoose(3))
	for i := range in {
		in[i] = vpI64()
		if i > 0 {
			vpAssume(vpAnd(in[i] > -3, in[i] < 17)) // only the first element spans the whole range
		}
	}
	got := vpEncoded(VarBitArrayFromInt64Slice(in), ',')
	vpAssert(len(got) == len(in), "every integer is one element")
	for i := range got {
		n, ok := vpP05denotes(got[i].val)
		vpAssert(ok, "an integer is sent as a bit string")
		vpAssert(n == uint64(in[i]), "an integer is sent as its own bits")
	}
}

// the first element has any number of bits up to 65, the second few: the first's end must not leak into it
func VP_P05_VarBitArrayToInt64() {
	es := make([]vpElem, vpChoose(3))
	want := make([]uint64, len(es))
	fits := true
	for i := range es {
		n := 1 + vpChoose(vpIteInt(i == 0, vpBound("bits", 65, 65), 2))
		for k := 0; k < n; k++ {
			es[i].val = append(es[i].val, vpBitStr(vpBool()))
		}
		var ok bool
		want[i], ok = vpP05denotes(es[i].val)
		fits = vpAnd(fits, ok)
	}
	got := []int64{7}
	err := VarBitArrayToInt64Slice(&got).Scan(vpSrc(vpArrayOut(es, ',')))
	vpReach("scanned")
	if err != nil {
		vpAssert(!fits, "every bit string of up to 64 bits is a number")
		return
	}
	vpAssert(fits, "a bit string that is not a 64-bit number is reported")
	vpAssert(len(got) == len(es), "every element is scanned exactly once")
	for i := range got {
		vpAssert(got[i] == int64(want[i]), "the number is exactly the bit string's")
	}
}

func VP_P05_VarBitToInt64() {
	n := vpBound("bits", 65, 65)
	text := make([]byte, vpChoose(n+1))
	for i := range text {
		text[i] = vpBitStr(vpBool())
	}
	want, fits := vpP05denotes(text)
	got := int64(-5)
	err := VarBitToInt64(&got).Scan(vpSrc(text))
	if err == nil {
		vpAssert(fits, "a bit string that is not a 64-bit number is reported")
		vpAssert(got == int64(want), "the number is exactly the bit string's")
	} else {
		vpAssert(!fits, "every bit string of up to 64 bits is a number")
		vpAssert(got == -5, "the target is unchanged on error")
	}
	vpReach("scanned")
}

func vpP05strs(maxElems, maxBits int, nulls bool) ([][]bool, []vpElem) {
	in := make([][]bool, vpChoose(maxElems+1))
	want := make([]vpElem, len(in))
	for i := range in {
		if nulls && vpBool() {
			want[i].null = true
			continue
		}
		bs, _, text := vpP05bools(maxBits)
		in[i], want[i].val = bs, text
	}
	return in, want
}

func VP_P05_VarBitArrayFrom() {
	in, want := vpP05strs(vpBound("elements", 3, 4), 2, true)
	if vpBool() {
		vpEncodes(VarBitArrayFromBoolSliceSlice(in), want)
		return
	}
	fs := make([][]uint8, len(in))
	for i := range in {
		if in[i] != nil {
			fs[i] = vpP05flags(in[i])
		}
	}
	vpEncodes(VarBitArrayFromUint8SliceSlice(fs), want)
}

func VP_P05_VarBitArrayFromStrings() {
	_, want := vpP05strs(vpBound("elements", 3, 4), 3, false)
	ss := make([]string, len(want))
	for i := range want {
		ss[i] = string(want[i].val)
	}
	vpEncodes(VarBitArrayFromStringSlice(ss), want)
}

func VP_P05_VarBitArrayTo() {
	in, want := vpP05strs(3, vpBound("bits", 3, 5), true)
	text := vpArrayOut(want, ',')
	switch vpChoose(3) {
	case 0:
		got := [][]bool{{true}}
		vpScanOK(VarBitArrayToBoolSliceSlice(&got), text)
		vpAssert(len(got) == len(in), "every element is scanned exactly once")
		for i := range got {
			vpAssert((got[i] == nil) == want[i].null, "exactly NULL elements are nil")
			vpAssert(len(got[i]) == len(in[i]), "every bit is scanned exactly once")
			for j := range got[i] {
				vpAssert(got[i][j] == in[i][j], "every bit is scanned exactly")
			}
		}
	case 1:
		got := [][]uint8{{1}}
		vpScanOK(VarBitArrayToUint8SliceSlice(&got), text)
		vpAssert(len(got) == len(in), "every element is scanned exactly once")
		for i := range got {
			vpAssert((got[i] == nil) == want[i].null, "exactly NULL elements are nil")
			vpAssert(len(got[i]) == len(in[i]), "every bit is scanned exactly once")
			for j := range got[i] {
				vpAssert(got[i][j] == vpIteByte(in[i][j], 1, 0), "every bit is scanned exactly")
			}
		}
	case 2:
		got := []string{"previous"}
		vpScanOK(VarBitArrayToStringSlice(&got), text)
		vpAssert(len(got) == len(in), "every element is scanned exactly once")
		for i := range got {
			vpAssert(got[i] == string(want[i].val), "every bit string is scanned exactly, NULL as empty")
		}
	}
}

func VP_P05_NilAndEmpty() {
	vpNilValue(BitArrayFromBoolSlice(nil), BitArrayFromUint8Slice(nil), BitArrayFromUintSlice(nil), BoolArrayFromBoolSlice(nil),
		VarBitFromBoolSlice(nil), VarBitFromUint8Slice(nil), VarBitArrayFromBoolSliceSlice(nil), VarBitArrayFromUint8SliceSlice(nil),
		VarBitArrayFromStringSlice(nil), VarBitArrayFromInt64Slice(nil))
	vpEmptyArray(BitArrayFromBoolSlice([]bool{}), BitArrayFromUint8Slice([]uint8{}), BitArrayFromUintSlice([]uint{}), BoolArrayFromBoolSlice([]bool{}),
		VarBitArrayFromBoolSliceSlice([][]bool{}), VarBitArrayFromUint8SliceSlice([][]uint8{}),
		VarBitArrayFromStringSlice([]string{}), VarBitArrayFromInt64Slice([]int64{}))
}

// VP_P05_Flags: whatever the numbers used as flags are, what's sent is a bit string that has 0 for 0 and 1 for 1.
func VP_P05_Flags() {
	fs := make([]uint8, 1+vpChoose(3))
	us := make([]uint, len(fs))
	for i := range fs {
		fs[i], us[i] = vpByte(), uint(vpU64())
	}
	is := func(b []byte, i int, zero, one bool) {
		c := b[i]
		vpAssert(vpOr(c == '0', c == '1'), "only zeros and ones are sent")
		vpAssert(vpOr(!zero, c == '0'), "0 is sent as 0")
		vpAssert(vpOr(!one, c == '1'), "1 is sent as 1")
	}
	switch vpChoose(2) {
	case 0:
		v, err := VarBitFromUint8Slice(fs).Value()
		b, ok := vpBytesOf(v)
		vpAssert(err == nil && ok && len(b) == len(fs), "every flag is one bit")
		if len(b) == len(fs) {
			for i := range b {
				is(b, i, fs[i] == 0, fs[i] == 1)
			}
		}
	case 1:
		k := vpChoose(3)
		val := BitArrayFromUint8Slice(fs)
		if k == 1 {
			val = BitArrayFromUintSlice(us)
		} else if k == 2 {
			val = VarBitArrayFromUint8SliceSlice([][]uint8{fs})
		}
		v, err := val.Value()
		b, ok := vpBytesOf(v)
		vpAssert(err == nil && ok, "encoding reports no error")
		elems, ok := vpArrayIn(b, ',')
		vpAssert(ok, "the array literal is well-formed")
		if k == 2 {
			vpAssert(len(elems) == 1 && len(elems[0].val) == len(fs), "every flag is one bit")
			if len(elems) == 1 && len(elems[0].val) == len(fs) {
				for i := range fs {
					is(elems[0].val, i, fs[i] == 0, fs[i] == 1)
				}
			}
			break
		}
		vpAssert(len(elems) == len(fs), "every flag is one element")
		if len(elems) == len(fs) {
			for i := range elems {
				vpAssert(len(elems[i].val) == 1, "every element is one bit")
				if k == 0 {
					is(elems[i].val, 0, fs[i] == 0, fs[i] == 1)
				} else {
					is(elems[i].val, 0, us[i] == 0, us[i] == 1)
				}
			}
		}
	}
	vpReach("encoded")
}
