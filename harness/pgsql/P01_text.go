package pgsql

import "database/sql/driver"

func vpP01strings(mk func([]string) driver.Valuer, maxElems, maxLen int) {
	n := vpChoose(maxElems+2) - 1
	var in []string
	if n >= 0 {
		in = make([]string, n)
	}
	want := make([]vpElem, len(in))
	for i := range in {
		in[i] = vpString(vpChoose(maxLen + 1))
		want[i].val = []byte(in[i])
	}
	v, err := mk(in).Value()
	vpP01check(in == nil, want, v, err)
}

func vpP01bytes(mk func([][]byte) driver.Valuer, maxElems, maxLen int) {
	n := vpChoose(maxElems+2) - 1
	var in [][]byte
	if n >= 0 {
		in = make([][]byte, n)
	}
	want := make([]vpElem, len(in))
	for i := range in {
		if vpBool() {
			want[i].null = true
			continue
		}
		in[i] = vpBytes(vpChoose(maxLen + 1))
		want[i].val = append([]byte{}, in[i]...)
	}
	v, err := mk(in).Value()
	vpP01check(in == nil, want, v, err)
}

func vpP01check(isnil bool, want []vpElem, v driver.Value, err error) {
	vpAssert(err == nil, "encoding reports no error")
	if isnil {
		vpAssert(v == nil, "a nil slice is sent as NULL")
		vpReach("nil slice")
		return
	}
	out, ok := vpBytesOf(v)
	vpAssert(ok, "a non-nil slice is not sent as NULL")
	vpObs("out", out)
	got, ok := vpArrayIn(out, ',')
	vpAssert(ok, "the literal is well-formed")
	vpAssert(vpElemsEq(got, want), "the literal denotes exactly the given elements")
	vpReach("encoded")
}

func VP_P01_TextArrayFromStringSlice() {
	vpP01strings(TextArrayFromStringSlice, vpBound("elements", 2, 3), 2)
}

func VP_P01_TextArrayFromStringSliceLong() {
	vpP01strings(TextArrayFromStringSlice, 1, vpBound("bytes per element", 4, 5))
}

func VP_P01_TextArrayFromByteSliceSlice() {
	vpP01bytes(TextArrayFromByteSliceSlice, 2, 2)
}

func VP_P01_TextArrayFromByteSliceSliceLong() {
	vpP01bytes(TextArrayFromByteSliceSlice, 1, vpBound("bytes per element", 4, 5))
}

func VP_P01_VarCharArrayFromStringSlice() {
	vpP01strings(VarCharArrayFromStringSlice, 2, vpBound("bytes per element", 1, 2))
}

func VP_P01_VarCharArrayFromByteSliceSlice() {
	vpP01bytes(VarCharArrayFromByteSliceSlice, 2, vpBound("bytes per element", 1, 2))
}

func VP_P01_JSONArrayFromByteSliceSlice() {
	vpP01bytes(JSONArrayFromByteSliceSlice, 2, vpBound("bytes per element", 1, 2))
}

func VP_P01_JSONArrayFromByteSliceSliceLong() {
	vpP01bytes(JSONArrayFromByteSliceSlice, 1, vpBound("bytes per element", 4, 5))
}

func VP_P01_XMLArrayFromByteSliceSlice() {
	vpP01bytes(XMLArrayFromByteSliceSlice, 2, vpBound("bytes per element", 1, 2))
}

func VP_P01_XMLArrayFromByteSliceSliceLong() {
	vpP01bytes(XMLArrayFromByteSliceSlice, 1, vpBound("bytes per element", 4, 5))
}
