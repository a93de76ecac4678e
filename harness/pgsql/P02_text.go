package pgsql

import "database/sql"

// vpP02elems builds arbitrary array elements.
func vpP02elems(maxElems, maxLen int, nulls bool) []vpElem {
	n := vpChoose(maxElems + 1)
	elems := make([]vpElem, n)
	for i := range elems {
		if nulls && vpBool() {
			elems[i].null = true
			continue
		}
		elems[i].val = vpBytes(vpChoose(maxLen + 1))
	}
	return elems
}

func vpP02strings(mk func(*[]string) sql.Scanner, elems []vpElem) {
	text := vpArrayOut(elems, ',')
	vpObs("text", text)
	got := []string{"previous"}
	err := mk(&got).Scan(vpSrc(text))
	vpAssert(err == nil, "scanning reports no error")
	vpAssert(got != nil, "an array that is not NULL gives a non-nil slice")
	vpAssert(len(got) == len(elems), "every element is scanned exactly once")
	if len(got) == len(elems) {
		for i := range elems {
			vpAssert(got[i] == string(elems[i].val), "every element is decoded exactly")
		}
	}
	vpReach("scanned")
}

func vpP02bytes(mk func(*[][]byte) sql.Scanner, elems []vpElem) {
	text := vpArrayOut(elems, ',')
	vpObs("text", text)
	got := [][]byte{[]byte("previous")}
	err := mk(&got).Scan(vpSrc(text))
	vpAssert(err == nil, "scanning reports no error")
	vpAssert(got != nil, "an array that is not NULL gives a non-nil slice")
	vpAssert(len(got) == len(elems), "every element is scanned exactly once")
	if len(got) == len(elems) {
		for i := range elems {
			if elems[i].null {
				vpAssert(got[i] == nil, "a NULL element is decoded as nil")
				continue
			}
			vpAssert(got[i] != nil, "an element that is not NULL is decoded as non-nil")
			vpAssert(string(got[i]) == string(elems[i].val), "every element is decoded exactly")
		}
	}
	vpReach("scanned")
}

func VP_P02_TextArrayToStringSlice() {
	vpP02strings(TextArrayToStringSlice, vpP02elems(vpBound("elements", 3, 4), 2, false))
}
func VP_P02_TextArrayToStringSliceLong() {
	vpP02strings(TextArrayToStringSlice, vpP02elems(1, vpBound("bytes per element", 7, 9), false))
}
func VP_P02_TextArrayToByteSliceSlice() {
	vpP02bytes(TextArrayToByteSliceSlice, vpP02elems(2, 2, true))
}
func VP_P02_TextArrayToByteSliceSliceLong() {
	vpP02bytes(TextArrayToByteSliceSlice, vpP02elems(1, vpBound("bytes per element", 7, 9), true))
}
func VP_P02_VarCharArrayToStringSlice() {
	vpP02strings(VarCharArrayToStringSlice, vpP02elems(2, vpBound("bytes per element", 2, 3), false))
}
func VP_P02_VarCharArrayToByteSliceSlice() {
	vpP02bytes(VarCharArrayToByteSliceSlice, vpP02elems(2, vpBound("bytes per element", 2, 3), true))
}
func VP_P02_JSONArrayToByteSliceSlice() {
	vpP02bytes(JSONArrayToByteSliceSlice, vpP02elems(2, vpBound("bytes per element", 2, 3), true))
}
func VP_P02_JSONArrayToByteSliceSliceLong() {
	vpP02bytes(JSONArrayToByteSliceSlice, vpP02elems(1, vpBound("bytes per element", 7, 9), true))
}
func VP_P02_XMLArrayToByteSliceSlice() {
	vpP02bytes(XMLArrayToByteSliceSlice, vpP02elems(2, vpBound("bytes per element", 2, 3), true))
}
func VP_P02_XMLArrayToByteSliceSliceLong() {
	vpP02bytes(XMLArrayToByteSliceSlice, vpP02elems(1, vpBound("bytes per element", 7, 9), true))
}
