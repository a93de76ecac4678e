package pgsql

import (
	"database/sql"
	"database/sql/driver"
)

func vpP04maps(maxMaps, maxPairs, maxKey, maxVal int, nulls bool) (maps [][]vpPair) {
	maps = make([][]vpPair, vpChoose(maxMaps+1))
	for i := range maps {
		if vpBool() {
			maps[i] = vpPairs(maxPairs, maxKey, maxVal, nulls)
		}
	}
	return maps
}

func vpP04check(v driver.Valuer, want [][]vpPair) {
	val, err := v.Value()
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "a non-nil slice is not sent as NULL")
	elems, ok := vpArrayIn(out, ',')
	vpAssert(ok, "the array literal is well-formed")
	vpAssert(len(elems) == len(want), "every map is one element")
	if len(elems) != len(want) {
		return
	}
	for i := range want {
		vpAssert(elems[i].null == (want[i] == nil), "exactly nil maps are NULL")
		if want[i] == nil || elems[i].null {
			continue
		}
		got, ok := vpHStoreIn(elems[i].val)
		vpAssert(ok, "the hstore input is well-formed")
		vpAssert(vpPairsEq(got, want[i]), "the hstore input denotes exactly the given pairs")
	}
	vpReach("encoded")
}

func vpP04fromString(ms [][]vpPair) driver.Valuer {
	in := make([]map[string]string, len(ms))
	for i, ps := range ms {
		if ps != nil {
			in[i] = vpStringMap(ps)
		}
	}
	return HStoreArrayFromStringMapSlice(in)
}

func vpP04fromStringPtr(ms [][]vpPair) driver.Valuer {
	in := make([]map[string]*string, len(ms))
	for i, ps := range ms {
		if ps != nil {
			in[i] = vpStringPtrMap(ps)
		}
	}
	return HStoreArrayFromStringPtrMapSlice(in)
}

func vpP04fromNullString(ms [][]vpPair) driver.Valuer {
	in := make([]map[string]sql.NullString, len(ms))
	for i, ps := range ms {
		if ps != nil {
			in[i] = vpNullStringMap(ps)
		}
	}
	return HStoreArrayFromNullStringMapSlice(in)
}

func VP_P04_FromStringMap() {
	ms := vpP04maps(2, 1, 1, 1, false)
	vpP04check(vpP04fromString(ms), ms)
}
func VP_P04_FromStringMapPairs() {
	vpPermuteMaps(true)
	ms := vpP04maps(1, 2, 1, vpBound("bytes per value", 1, 2), false)
	vpP04check(vpP04fromString(ms), ms)
}
func VP_P04_FromStringPtrMap() {
	ms := vpP04maps(2, 1, 1, 1, true)
	vpP04check(vpP04fromStringPtr(ms), ms)
}
func VP_P04_FromStringPtrMapPairs() {
	vpPermuteMaps(true)
	ms := vpP04maps(1, 2, 1, vpBound("bytes per value", 1, 2), true)
	vpP04check(vpP04fromStringPtr(ms), ms)
}
func VP_P04_FromNullStringMap() {
	ms := vpP04maps(2, 1, 1, 1, true)
	vpP04check(vpP04fromNullString(ms), ms)
}
func VP_P04_FromNullStringMapPairs() {
	vpPermuteMaps(true)
	ms := vpP04maps(1, 2, 1, vpBound("bytes per value", 1, 2), true)
	vpP04check(vpP04fromNullString(ms), ms)
}
func VP_P04_FromNil() {
	for _, v := range []driver.Valuer{HStoreArrayFromStringMapSlice(nil), HStoreArrayFromStringPtrMapSlice(nil), HStoreArrayFromNullStringMapSlice(nil)} {
		val, err := v.Value()
		vpAssert(val == nil && err == nil, "a nil slice is sent as NULL")
	}
	vpReach("nil")
}

func vpP04text(ms [][]vpPair) []byte {
	elems := make([]vpElem, len(ms))
	for i, ps := range ms {
		if ps == nil {
			elems[i].null = true
		} else {
			elems[i].val = vpHStoreOut(ps)
		}
	}
	return vpArrayOut(elems, ',')
}

func vpP04scan(s sql.Scanner, ms [][]vpPair) {
	text := vpP04text(ms)
	vpObs("text", text)
	vpAssert(s.Scan(vpSrc(text)) == nil, "scanning reports no error")
	vpReach("scanned")
}

func VP_P04_ToStringMap() {
	ms := vpP04maps(2, 2, 1, 1, true)
	got := []map[string]string{nil}
	vpP04scan(HStoreArrayToStringMapSlice(&got), ms)
	vpAssert(got != nil, "an array that is not NULL gives a non-nil slice")
	vpAssert(len(got) == len(ms), "every map is scanned exactly once")
	if len(got) == len(ms) {
		for i := range ms {
			vpAssert((got[i] == nil) == (ms[i] == nil), "exactly NULL elements are nil maps")
			vpCheckStringMap(got[i], ms[i])
		}
	}
}
func VP_P04_ToStringPtrMap() {
	ms := vpP04maps(2, 2, 1, 1, true)
	got := []map[string]*string{nil}
	vpP04scan(HStoreArrayToStringPtrMapSlice(&got), ms)
	vpAssert(got != nil, "an array that is not NULL gives a non-nil slice")
	vpAssert(len(got) == len(ms), "every map is scanned exactly once")
	if len(got) == len(ms) {
		for i := range ms {
			vpAssert((got[i] == nil) == (ms[i] == nil), "exactly NULL elements are nil maps")
			vpCheckStringPtrMap(got[i], ms[i])
		}
	}
}
func VP_P04_ToStringPtrMapLong() {
	ms := vpP04maps(1, 1, vpBound("bytes per key", 3, 4), vpBound("bytes per value", 3, 4), true)
	got := []map[string]*string{nil}
	vpP04scan(HStoreArrayToStringPtrMapSlice(&got), ms)
	vpAssert(len(got) == len(ms), "every map is scanned exactly once")
	if len(got) == len(ms) {
		for i := range ms {
			vpAssert((got[i] == nil) == (ms[i] == nil), "exactly NULL elements are nil maps")
			vpCheckStringPtrMap(got[i], ms[i])
		}
	}
}
func VP_P04_ToNullStringMap() {
	ms := vpP04maps(2, 2, 1, 1, true)
	got := []map[string]sql.NullString{nil}
	vpP04scan(HStoreArrayToNullStringMapSlice(&got), ms)
	vpAssert(got != nil, "an array that is not NULL gives a non-nil slice")
	vpAssert(len(got) == len(ms), "every map is scanned exactly once")
	if len(got) == len(ms) {
		for i := range ms {
			vpAssert((got[i] == nil) == (ms[i] == nil), "exactly NULL elements are nil maps")
			vpCheckNullStringMap(got[i], ms[i])
		}
	}
}
