package pgsql

import (
	"database/sql"
	"database/sql/driver"
)

func vpP03check(v driver.Valuer, want []vpPair) {
	val, err := v.Value()
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "a non-nil map is not sent as NULL")
	got, ok := vpHStoreIn(out)
	vpAssert(ok, "the hstore input is well-formed")
	vpAssert(vpPairsEq(got, want), "the hstore input denotes exactly the given pairs")
	vpReach("encoded")
}

func VP_P03_FromStringMap() {
	vpPermuteMaps(true)
	ps := vpPairs(2, 1, vpBound("bytes per value", 1, 2), false)
	vpP03check(HStoreFromStringMap(vpStringMap(ps)), ps)
}
func VP_P03_FromStringMapLong() {
	ps := vpPairs(1, vpBound("bytes per key", 2, 3), vpBound("bytes per value", 2, 3), false)
	vpP03check(HStoreFromStringMap(vpStringMap(ps)), ps)
}
func VP_P03_FromStringPtrMap() {
	vpPermuteMaps(true)
	ps := vpPairs(2, 1, vpBound("bytes per value", 1, 2), true)
	vpP03check(HStoreFromStringPtrMap(vpStringPtrMap(ps)), ps)
}
func VP_P03_FromStringPtrMapLong() {
	ps := vpPairs(1, vpBound("bytes per key", 2, 3), vpBound("bytes per value", 2, 3), true)
	vpP03check(HStoreFromStringPtrMap(vpStringPtrMap(ps)), ps)
}
func VP_P03_FromNullStringMap() {
	vpPermuteMaps(true)
	ps := vpPairs(2, 1, vpBound("bytes per value", 1, 2), true)
	vpP03check(HStoreFromNullStringMap(vpNullStringMap(ps)), ps)
}
func VP_P03_FromNullStringMapLong() {
	ps := vpPairs(1, vpBound("bytes per key", 2, 3), vpBound("bytes per value", 2, 3), true)
	vpP03check(HStoreFromNullStringMap(vpNullStringMap(ps)), ps)
}
func VP_P03_FromNilMap() {
	for _, v := range []driver.Valuer{HStoreFromStringMap(nil), HStoreFromStringPtrMap(nil), HStoreFromNullStringMap(nil)} {
		val, err := v.Value()
		vpAssert(val == nil && err == nil, "a nil map is sent as NULL")
	}
	vpReach("nil")
}

func vpP03scan(s sql.Scanner, ps []vpPair) {
	text := vpHStoreOut(ps)
	vpObs("text", text)
	vpAssert(s.Scan(vpSrc(text)) == nil, "scanning reports no error")
	vpReach("scanned")
}

func VP_P03_ToStringMap() {
	ps := vpPairs(2, vpBound("bytes per key", 1, 2), vpBound("bytes per value", 2, 3), true)
	m := map[string]string{"previous": "x"}
	vpP03scan(HStoreToStringMap(&m), ps)
	vpCheckStringMap(m, ps)
}
func VP_P03_ToStringMapThree() {
	ps := vpPairs(3, 1, 1, true)
	m := map[string]string{"previous": "x"}
	vpP03scan(HStoreToStringMap(&m), ps)
	vpCheckStringMap(m, ps)
}
func VP_P03_ToStringPtrMap() {
	ps := vpPairs(2, vpBound("bytes per key", 1, 2), vpBound("bytes per value", 2, 3), true)
	m := map[string]*string{"previous": nil}
	vpP03scan(HStoreToStringPtrMap(&m), ps)
	vpCheckStringPtrMap(m, ps)
}
func VP_P03_ToStringPtrMapLong() {
	ps := vpPairs(1, vpBound("bytes per key", 3, 4), vpBound("bytes per value", 5, 7), true)
	m := map[string]*string{"previous": nil}
	vpP03scan(HStoreToStringPtrMap(&m), ps)
	vpCheckStringPtrMap(m, ps)
}
func VP_P03_ToNullStringMap() {
	ps := vpPairs(2, vpBound("bytes per key", 1, 2), vpBound("bytes per value", 2, 3), true)
	m := map[string]sql.NullString{"previous": {}}
	vpP03scan(HStoreToNullStringMap(&m), ps)
	vpCheckNullStringMap(m, ps)
}
