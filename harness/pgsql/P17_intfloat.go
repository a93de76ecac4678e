package pgsql

import (
	"database/sql"
	"database/sql/driver"
)

// vpWhole returns an arbitrary integer which float type T and an integer column of size bytes hold exactly, with its text.
func vpWhole[T vpFloatT](size int) ([]byte, T) {
	max := 15
	if vpWidth[T]() == 32 {
		max = 7
	}
	lim := map[int]int{2: 5, 4: 10, 8: 19}[size]
	if lim < max {
		max = lim
	}
	n := vpDigits(1 + vpChoose(vpBound("whole digits", max, max)))
	n.neg = vpBool()
	if n.neg {
		vpAssume(n.mag != 0)
	}
	if size < 8 {
		vpAssume(n.mag < uint64(1)<<(8*uint(size)-1))
	}
	if vpWidth[T]() == 32 {
		vpAssume(n.mag < 1<<24)
	}
	v := int64(n.mag)
	if n.neg {
		v = -v
	}
	return n.text(), T(v)
}

func vpWholes[T vpFloatT](size int) ([][]byte, []T) {
	n := vpChoose(vpBound("elements", 2, 3) + 1)
	texts, vals := make([][]byte, n), make([]T, n)
	for i := range vals {
		if i == n-1 {
			texts[i], vals[i] = vpWhole[T](size)
		} else {
			texts[i], vals[i] = []byte("-61"), -61
		}
	}
	return texts, vals
}

func vpWholeFrom[T vpFloatT](size int, mk func([]T) driver.Valuer) {
	texts, vals := vpWholes[T](size)
	want := make([]vpElem, len(texts))
	for i := range texts {
		want[i].val = texts[i]
	}
	vpEncodes(mk(vals), want)
	vpNilValue(mk(nil))
}

func vpWholeTo[T vpFloatT](size int, mk func(*[]T) sql.Scanner) {
	texts, vals := vpWholes[T](size)
	es := make([]vpElem, len(texts))
	for i := range texts {
		es[i].val = texts[i]
	}
	got := []T{7}
	err := mk(&got).Scan(vpSrc(vpArrayOut(es, ',')))
	vpReach("scanned")
	vpAssert(err == nil, "an array of integers is scanned into floats")
	vpAssert(len(got) == len(vals), "every integer is scanned exactly once")
	if len(got) == len(vals) {
		for i := range got {
			vpAssert(got[i] == vals[i], "every integer is scanned exactly and in its place")
		}
	}
}

func VP_P17_IntArrays() {
	switch vpChoose(12) {
	case 0:
		vpWholeFrom(2, Int2ArrayFromFloat32Slice)
	case 1:
		vpWholeFrom(2, Int2ArrayFromFloat64Slice)
	case 2:
		vpWholeFrom(4, Int4ArrayFromFloat32Slice)
	case 3:
		vpWholeFrom(4, Int4ArrayFromFloat64Slice)
	case 4:
		vpWholeFrom(8, Int8ArrayFromFloat32Slice)
	case 5:
		vpWholeFrom(8, Int8ArrayFromFloat64Slice)
	case 6:
		vpWholeTo(2, Int2ArrayToFloat32Slice)
	case 7:
		vpWholeTo(2, Int2ArrayToFloat64Slice)
	case 8:
		vpWholeTo(4, Int4ArrayToFloat32Slice)
	case 9:
		vpWholeTo(4, Int4ArrayToFloat64Slice)
	case 10:
		vpWholeTo(8, Int8ArrayToFloat32Slice)
	default:
		vpWholeTo(8, Int8ArrayToFloat64Slice)
	}
}

func vpVectorFrom[T vpFloatT](mk func([]T) driver.Valuer) {
	texts, vals := vpWholes[T](2)
	vpScalar(mk(vals), vpJoin("", texts, " ", ""))
	vpNilValue(mk(nil))
}

func vpVectorTo[T vpFloatT](mk func(*[]T) sql.Scanner) {
	texts, vals := vpWholes[T](2)
	got := []T{7}
	err := mk(&got).Scan(vpSrc(vpJoin("", texts, " ", "")))
	vpReach("scanned")
	vpAssert(err == nil, "an int2vector is scanned into floats")
	vpAssert(len(got) == len(vals), "every integer is scanned exactly once")
	if len(got) == len(vals) {
		for i := range got {
			vpAssert(got[i] == vals[i], "every integer is scanned exactly and in its place")
		}
	}
}

func VP_P17_Int2Vector() {
	switch vpChoose(4) {
	case 0:
		vpVectorFrom(Int2VectorFromFloat32Slice)
	case 1:
		vpVectorFrom(Int2VectorFromFloat64Slice)
	case 2:
		vpVectorTo(Int2VectorToFloat32Slice)
	default:
		vpVectorTo(Int2VectorToFloat64Slice)
	}
}

func vpWholeRngFrom[T vpFloatT](size int, mk func([2]T) driver.Valuer) {
	p := vpChoose(2)
	texts, vals := [][]byte{[]byte("31"), []byte("31")}, [2]T{31, 31}
	texts[p], vals[p] = vpWhole[T](size)
	vpScalar(mk(vals), vpJoin("[", texts, ",", ")"))
}

func vpWholeRngTo[T vpFloatT](size int, mk func(*[2]T) sql.Scanner) {
	p := vpChoose(2)
	texts, vals := [][]byte{[]byte("31"), []byte("31")}, [2]T{31, 31}
	texts[p], vals[p] = vpWhole[T](size)
	text := vpJoin("[", texts, ",", ")")
	switch vpChoose(4) {
	case 0:
		text, vals = []byte("empty"), [2]T{}
	case 1:
		texts[1], vals[1] = nil, 0
		text = vpJoin("[", texts, ",", ")")
	case 2:
		texts[0], vals[0] = nil, 0
		text = vpJoin("(", texts, ",", ")")
	}
	got := [2]T{7, 7}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	vpAssert(err == nil, "an integer range is scanned into floats")
	vpAssert(vpAnd(got[0] == vals[0], got[1] == vals[1]), "both bounds are scanned exactly")
}

func VP_P17_IntRanges() {
	switch vpChoose(8) {
	case 0:
		vpWholeRngFrom(4, Int4RangeFromFloat32Array2)
	case 1:
		vpWholeRngFrom(4, Int4RangeFromFloat64Array2)
	case 2:
		vpWholeRngFrom(8, Int8RangeFromFloat32Array2)
	case 3:
		vpWholeRngFrom(8, Int8RangeFromFloat64Array2)
	case 4:
		vpWholeRngTo(4, Int4RangeToFloat32Array2)
	case 5:
		vpWholeRngTo(4, Int4RangeToFloat64Array2)
	case 6:
		vpWholeRngTo(8, Int8RangeToFloat32Array2)
	default:
		vpWholeRngTo(8, Int8RangeToFloat64Array2)
	}
}
