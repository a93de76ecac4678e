package pgsql

import (
	"database/sql"
	"database/sql/driver"
	"strconv"
)

type vpFloatT interface{ float32 | float64 }

func vpWidth[T vpFloatT]() int {
	var z T
	if _, ok := any(z).(float32); ok {
		return 32
	}
	return 64
}

// vpAnyFloat returns an arbitrary float of a column with its text: an integer, a decimal fraction, one with an exponent (only
// as read from the database) or infinity. Kind 2 fractions are not representable in binary.
func vpAnyFloat[T vpFloatT](exp bool) ([]byte, T) {
	var c vpCoord
	if vpWidth[T]() == 64 {
		c = vpAnyCoord(exp)
		return c.text, T(c.val)
	}
	text := []byte{}
	if vpBool() {
		text = append(text, '-')
	}
	d := vpDigits(1 + vpChoose(vpBound("float digits", 2, 5)))
	vpAssume(d.mag != 0)
	text = append(text, d.text()...)
	if exp && vpBool() {
		text = append(text, '.')
		f := vpDigits(1)
		vpAssume(f.mag != 0)
		text = append(text, f.text()...)
	}
	f, err := strconv.ParseFloat(string(text), 32)
	vpAssume(err == nil)
	return text, T(f)
}

func vpFloatsIn[T vpFloatT](exp bool) ([][]byte, []T) {
	n := vpChoose(vpBound("elements", 2, 3) + 1)
	texts, vals := make([][]byte, n), make([]T, n)
	if n == 0 {
		return texts, vals
	}
	p := vpChoose(n)
	for i := range vals {
		if i == p {
			texts[i], vals[i] = vpAnyFloat[T](exp)
			continue
		}
		// the others take most digits the type has (a float32 may be sent with the digits of the same float64)
		text := []string{"1.5", "-16777215", "2.25"}[i]
		if vpWidth[T]() == 64 {
			text = []string{"123456789.1234567", "-0.1", "9007199254740991"}[i]
		}
		f, _ := strconv.ParseFloat(text, vpWidth[T]())
		texts[i], vals[i] = []byte(text), T(f)
	}
	return texts, vals
}

func vpFloatArrFrom[T vpFloatT](mk func([]T) driver.Valuer) {
	texts, vals := vpFloatsIn[T](false)
	want := make([]vpElem, len(texts))
	for i := range texts {
		want[i].val = texts[i]
	}
	vpEncodes(mk(vals), want)
	vpNilValue(mk(nil))
}

func vpFloatArrTo[T vpFloatT](mk func(*[]T) sql.Scanner) {
	texts, vals := vpFloatsIn[T](true)
	es := make([]vpElem, len(texts))
	null := false
	for i := range texts {
		es[i].val = texts[i]
		if i == 0 && vpBool() {
			es[i].null, null = true, true
			vals[i] = 0
		}
	}
	text := vpArrayOut(es, ',')
	vpObs("text", text)
	got := []T{7}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	if err != nil {
		vpAssert(null, "an array of floats is scanned")
		return
	}
	vpAssert(len(got) == len(vals), "every float is scanned exactly once")
	if len(got) == len(vals) {
		for i := range got {
			vpAssert(got[i] == vals[i], "every float is scanned exactly and in its place")
		}
	}
}

func VP_P17_Float4From() {
	if vpBool() {
		vpFloatArrFrom(Float4ArrayFromFloat64Slice)
	} else {
		vpFloatArrFrom(Float4ArrayFromFloat32Slice)
	}
}
func VP_P17_Float8From() {
	if vpBool() {
		vpFloatArrFrom(Float8ArrayFromFloat64Slice)
	} else {
		vpFloatArrFrom(Float8ArrayFromFloat32Slice)
	}
}
func VP_P17_NumericFrom() {
	if vpBool() {
		vpFloatArrFrom(NumericArrayFromFloat64Slice)
	} else {
		vpFloatArrFrom(NumericArrayFromFloat32Slice)
	}
}
func VP_P17_Float4To() {
	if vpBool() {
		vpFloatArrTo(Float4ArrayToFloat64Slice)
	} else {
		vpFloatArrTo(Float4ArrayToFloat32Slice)
	}
}
func VP_P17_Float8To() {
	if vpBool() {
		vpFloatArrTo(Float8ArrayToFloat64Slice)
	} else {
		vpFloatArrTo(Float8ArrayToFloat32Slice)
	}
}
func VP_P17_NumericTo() {
	if vpBool() {
		vpFloatArrTo(NumericArrayToFloat64Slice)
	} else {
		vpFloatArrTo(NumericArrayToFloat32Slice)
	}
}

// vpFBound is a bound of a numeric range.
func vpFBounds[T vpFloatT](exp bool) ([2][]byte, [2]T) {
	var texts [2][]byte
	var vals [2]T
	p := vpChoose(2)
	texts[p], vals[p] = vpAnyFloat[T](false)
	texts[1-p], vals[1-p] = []byte("4.75"), 4.75
	return texts, vals
}

func vpNumRngFrom[T vpFloatT](mk func([2]T) driver.Valuer) {
	texts, vals := vpFBounds[T](false)
	vpScalar(mk(vals), vpJoin("[", texts[:], ",", ")"))
}

// vpRngOut is PostgreSQL's text of a numeric range which may be empty or lack bounds; the bounds a converter then gives are zero.
func vpRngOut[T vpFloatT]() ([]byte, [2]T) {
	texts, vals := vpFBounds[T](true)
	open, closing := "(", ")"
	if vpBool() {
		open = "["
	}
	if vpBool() {
		closing = "]"
	}
	switch vpChoose(4) {
	case 0:
		return []byte("empty"), [2]T{}
	case 1:
		texts[0], vals[0], open = nil, 0, "("
	case 2:
		texts[1], vals[1], closing = nil, 0, ")"
	}
	return vpJoin(open, texts[:], ",", closing), vals
}

func vpNumRngTo[T vpFloatT](mk func(*[2]T) sql.Scanner) {
	text, vals := vpRngOut[T]()
	vpObs("text", text)
	got := [2]T{7, 7}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	vpAssert(err == nil, "a numeric range is scanned")
	if err == nil {
		vpAssert(vpAnd(got[0] == vals[0], got[1] == vals[1]), "both bounds are scanned exactly")
	}
}

func vpNumRngArrFrom[T vpFloatT](mk func([][2]T) driver.Valuer) {
	n := vpChoose(vpBound("ranges", 2, 3) + 1)
	in := make([][2]T, n)
	want := make([]vpElem, n)
	for i := range in {
		texts := [2][]byte{[]byte("0.5"), []byte("8")}
		in[i] = [2]T{0.5, 8}
		if i == n-1 {
			texts, in[i] = vpFBounds[T](false)
		}
		want[i].val = vpJoin("[", texts[:], ",", ")")
	}
	vpEncodes(mk(in), want)
	vpNilValue(mk(nil))
}

func vpNumRngArrTo[T vpFloatT](mk func(*[][2]T) sql.Scanner) {
	n := vpChoose(vpBound("ranges", 2, 3) + 1)
	es := make([]vpElem, n)
	vals := make([][2]T, n)
	null := false
	for i := range es {
		if i == n-1 {
			es[i].val, vals[i] = vpRngOut[T]()
		} else {
			es[i].val, vals[i] = []byte("[0.5,8)"), [2]T{0.5, 8}
		}
		if i == 0 && vpBool() {
			es[i].null, vals[i], null = true, [2]T{}, true
		}
	}
	text := vpArrayOut(es, ',')
	vpObs("text", text)
	got := [][2]T{{7, 7}}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	if err != nil {
		vpAssert(null, "an array of numeric ranges is scanned")
		return
	}
	vpAssert(len(got) == n, "every range is scanned exactly once")
	if len(got) == n {
		for i := range got {
			vpAssert(vpAnd(got[i][0] == vals[i][0], got[i][1] == vals[i][1]), "both bounds are scanned exactly")
		}
	}
}

func VP_P17_NumRange() {
	switch vpChoose(4) {
	case 0:
		vpNumRngFrom(NumRangeFromFloat64Array2)
	case 1:
		vpNumRngFrom(NumRangeFromFloat32Array2)
	case 2:
		vpNumRngTo(NumRangeToFloat64Array2)
	default:
		vpNumRngTo(NumRangeToFloat32Array2)
	}
}

func VP_P17_NumRangeArray() {
	switch vpChoose(4) {
	case 0:
		vpNumRngArrFrom(NumRangeArrayFromFloat64Array2Slice)
	case 1:
		vpNumRngArrFrom(NumRangeArrayFromFloat32Array2Slice)
	case 2:
		vpNumRngArrTo(NumRangeArrayToFloat64Array2Slice)
	default:
		vpNumRngArrTo(NumRangeArrayToFloat32Array2Slice)
	}
}
