package pgsql

import (
	"database/sql"
	"database/sql/driver"
)

// vpVecShape chooses up to two vectors of up to two elements.
func vpVecShape() []int {
	shape := make([]int, vpChoose(3))
	for i := range shape {
		shape[i] = vpChoose(3)
	}
	return shape
}

func vpVecArrFrom[T vpIntT](mk func([][]T) driver.Valuer) {
	shape := vpVecShape()
	in := make([][]T, len(shape))
	want := make([]vpElem, len(shape))
	n := 0
	for i := range in {
		in[i] = make([]T, shape[i])
		var vals [][]byte
		for j := range in[i] {
			if n == 0 {
				in[i][j] = vpAnyInt[T]()
			} else {
				d := vpU8()
				vpAssume(d < 10)
				in[i][j] = T(d)
			}
			n++
			vals = append(vals, vpDec(in[i][j]))
		}
		want[i].val = vpJoin("", vals, " ", "")
	}
	vpEncodes(mk(in), want)
	vpNilValue(mk(nil))
}

func vpVecArrTo[T vpIntT](mk func(*[][]T) sql.Scanner) {
	shape := vpVecShape()
	ns := make([][]vpNum, len(shape))
	es := make([]vpElem, len(shape))
	n, fits := 0, true
	for i := range ns {
		if shape[i] == 0 && vpBool() {
			es[i].null = true
			continue
		}
		ns[i] = make([]vpNum, shape[i])
		var vals [][]byte
		for j := range ns[i] {
			if n == 0 {
				ns[i][j] = vpColNum(2)
			} else {
				ns[i][j] = vpDigits(1 + j%2)
			}
			n++
			fits = vpAnd(fits, vpNumFits[T](ns[i][j]))
			vals = append(vals, ns[i][j].text())
		}
		es[i].val = vpJoin("", vals, " ", "")
	}
	text := vpArrayOut(es, ',')
	vpObs("text", text)
	got := [][]T{{7}}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	if err != nil {
		vpAssert(!fits, "an array whose integers fit the target is scanned")
		return
	}
	vpAssert(len(got) == len(ns), "every vector is scanned exactly once")
	if len(got) != len(ns) {
		return
	}
	for i := range ns {
		vpAssert(len(got[i]) == len(ns[i]), "every integer is scanned exactly once")
		if len(got[i]) == len(ns[i]) {
			for j := range ns[i] {
				vpAssert(vpNumIs(got[i][j], ns[i][j]), "every integer is scanned exactly or the scan reports an error")
			}
		}
	}
}
