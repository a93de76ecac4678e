package pgsql

import (
	"database/sql"
	"database/sql/driver"
)

// vpRng is a range column value: an empty range, or two bounds each of which may be missing.
type vpRng struct {
	null, empty  bool
	noLo, noHi   bool
	lo, hi       vpNum
	incLo, incHi bool
}

// vpAnyRng returns an arbitrary range in PostgreSQL's canonical form; deep makes one bound an arbitrary number of the column's
// subtype, the other numbers have one digit.
func vpAnyRng(size int, deep bool) vpRng {
	r := vpRng{incLo: true}
	kinds := 5
	if !deep {
		kinds = 2 // empty or bounded
	}
	switch kind := vpChoose(kinds); kind {
	case 0:
		r.empty = true
		return r
	case 2:
		r.noLo = true
	case 4:
		r.noHi = true
	case 3:
		r.noLo, r.noHi = true, true
	}
	which := 2
	if deep {
		which = vpChoose(2)
	}
	if !r.noLo {
		if which == 0 {
			r.lo = vpColNum(size)
		} else {
			r.lo = vpDigits(1)
		}
	} else {
		r.incLo = false
	}
	if !r.noHi {
		if which == 1 {
			r.hi = vpColNum(size)
		} else {
			r.hi = vpDigits(1)
		}
		if size == 0 && deep {
			r.incHi = vpBool()
		}
	}
	if size == 0 && !r.noLo {
		r.incLo = vpBool()
	}
	return r
}

// text is PostgreSQL's output form.
func (r vpRng) text() []byte {
	if r.empty {
		return []byte("empty")
	}
	out := []byte{'('}
	if r.incLo {
		out[0] = '['
	}
	if !r.noLo {
		out = append(out, r.lo.text()...)
	}
	out = append(out, ',')
	if !r.noHi {
		out = append(out, r.hi.text()...)
	}
	if r.incHi {
		return append(out, ']')
	}
	return append(out, ')')
}

func vpRngFits[T vpIntT](r vpRng) bool {
	ok := true
	if !r.empty && !r.noLo {
		ok = vpAnd(ok, vpNumFits[T](r.lo))
	}
	if !r.empty && !r.noHi {
		ok = vpAnd(ok, vpNumFits[T](r.hi))
	}
	return ok
}

func vpRngIs[T vpIntT](got [2]T, r vpRng) {
	if r.null || r.empty {
		vpAssert(vpAnd(got[0] == 0, got[1] == 0), "an empty range is scanned as zero bounds")
		return
	}
	if r.noLo {
		vpAssert(got[0] == 0, "a missing lower bound is scanned as zero")
	} else {
		vpAssert(vpNumIs(got[0], r.lo), "the lower bound is scanned exactly or the scan reports an error")
	}
	if r.noHi {
		vpAssert(got[1] == 0, "a missing upper bound is scanned as zero")
	} else {
		vpAssert(vpNumIs(got[1], r.hi), "the upper bound is scanned exactly or the scan reports an error")
	}
}

func vpRngText[T vpIntT](v [2]T) []byte {
	return vpJoin("[", [][]byte{vpDec(v[0]), vpDec(v[1])}, ",", ")")
}

func vpRngFrom[T vpIntT](mk func([2]T) driver.Valuer) {
	var in [2]T
	p := vpChoose(2)
	in[p] = vpAnyInt[T]()
	d := vpU8()
	vpAssume(d < 10)
	in[1-p] = T(d)
	vpScalar(mk(in), vpRngText(in))
}

func vpRngTo[T vpIntT](size int, mk func(*[2]T) sql.Scanner) {
	r := vpAnyRng(size, true)
	got := [2]T{7, 7}
	err := mk(&got).Scan(vpSrc(r.text()))
	vpReach("scanned")
	if err != nil {
		vpAssert(!vpRngFits[T](r), "a range whose bounds fit the target is scanned")
		return
	}
	vpRngIs(got, r)
}

func vpRngArrFrom[T vpIntT](mk func([][2]T) driver.Valuer) {
	n := vpChoose(vpBound("elements", 2, 3) + 1)
	in := make([][2]T, n)
	want := make([]vpElem, n)
	for i := range in {
		if i == n-1 {
			in[i][0], in[i][1] = 3, vpAnyInt[T]()
		} else {
			d := vpU8()
			vpAssume(d < 10)
			in[i][0], in[i][1] = T(d), 5
		}
		want[i].val = vpRngText(in[i])
	}
	vpEncodes(mk(in), want)
	vpNilValue(mk(nil))
}

func vpRngArrTo[T vpIntT](size int, mk func(*[][2]T) sql.Scanner) {
	n := vpChoose(vpBound("elements", 2, 3) + 1)
	rs := make([]vpRng, n)
	es := make([]vpElem, n)
	null, fits := false, true
	for i := range rs {
		if vpBool() {
			rs[i].null, es[i].null, null = true, true, true
			continue
		}
		rs[i] = vpAnyRng(size, i == n-1)
		fits = vpAnd(fits, vpRngFits[T](rs[i]))
		es[i].val = rs[i].text()
	}
	text := vpArrayOut(es, ',')
	vpObs("text", text)
	got := [][2]T{{7, 7}}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	if err != nil {
		vpAssert(vpOr(null, !fits), "a range array whose bounds fit the target is scanned")
		return
	}
	vpAssert(len(got) == n, "every range is scanned exactly once")
	if len(got) == n {
		for i := range rs {
			vpRngIs(got[i], rs[i])
		}
	}
}
