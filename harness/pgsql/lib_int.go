package pgsql

import (
	"database/sql"
	"database/sql/driver"
	"strconv"
)

type vpIntT interface {
	int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64
}

func vpSigned[T vpIntT]() bool { var z T; return z-1 < 0 }

// vpDec is the decimal form of an integer.
func vpDec[T vpIntT](x T) []byte {
	if vpSigned[T]() {
		return strconv.AppendInt(nil, int64(x), 10)
	}
	return strconv.AppendUint(nil, uint64(x), 10)
}

func vpAnyInt[T vpIntT]() T {
	if vpSigned[T]() {
		return T(vpI64())
	}
	return T(vpU64())
}

// vpNum is a mathematical integer of a PostgreSQL column: its sign, magnitude and decimal digits.
type vpNum struct {
	neg bool
	mag uint64
	dig []byte
	frac bool // followed by .5 (numeric only)
}

// vpDigits returns an arbitrary integer of n digits in canonical form; more than 19 digits may exceed 64 bits.
func vpDigits(n int) vpNum {
	v := vpNum{dig: make([]byte, n)}
	for i := range v.dig {
		d := vpByte()
		vpAssume(d >= '0')
		vpAssume(d <= '9')
		v.dig[i] = d
		v.mag = v.mag*10 + uint64(d-'0')
	}
	if n > 1 {
		vpAssume(v.dig[0] != '0')
	}
	return v
}

// vpColNum returns an arbitrary integer of a column family: 2, 4 or 8 bytes, or 0 for numeric (any integer of up to 19
// digits and either sign).
func vpColNum(size int) vpNum {
	n, top := 19, uint64(1)<<63
	switch size {
	case 2:
		n, top = 5, 1<<15
	case 4:
		n, top = 10, 1<<31
	}
	v := vpDigits(1 + vpChoose(n))
	if size == 0 && len(v.dig) == 1 {
		v.frac = vpBool()
	}
	v.neg = vpBool()
	if v.neg {
		vpAssume(v.mag != 0)
		if size != 0 {
			vpAssume(v.mag <= top)
		}
	} else if size != 0 {
		vpAssume(v.mag < top)
	}
	return v
}

func (n vpNum) text() []byte {
	out := []byte{}
	if n.neg {
		out = append(out, '-')
	}
	out = append(out, n.dig...)
	if n.frac {
		out = append(out, ".5"...)
	}
	return out
}

// vpNumIs reports whether x is exactly n, vpNumFits whether n is in T's range.
func vpNumIs[T vpIntT](x T, n vpNum) bool {
	m := n.mag
	if n.neg {
		m = -m
	}
	return vpAnd(vpNumFits[T](n), x == T(m))
}

func vpBits[T vpIntT]() uint {
	var z T
	switch any(z).(type) {
	case int8, uint8:
		return 8
	case int16, uint16:
		return 16
	case int32, uint32:
		return 32
	}
	return 64
}

func vpNumFits[T vpIntT](n vpNum) bool {
	b := vpBits[T]()
	switch {
	case n.frac:
		return false
	case !vpSigned[T]() && n.neg:
		return false
	case !vpSigned[T]():
		return n.mag <= ^uint64(0)>>(64-b)
	case n.neg:
		return n.mag <= 1<<(b-1)
	}
	return n.mag < 1<<(b-1)
}

// vpPickNums returns a short list of integers of which one, at an arbitrary place, is arbitrary and the others small.
func vpPickNums(size, maxElems int) []vpNum {
	ns := make([]vpNum, vpChoose(maxElems+1))
	if len(ns) == 0 {
		return ns
	}
	p := vpChoose(len(ns))
	for i := range ns {
		if i == p {
			ns[i] = vpColNum(size)
		} else {
			ns[i] = vpDigits(1)
		}
	}
	return ns
}

func vpPickInts[T vpIntT](maxElems int) []T {
	xs := make([]T, vpChoose(maxElems+1))
	if len(xs) == 0 {
		return xs
	}
	p := vpChoose(len(xs))
	for i := range xs {
		if i == p {
			xs[i] = vpAnyInt[T]()
		} else {
			d := vpU8()
			vpAssume(d < 10)
			xs[i] = T(d)
		}
	}
	return xs
}

// vpJoin renders values separated by sep between open and close.
func vpJoin(open string, vals [][]byte, sep, close string) []byte {
	out := []byte(open)
	for i, v := range vals {
		if i > 0 {
			out = append(out, sep...)
		}
		out = append(out, v...)
	}
	return append(out, close...)
}

func vpIntArrFrom[T vpIntT](open, sep, close string, mk func([]T) driver.Valuer) {
	xs := vpPickInts[T](vpBound("elements", 2, 3))
	vals := make([][]byte, len(xs))
	for i := range xs {
		vals[i] = vpDec(xs[i])
	}
	vpScalar(mk(xs), vpJoin(open, vals, sep, close))
	vpNilValue(mk(nil))
}

func vpIntArrTo[T vpIntT](size int, open, sep, close string, mk func(*[]T) sql.Scanner) {
	ns := vpPickNums(size, vpBound("elements", 2, 3))
	fits := true
	vals := make([][]byte, len(ns))
	for i := range ns {
		vals[i] = ns[i].text()
		fits = vpAnd(fits, vpNumFits[T](ns[i]))
	}
	text := vpJoin(open, vals, sep, close)
	got := []T{7}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	if err != nil {
		vpAssert(!fits, "an array whose integers fit the target is scanned")
		return
	}
	vpAssert(len(got) == len(ns), "every integer is scanned exactly once")
	if len(got) == len(ns) {
		for i := range ns {
			vpAssert(vpNumIs(got[i], ns[i]), "every integer is scanned exactly or the scan reports an error")
		}
	}
}
