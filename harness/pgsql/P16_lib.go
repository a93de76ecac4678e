package pgsql

import (
	"database/sql"
	"database/sql/driver"
	"net"
	"time"
)

// vpFill instantiates one of the texts: # is an arbitrary digit, @ an arbitrary letter, % an arbitrary bit.
func vpFill(texts []string) []byte {
	t := texts[vpChoose(len(texts))]
	out := []byte(t)
	for i := range out {
		switch t[i] {
		case '#':
			out[i] = vpByte()
			vpAssume(vpAnd(out[i] >= '1', out[i] <= '9'))
		case '@':
			out[i] = vpByte()
			vpAssume(vpAnd(out[i] >= 'a', out[i] <= 'z'))
		case '%':
			out[i] = vpBitStr(vpBool())
		}
	}
	return out
}

const (
	vpKept  = ": scanning does not modify the driver's buffer"
	vpAlone = ": the target shares no memory with the driver's buffer"
	vpTwice = ": producing a value twice gives the same result"
	vpPure  = ": producing a value does not modify the Go value"
)

// vpScanned scans text into two targets, one of them from a buffer that the driver then reuses.
func vpScanned[T any](name string, mk func(*T) sql.Scanner, texts []string) (got, want T) {
	text := vpFill(texts)
	buf := append([]byte{}, text...)
	vpObs("text", text)
	err := mk(&got).Scan(buf)
	vpAssert(err == nil, name+": scanning reports no error")
	same := true
	for i := range buf {
		same = vpAnd(same, buf[i] == text[i])
	}
	vpAssert(same, name+vpKept)
	err = mk(&want).Scan(append([]byte{}, text...))
	vpAssert(err == nil, name+": scanning reports no error")
	for i := range buf {
		buf[i] = '~'
	}
	return got, want
}

func vpEqS[S ~[]E, E comparable](a, b S) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	r := true
	for i := range a {
		r = vpAnd(r, a[i] == b[i])
	}
	return r
}

func vpEqSS[S ~[]E, E comparable](a, b []S) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for i := range a {
		if !vpEqS(a[i], b[i]) {
			return false
		}
	}
	return true
}

func vpEqStr(x, y interface{}) bool {
	switch a := x.(type) {
	case string:
		return a == y.(string)
	case sql.NullString:
		return a == y.(sql.NullString)
	case *string:
		b := y.(*string)
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		return *a == *b
	}
	return false
}

func vpEqM[V any](a, b map[string]V) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || !vpEqStr(x, y) {
			return false
		}
	}
	return true
}

func vpEqNet(a, b net.IPNet) bool { return vpEqS(a.IP, b.IP) && vpEqS(a.Mask, b.Mask) }

func vpEqNets(a, b []net.IPNet) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for i := range a {
		if !vpEqNet(a[i], b[i]) {
			return false
		}
	}
	return true
}

func vpScanC[T comparable](name string, mk func(*T) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	vpAssert(got == want, name+vpAlone)
}

func vpScanS[S ~[]E, E comparable](name string, mk func(*S) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	vpAssert(vpEqS(got, want), name+vpAlone)
}

func vpScanSS[S ~[]E, E comparable](name string, mk func(*[]S) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	vpAssert(vpEqSS(got, want), name+vpAlone)
}

func vpScanSSS[E comparable](name string, mk func(*[][][]E) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	vpAssert(len(got) == len(want), name+vpAlone)
	for i := range got {
		vpAssert(vpEqSS(got[i], want[i]), name+vpAlone)
	}
}

func vpScanM[V any](name string, mk func(*map[string]V) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	vpAssert(vpEqM(got, want), name+vpAlone)
}

func vpScanSM[V any](name string, mk func(*[]map[string]V) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	vpAssert(len(got) == len(want), name+vpAlone)
	for i := range got {
		vpAssert(vpEqM(got[i], want[i]), name+vpAlone)
	}
}

func vpScanNet(name string, mk func(*net.IPNet) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	vpAssert(vpEqNet(got, want), name+vpAlone)
}

func vpScanNets(name string, mk func(*[]net.IPNet) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	vpAssert(vpEqNets(got, want), name+vpAlone)
}

func vpScanAny(name string, mk func(*interface{}) sql.Scanner, texts ...string) {
	got, want := vpScanned(name, mk, texts)
	a, _ := vpBytesOf(got)
	b, _ := vpBytesOf(want)
	vpAssert(string(a) == string(b), name+vpAlone)
}

// ---- producing values ----

func vpSmall() byte {
	b := vpByte()
	vpAssume(vpAnd(b >= 1, b <= 9))
	return b
}

// vpVal is value number i of a Go type, built around an arbitrary byte.
func vpVal[E any](i int, b byte) E {
	var z E
	switch p := any(&z).(type) {
	case *bool:
		*p = b&1 == 1
	case *byte:
		*p = b
	case *int:
		*p = int(b)
	case *int8:
		*p = int8(b)
	case *int16:
		*p = int16(b)
	case *int32:
		*p = int32(b)
	case *int64:
		*p = int64(b)
	case *uint:
		*p = uint(b)
	case *uint16:
		*p = uint16(b)
	case *uint32:
		*p = uint32(b)
	case *uint64:
		*p = uint64(b)
	case *float32:
		*p = float32(b)
	case *float64:
		*p = float64(b)
	case *string:
		*p = string([]byte{'0' + b, '"', '\\'})
	case *[16]byte:
		p[3] = b
	case *time.Time:
		*p = time.Date(2000+i, 1, 2, 3, 4, 5, 0, time.UTC)
	case *[2]time.Time:
		*p = [2]time.Time{time.Date(2000+i, 1, 2, 3, 4, 5, 0, time.UTC), time.Date(2010+i, 1, 2, 3, 4, 5, 0, time.UTC)}
	case *[2]int:
		*p = [2]int{int(b), 20}
	case *[2]int8:
		*p = [2]int8{int8(b), 20}
	case *[2]int16:
		*p = [2]int16{int16(b), 20}
	case *[2]int32:
		*p = [2]int32{int32(b), 20}
	case *[2]int64:
		*p = [2]int64{int64(b), 20}
	case *[2]uint:
		*p = [2]uint{uint(b), 20}
	case *[2]uint8:
		*p = [2]uint8{b, 20}
	case *[2]uint16:
		*p = [2]uint16{uint16(b), 20}
	case *[2]uint32:
		*p = [2]uint32{uint32(b), 20}
	case *[2]uint64:
		*p = [2]uint64{uint64(b), 20}
	case *[2]float32:
		*p = [2]float32{float32(b), 20}
	case *[2]float64:
		*p = [2]float64{float64(b), 20}
	case *[3]float64:
		*p = [3]float64{float64(b), 20, 30}
	case *[2][2]float64:
		*p = [2][2]float64{{float64(b), 20}, {30, 40}}
	default:
		panic("no value for this type")
	}
	return z
}

func vpValued(name string, mk func() driver.Valuer) {
	v := mk()
	a, err := v.Value()
	vpAssert(err == nil, "encoding reports no error")
	out, _ := vpBytesOf(a)
	first := append([]byte{}, out...)
	vpObs("out", first)
	b, err := v.Value()
	vpAssert(err == nil, "encoding reports no error")
	second, _ := vpBytesOf(b)
	c, err := mk().Value()
	vpAssert(err == nil, "encoding reports no error")
	third, _ := vpBytesOf(c)
	vpAssert(string(first) == string(second) && string(first) == string(third), name+vpTwice)
}

// vpS makes a slice with spare capacity, so that an append to it would show.
func vpS[S ~[]E, E any](n int, bs []byte) S {
	s := make(S, n, n+2)
	for i := range s {
		s[i] = vpVal[E](i, bs[i])
	}
	return s
}

func vpSeeds() []byte { return []byte{vpSmall(), 7, 8} }

func vpFromS[S ~[]E, E comparable](name string, mk func(S) driver.Valuer) {
	n := 1 + vpChoose(2)
	bs := vpSeeds()
	if any(*new(S)) != nil {
		switch any(*new(S)).(type) {
		case net.IP:
			n = 4
		case net.HardwareAddr:
			n = 6
		}
	}
	if n > 2 {
		bs = append(bs, 1, 2, 3, 4)
	}
	in, ref := vpS[S](n, bs), vpS[S](n, bs)
	vpValued(name, func() driver.Valuer { return mk(in) })
	vpAssert(vpEqS(in, ref), name+vpPure)
	var z E
	for _, e := range in[n : n+2] {
		vpAssert(e == z, name+vpPure)
	}
}

func vpFromSS[S ~[]E, E comparable](name string, mk func([]S) driver.Valuer) {
	n, m := 1+vpChoose(2), 2
	bs := vpSeeds()
	switch any(*new(S)).(type) {
	case net.IP:
		m = 4
	case net.HardwareAddr:
		m = 6
	case []byte:
		if name == "UUIDArrayFromByteSliceSlice" {
			m = 16
		}
	}
	for len(bs) < m {
		bs = append(bs, 9)
	}
	in, ref := make([]S, n, n+1), make([]S, n)
	for i := range in {
		in[i], ref[i] = vpS[S](m, bs), vpS[S](m, bs)
	}
	vpValued(name, func() driver.Valuer { return mk(in) })
	vpAssert(vpEqSS(in, ref), name+vpPure)
	var z E
	for i := range in {
		for _, e := range in[i][m : m+2] {
			vpAssert(e == z, name+vpPure)
		}
	}
}

func vpFromSSS[E comparable](name string, mk func([][][]E) driver.Valuer) {
	bs := vpSeeds()
	n := 1 + vpChoose(2)
	var in, ref [][][]E
	for i := 0; i < n; i++ {
		in = append(in, [][]E{vpS[[]E](2, bs)})
		ref = append(ref, [][]E{vpS[[]E](2, bs)})
	}
	vpValued(name, func() driver.Valuer { return mk(in) })
	for i := range in {
		vpAssert(vpEqSS(in[i], ref[i]), name+vpPure)
	}
}

func vpMap[V any](b byte) map[string]V {
	m := map[string]V{}
	var z V
	switch p := any(&z).(type) {
	case *string:
		*p = vpVal[string](0, b)
	case *sql.NullString:
		*p = sql.NullString{String: vpVal[string](0, b), Valid: true}
	case **string:
		s := vpVal[string](0, b)
		*p = &s
	}
	m["key"] = z
	return m
}

func vpFromM[V any](name string, mk func(map[string]V) driver.Valuer) {
	b := vpSmall()
	in, ref := vpMap[V](b), vpMap[V](b)
	vpValued(name, func() driver.Valuer { return mk(in) })
	vpAssert(vpEqM(in, ref), name+vpPure)
}

func vpFromSM[V any](name string, mk func([]map[string]V) driver.Valuer) {
	b := vpSmall()
	in, ref := []map[string]V{vpMap[V](b), nil}, vpMap[V](b)
	vpValued(name, func() driver.Valuer { return mk(in) })
	vpAssert(vpEqM(in[0], ref) && in[1] == nil, name+vpPure)
}

func vpFromNets(name string, mk func([]net.IPNet) driver.Valuer) {
	b := vpSmall()
	gen := func() []net.IPNet {
		return []net.IPNet{{IP: net.IP{10, b, 0, 0}, Mask: net.IPMask{255, 255, 0, 0}}, {IP: net.IP{1, 2, 3, 4}, Mask: net.IPMask{255, 255, 255, 255}}}
	}
	in := gen()
	vpValued(name, func() driver.Valuer { return mk(in) })
	vpAssert(vpEqNets(in, gen()), name+vpPure)
}
