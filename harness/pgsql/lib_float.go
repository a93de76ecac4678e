package pgsql

import "strconv"

// vpCoord is a coordinate: its PostgreSQL text and value.
type vpCoord struct {
	text []byte
	val  float64
}

// vpAnyCoord returns an arbitrary coordinate: an integer, a decimal fraction or (when exp) a number with an exponent, of either
// sign; or one of PostgreSQL's special values.
func vpAnyCoord(exp bool) vpCoord {
	text := []byte{}
	if vpBool() {
		text = append(text, '-')
	}
	digits := func(n int, last bool) {
		for i := 0; i < n; i++ {
			d := vpByte()
			vpAssume(d >= '0')
			vpAssume(d <= '9')
			if last && i == n-1 || i == 0 && n > 1 {
				vpAssume(d != '0')
			}
			text = append(text, d)
		}
	}
	kinds := 3
	if exp {
		kinds = 5
	}
	switch vpChoose(kinds) {
	case 0:
		digits(1+vpChoose(vpBound("coordinate digits", 2, 9)), false)
		if len(text) == 2 && text[0] == '-' {
			vpAssume(text[1] != '0')
		}
	case 1:
		digits(1+vpChoose(vpBound("coordinate digits", 2, 9)), false)
		text = append(text, '.')
		digits(1, true)
	case 2:
		digits(1, false)
		text = append(text, '.', '0')
		digits(1, true)
	case 3:
		digits(1, true)
		text = append(text, '.')
		digits(1, true)
		text = append(text, 'e', '+')
		digits(2, false)
	default:
		text = append(text, "Infinity"...)
	}
	f, err := strconv.ParseFloat(string(text), 64)
	vpAssume(err == nil)
	return vpCoord{text, f}
}

// vpCoords returns n coordinates: distinct constants except an arbitrary one at an arbitrary place.
func vpCoords(n int, exp bool) []vpCoord {
	cs := make([]vpCoord, n)
	p := vpChoose(n)
	for i := range cs {
		if i == p {
			cs[i] = vpAnyCoord(exp)
		} else {
			cs[i] = vpCoord{strconv.AppendInt(nil, int64(101+i), 10), float64(101 + i)}
		}
	}
	return cs
}

