package pgsql

// vpCents is an amount: its number of cents and PostgreSQL's text for it (with thousands separators if commas).
type vpCents struct {
	n    int64
	text []byte
}

// vpAmount returns an arbitrary amount of the given number of digits (cents included).
func vpAmount(digits int) vpCents {
	v := vpDigits(digits)
	neg := vpBool()
	n := int64(v.mag)
	if neg {
		vpAssume(v.mag != 0)
		vpAssume(v.mag <= 1<<63)
		n = -n
	} else {
		vpAssume(v.mag < 1<<63)
	}
	d := v.dig
	for len(d) < 3 {
		d = append([]byte{'0'}, d...)
	}
	k := len(d) - 2
	var text []byte
	if neg {
		text = append(text, '-')
	}
	text = append(text, '$')
	for i := 0; i < k; i++ {
		if i > 0 && (k-i)%3 == 0 {
			text = append(text, ',')
		}
		text = append(text, d[i])
	}
	text = append(text, '.')
	return vpCents{n, append(text, d[k:]...)}
}

// vpCash reads money input: an optional sign before or after the currency symbol, digits with or without separators and an
// optional fraction of up to two digits.
func vpCash(s []byte) (neg bool, cents uint64, ok bool) {
	i := 0
	for i < len(s) && (s[i] == '$' || s[i] == '-') {
		if s[i] == '-' {
			if neg {
				return false, 0, false
			}
			neg = true
		}
		i++
	}
	digits, frac := 0, -1
	for ; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && frac < 0:
			frac = 0
		case c == ',' && frac < 0:
		case vpAnd(c >= '0', c <= '9'):
			if frac == 2 {
				return false, 0, false
			}
			cents = cents*10 + uint64(c-'0')
			digits++
			if frac >= 0 {
				frac++
			}
		default:
			return false, 0, false
		}
	}
	for ; frac < 2; frac++ {
		if frac < 0 {
			frac = 0
		}
		cents *= 10
	}
	return neg, cents, digits > 0
}

// vpPays asserts that money input denotes exactly the given number of cents.
func vpPays(text []byte, n int64) {
	neg, cents, ok := vpCash(text)
	vpAssert(ok, "the amount is valid money input")
	if neg {
		vpAssert(-cents == uint64(n), "the amount sent is exactly the given number of cents")
		vpAssert(n <= 0, "the sign sent is the given one")
	} else {
		vpAssert(cents == uint64(n), "the amount sent is exactly the given number of cents")
		vpAssert(n >= 0, "the sign sent is the given one")
	}
}

func VP_P14_From() {
	a := vpAmount(1 + vpChoose(19))
	val, err := MoneyFromInt64(a.n).Value()
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "an amount is not sent as NULL")
	vpObs("out", out)
	vpPays(out, a.n)
	vpReach("sent")
}

// VP_P14_FromSmall: small amounts once more, with few enough values for the solver to split arithmetic that it cannot treat
// symbolically (such as floating point) into all of its cases.
func VP_P14_FromSmall() {
	n := vpI64()
	lim := int64(vpBound("small amounts up to", 150, 1200))
	vpAssume(vpAnd(n >= -lim, n <= lim))
	val, err := MoneyFromInt64(n).Value()
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "an amount is not sent as NULL")
	vpPays(out, n)
	vpReach("sent")
}

func VP_P14_To() {
	a := vpAmount(1 + vpChoose(19))
	got := int64(77)
	vpScanOK(MoneyToInt64(&got), a.text)
	vpAssert(got == a.n, "the amount scanned is exactly the stored number of cents")
}

// vpAmounts is a short list of amounts of which one, at an arbitrary place, is arbitrary.
func vpAmounts() []vpCents {
	as := make([]vpCents, 1+vpChoose(vpBound("elements", 3, 3)))
	p := vpChoose(len(as))
	n := []int{1, 2, 3, 4, 6, 19}
	for i := range as {
		if i == p {
			if vpThorough() {
				as[i] = vpAmount(1 + vpChoose(19))
			} else {
				as[i] = vpAmount(n[vpChoose(len(n))])
			}
		} else {
			as[i] = vpCents{int64(120 + i), append([]byte("$1.2"), '0'+byte(i))}
		}
	}
	return as
}

func VP_P14_ArrayFrom() {
	as := vpAmounts()
	var in []int64
	for _, a := range as {
		in = append(in, a.n)
	}
	got := vpEncoded(MoneyArrayFromInt64Slice(in), ',')
	vpAssert(len(got) == len(as), "every amount is sent once")
	for i := range got {
		vpAssert(!got[i].null, "an amount is not sent as NULL")
		vpPays(got[i].val, as[i].n)
	}
}

func VP_P14_ArrayTo() {
	as := vpAmounts()
	var es []vpElem
	for _, a := range as {
		es = append(es, vpElem{val: a.text})
	}
	got := []int64{5}
	vpScanOK(MoneyArrayToInt64Slice(&got), vpArrayOut(es, ','))
	vpAssert(len(got) == len(as), "every amount is scanned once")
	for i := range got {
		vpAssert(got[i] == as[i].n, "the amount scanned is exactly the stored number of cents")
	}
}

func VP_P14_NullElems() {
	n := 1 + vpChoose(3)
	p := vpChoose(n)
	es := make([]vpElem, n)
	for i := range es {
		es[i] = vpElem{val: []byte("$1.25")}
	}
	es[p] = vpElem{null: true}
	var got []int64
	err := MoneyArrayToInt64Slice(&got).Scan(vpSrc(vpArrayOut(es, ',')))
	vpReach("null")
	if err == nil {
		vpAssert(len(got) == n && got[p] == 0, "a NULL element is scanned as zero or reported")
	}
}

func VP_P14_NilAndEmpty() {
	if vpBool() {
		vpNilValue(MoneyArrayFromInt64Slice(nil))
	} else {
		vpEmptyArray(MoneyArrayFromInt64Slice([]int64{}))
	}
}
