package pgsql

import (
	"database/sql"
	"database/sql/driver"
)

// vpChar is one character of a character column: its UTF-8 form and code point.
type vpChar struct {
	utf8 []byte
	r    rune
}

// vpAnyChar returns an arbitrary character other than NUL: ASCII only, or of one to four bytes.
func vpAnyChar(ascii bool) vpChar {
	n := 1
	if !ascii {
		n = 1 + vpChoose(4)
	}
	b := vpBytes(n)
	cont := func(i int) rune {
		vpAssume(b[i]&0xC0 == 0x80)
		return rune(b[i] & 0x3F)
	}
	switch n {
	case 1:
		vpAssume(b[0] != 0)
		vpAssume(b[0] < 0x80)
		return vpChar{b, rune(b[0])}
	case 2:
		vpAssume(b[0] >= 0xC2)
		vpAssume(b[0] < 0xE0)
		return vpChar{b, rune(b[0]&0x1F)<<6 | cont(1)}
	case 3:
		vpAssume(b[0]&0xF0 == 0xE0)
		c := vpChar{b, rune(b[0]&0x0F)<<12 | cont(1)<<6 | cont(2)}
		vpAssume(vpOr(b[0] != 0xE0, b[1] >= 0xA0))
		vpAssume(vpOr(b[0] != 0xED, b[1] < 0xA0))
		return c
	}
	vpAssume(b[0] >= 0xF0)
	vpAssume(b[0] <= 0xF4)
	c := vpChar{b, rune(b[0]&0x07)<<18 | cont(1)<<12 | cont(2)<<6 | cont(3)}
	vpAssume(vpOr(b[0] != 0xF0, b[1] >= 0x90))
	vpAssume(vpOr(b[0] != 0xF4, b[1] < 0x90))
	return c
}

// vpChars returns up to three characters, of which the multi-byte one, if any, is at an arbitrary place.
func vpChars(ascii bool) []vpChar {
	cs := make([]vpChar, vpChoose(vpBound("characters", 2, 3)+1))
	if len(cs) == 0 {
		return cs
	}
	p := vpChoose(len(cs))
	for i := range cs {
		cs[i] = vpAnyChar(ascii || i != p)
	}
	return cs
}

func vpCharBytes(cs []vpChar) []byte {
	out := []byte{}
	for _, c := range cs {
		out = append(out, c.utf8...)
	}
	return out
}

func vpCharElems(cs []vpChar) []vpElem {
	es := make([]vpElem, len(cs))
	for i := range cs {
		es[i].val = cs[i].utf8
	}
	return es
}

func vpCharScalarFrom(fromByte func(byte) driver.Valuer, fromRune func(rune) driver.Valuer) {
	if vpBool() {
		c := vpAnyChar(true)
		vpScalar(fromByte(c.utf8[0]), c.utf8)
		return
	}
	c := vpAnyChar(false)
	vpScalar(fromRune(c.r), c.utf8)
}

func VP_P10_CharFrom()   { vpCharScalarFrom(CharFromByte, CharFromRune) }
func VP_P10_BPCharFrom() { vpCharScalarFrom(BPCharFromByte, BPCharFromRune) }

func vpCharScalarTo(toByte func(*byte) sql.Scanner, toRune func(*rune) sql.Scanner) {
	if vpBool() {
		c := vpAnyChar(true)
		got := byte(1)
		vpScanOK(toByte(&got), c.utf8)
		vpAssert(got == c.utf8[0], "the character is scanned unchanged")
		return
	}
	c := vpAnyChar(false)
	got := rune(1)
	vpScanOK(toRune(&got), c.utf8)
	vpAssert(got == c.r, "the character is scanned unchanged")
}

func VP_P10_CharTo()   { vpCharScalarTo(CharToByte, CharToRune) }
func VP_P10_BPCharTo() { vpCharScalarTo(BPCharToByte, BPCharToRune) }

func vpCharArrFrom(fromString func(string) driver.Valuer, fromBytes func([]byte) driver.Valuer, fromRunes func([]rune) driver.Valuer,
	fromStrings func([]string) driver.Valuer) {
	switch vpChoose(5) {
	case 0:
		cs := vpChars(false)
		if len(cs) > 0 { // the empty string may be sent as NULL
			vpEncodes(fromString(string(vpCharBytes(cs))), vpCharElems(cs))
		}
	case 1:
		cs := vpChars(true)
		vpEncodes(fromBytes(vpCharBytes(cs)), vpCharElems(cs))
	case 2:
		cs := vpChars(false)
		rs := make([]rune, len(cs))
		for i := range cs {
			rs[i] = cs[i].r
		}
		vpEncodes(fromRunes(rs), vpCharElems(cs))
	case 3:
		cs := vpChars(false)
		ss := make([]string, len(cs))
		for i := range cs {
			ss[i] = string(cs[i].utf8)
			if i == 0 && vpBool() {
				ss[i], cs[i].utf8 = "", []byte{}
			}
		}
		vpEncodes(fromStrings(ss), vpCharElems(cs))
	default:
		vpNilValue(fromBytes(nil), fromRunes(nil), fromStrings(nil))
	}
}

func VP_P10_CharArrayFrom() {
	vpCharArrFrom(CharArrayFromString, CharArrayFromByteSlice, CharArrayFromRuneSlice, CharArrayFromStringSlice)
}

func VP_P10_BPCharArrayFrom() {
	vpCharArrFrom(BPCharArrayFromString, BPCharArrayFromByteSlice, BPCharArrayFromRuneSlice, BPCharArrayFromStringSlice)
}

func vpCharArrTo(toString func(*string) sql.Scanner, toBytes func(*[]byte) sql.Scanner, toRunes func(*[]rune) sql.Scanner,
	toStrings func(*[]string) sql.Scanner) {
	kind := vpChoose(4)
	cs := vpChars(kind == 1)
	es := vpCharElems(cs)
	if kind != 0 && len(es) > 0 && vpBool() {
		p := vpChoose(len(es))
		es[p].null = true
		cs[p] = vpChar{[]byte{}, 0}
	}
	text := vpArrayOut(es, ',')
	switch kind {
	case 0:
		got := "x"
		vpScanOK(toString(&got), text)
		vpAssert(got == string(vpCharBytes(cs)), "every character is scanned unchanged")
	case 1:
		got := []byte{'x'}
		vpScanOK(toBytes(&got), text)
		vpAssert(len(got) == len(cs), "every character is scanned once")
		for i := range cs {
			if len(got) == len(cs) {
				vpAssert(rune(got[i]) == cs[i].r, "every character is scanned unchanged")
			}
		}
	case 2:
		got := []rune{'x'}
		vpScanOK(toRunes(&got), text)
		vpAssert(len(got) == len(cs), "every character is scanned once")
		for i := range cs {
			if len(got) == len(cs) {
				vpAssert(got[i] == cs[i].r, "every character is scanned unchanged")
			}
		}
	default:
		got := []string{"x"}
		vpScanOK(toStrings(&got), text)
		vpAssert(len(got) == len(cs), "every character is scanned once")
		for i := range cs {
			if len(got) == len(cs) {
				vpAssert(got[i] == string(cs[i].utf8), "every character is scanned unchanged")
			}
		}
	}
}

func VP_P10_CharArrayTo() {
	vpCharArrTo(CharArrayToString, CharArrayToByteSlice, CharArrayToRuneSlice, CharArrayToStringSlice)
}

func VP_P10_BPCharArrayTo() {
	vpCharArrTo(BPCharArrayToString, BPCharArrayToByteSlice, BPCharArrayToRuneSlice, BPCharArrayToStringSlice)
}
