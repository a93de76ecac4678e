package pgsql

func vpHexChar(n byte) byte { return vpIteByte(n < 10, '0'+n, 'a'-10+n) }

// vpHexDigit decodes a hexadecimal digit of either case without branching.
func vpHexDigit(c byte) (byte, bool) {
	l := c | 0x20
	d := vpAnd(c >= '0', c <= '9')
	h := vpAnd(l >= 'a', l <= 'f')
	return vpIteByte(d, c-'0', l-'a'+10), vpOr(d, h)
}
