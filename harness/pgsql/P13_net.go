package pgsql

import (
	"net"
	"strconv"
)

// vpAddr is an address: its family, bytes, prefix length and the text PostgreSQL prints for it.
type vpAddr struct {
	ip   []byte // 4 or 16 bytes
	bits int    // prefix length
	text []byte // without the prefix length
	wide bool   // given to Go as 16 bytes though IPv4
}

func (a vpAddr) max() int { return len(a.ip) * 8 }

// inet is inet_out's text, cidr is cidr_out's.
func (a vpAddr) inet() []byte {
	if a.bits == a.max() {
		return a.text
	}
	return a.cidr()
}

func (a vpAddr) cidr() []byte {
	out := append([]byte{}, a.text...)
	return strconv.AppendInt(append(out, '/'), int64(a.bits), 10)
}

// vpOctet returns an arbitrary octet together with its decimal text (if wanted).
func vpOctet(text bool) (byte, []byte) {
	if !text {
		return vpByte(), nil
	}
	v := vpDigits(1 + vpChoose(3))
	vpAssume(v.mag <= 255)
	return byte(v.mag), v.dig
}

// vpGroup returns an arbitrary non-zero 16-bit group together with its hexadecimal text (if wanted).
func vpGroup(text bool) (uint16, []byte) {
	if !text {
		g := vpU16()
		vpAssume(g != 0)
		return g, nil
	}
	n := 1 + vpChoose(4)
	var v uint16
	dig := make([]byte, n)
	for i := range dig {
		d := vpByte()
		vpAssume(d < 16)
		if i == 0 {
			vpAssume(d != 0)
		}
		v = v<<4 | uint16(d)
		dig[i] = vpHexChar(d)
	}
	return v, dig
}

// vpAddr4 returns an IPv4 address of the given prefix length with up to k adjacent arbitrary octets; unless host, only the
// bits of the prefix may be set.
func vpAddr4(k, bits int, host, dig bool) vpAddr {
	a := vpAddr{ip: make([]byte, 4), bits: bits}
	p := 0
	switch {
	case vpThorough():
		p = vpChoose(5 - k)
	case vpBool():
		p = bits / 8
		if p > 4-k {
			p = 4 - k
		}
	}
	for i := range a.ip {
		m := vpMask(a, i)
		if host {
			m = 255
		}
		text := []byte{'0'}
		if i >= p && i < p+k && m != 0 {
			a.ip[i], text = vpOctet(dig)
			vpAssume(a.ip[i]&^m == 0)
		} else if m != 0 {
			a.ip[i] = byte(11*(i+1)) & m
			text = strconv.AppendInt(nil, int64(a.ip[i]), 10)
		}
		if i > 0 {
			a.text = append(a.text, '.')
		}
		a.text = append(a.text, text...)
	}
	return a
}

// vpAddr6 returns an IPv6 address of the given prefix length: a run of z zero groups (z = 0 or at least 2) at an arbitrary
// place, one arbitrary group elsewhere, fixed non-zero groups otherwise.  Unless host, the run covers everything after the
// prefix.
func vpAddr6(bits int, host, dig bool) vpAddr {
	a := vpAddr{ip: make([]byte, 16), bits: bits}
	var z, at int
	switch {
	case host && vpThorough():
		z = vpChoose(8)
		if z == 1 {
			z = 8
		}
		at = vpChoose(9 - z)
	case host:
		za := [][2]int{{0, 0}, {8, 0}, {4, 0}, {7, 1}, {2, 3}}[vpChoose(5)]
		z, at = za[0], za[1]
	default:
		z = 8 - (bits+15)/16
		at = 8 - z
	}
	p := -1
	if z < 8 {
		if vpThorough() {
			p = vpChoose(8 - z)
		} else if vpBool() {
			p = 7 - z
		} else {
			p = 0
		}
		if p >= at {
			p += z
		}
	}
	if z >= 5 && at == 0 && z < 8 || z == 1 { // ::ffff:x:y and ::x:y are printed in IPv4 notation, a single zero as 0
		vpSkip()
	}
	for i := 0; i < 8; i++ {
		if z > 0 && i >= at && i < at+z {
			if i == at {
				a.text = append(a.text, ':', ':')
			}
			continue
		}
		if i > 0 && !(z > 0 && i == at+z) {
			a.text = append(a.text, ':')
		}
		var g uint16
		var t []byte
		m := uint16(vpMask(a, 2*i))<<8 | uint16(vpMask(a, 2*i+1))
		if host {
			m = 0xffff
		}
		if i == p {
			g, t = vpGroup(dig)
			vpAssume(g&^m == 0)
		} else {
			g = (0x8000 | uint16(i)) & m
			t = strconv.AppendInt(nil, int64(g), 16)
		}
		a.ip[2*i], a.ip[2*i+1] = byte(g>>8), byte(g)
		a.text = append(a.text, t...)
	}
	return a
}

// vpAnyAddr returns an arbitrary address; host says whether bits after the prefix may be set.
func vpAnyAddr(k4 int, prefix, host, dig bool) vpAddr {
	v4 := vpBool()
	ns := []int{128, 0, 63, 64}
	bits := 128
	if v4 {
		ns = []int{32, 0, 1, 15, 24}
		bits = 32
	}
	switch {
	case !prefix:
	case vpThorough():
		bits = vpChoose(bits + 1)
	default:
		bits = ns[vpChoose(len(ns))]
	}
	if v4 {
		a := vpAddr4(k4, bits, host, dig)
		a.wide = !dig && bits >= 24 && vpBool()
		return a
	}
	return vpAddr6(bits, host, dig)
}

// vpMask is byte i of the netmask.
func vpMask(a vpAddr, i int) byte {
	n := a.bits - 8*i
	switch {
	case n >= 8:
		return 255
	case n <= 0:
		return 0
	}
	return ^byte(255 >> uint(n))
}

func (a vpAddr) ipnet() net.IPNet {
	m := make(net.IPMask, len(a.ip))
	for i := range m {
		m[i] = vpMask(a, i)
	}
	ip := append(net.IP{}, a.ip...)
	if a.wide { // Go also keeps IPv4 addresses in 16 bytes
		ip = append(net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255}, a.ip...)
	}
	return net.IPNet{IP: ip, Mask: m}
}

func (a vpAddr) goIP() net.IP { return a.ipnet().IP }

// vpIPIs asserts that a Go address is exactly the given one.
func vpIPIs(got net.IP, a vpAddr) {
	b := []byte(got)
	if len(b) == 16 && len(a.ip) == 4 {
		pre := true
		for i := 0; i < 12; i++ {
			pre = vpAnd(pre, b[i] == []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255}[i])
		}
		vpAssert(pre, "the scanned address is exactly the stored one")
		b = b[12:]
	}
	vpAssert(string(b) == string(a.ip), "the scanned address is exactly the stored one")
}

// vpNetIs asserts that a Go network has exactly the given address and prefix length; a nil mask stands for a single host.
func vpNetIs(got net.IPNet, a vpAddr) {
	vpIPIs(got.IP, a)
	if got.Mask == nil {
		vpAssert(a.bits == a.max(), "the scanned prefix length is exactly the stored one")
		return
	}
	vpAssert(len(got.Mask) == len(a.ip), "the scanned prefix length is exactly the stored one")
	for i := range got.Mask {
		vpAssert(got.Mask[i] == vpMask(a, i), "the scanned prefix length is exactly the stored one")
	}
}

// vpParseAddr reads PostgreSQL inet/cidr input: IPv4 dotted quads and IPv6 groups with at most one "::".
func vpParseAddr(s []byte) (a vpAddr, ok bool) {
	slash := len(s)
	for i := range s {
		if s[i] == '/' {
			slash = i
			break
		}
	}
	addr := s[:slash]
	v6 := false
	for _, c := range addr {
		if c == ':' {
			v6 = true
		}
	}
	if v6 {
		a.ip, ok = vpParse6(addr)
	} else {
		a.ip, ok = vpParse4(addr)
	}
	if !ok {
		return a, false
	}
	a.bits = a.max()
	if slash < len(s) {
		d := s[slash+1:]
		if len(d) == 0 || len(d) > 3 {
			return a, false
		}
		a.bits = 0
		for _, c := range d {
			if c < '0' || c > '9' {
				return a, false
			}
			a.bits = a.bits*10 + int(c-'0')
		}
	}
	return a, a.bits <= a.max()
}

func vpParse4(s []byte) ([]byte, bool) {
	ip := []byte{}
	i := 0
	for {
		v, n := 0, 0
		for i < len(s) && s[i] != '.' {
			if !vpAnd(s[i] >= '0', s[i] <= '9') || n == 3 {
				return nil, false
			}
			v = v*10 + int(s[i]-'0')
			n++
			i++
		}
		if n == 0 || !(v <= 255) {
			return nil, false
		}
		ip = append(ip, byte(v))
		if i == len(s) {
			return ip, len(ip) == 4
		}
		i++
	}
}

func vpParse6(s []byte) ([]byte, bool) {
	var head, tail []byte
	seen := false // a "::" was read
	i := 0
	if len(s) >= 2 && s[0] == ':' && s[1] == ':' {
		seen, i = true, 2
	}
	for i < len(s) {
		var v uint16
		n := 0
		for i < len(s) && s[i] != ':' {
			d, ok := vpHexDigit(s[i])
			if !ok || n == 4 {
				return nil, false
			}
			v = v<<4 | uint16(d)
			n++
			i++
		}
		if n == 0 {
			return nil, false
		}
		if seen {
			tail = append(tail, byte(v>>8), byte(v))
		} else {
			head = append(head, byte(v>>8), byte(v))
		}
		if i == len(s) {
			break
		}
		i++
		if i < len(s) && s[i] == ':' {
			if seen {
				return nil, false
			}
			seen = true
			i++
		} else if i == len(s) {
			return nil, false
		}
	}
	n := len(head) + len(tail)
	if !seen && n != 16 || seen && n > 14 {
		return nil, false
	}
	ip := append([]byte{}, head...)
	for j := n; j < 16; j++ {
		ip = append(ip, 0)
	}
	return append(ip, tail...), true
}

// vpDenotes asserts that inet input denotes exactly the given address.
func vpDenotes(text []byte, a vpAddr, prefix bool) {
	got, ok := vpParseAddr(text)
	vpAssert(ok, "the address is valid PostgreSQL input")
	vpAssert(len(got.ip) == len(a.ip), "the address sent is exactly the given one")
	vpAssert(string(got.ip) == string(a.ip), "the address sent is exactly the given one")
	if prefix {
		vpAssert(got.bits == a.bits, "the prefix length sent is exactly the given one")
	} else {
		vpAssert(got.bits == a.max(), "the prefix length sent is exactly the given one")
	}
}

func VP_P13_From() {
	k := vpChoose(3)
	a := vpAnyAddr(vpBound("arbitrary octets", 1, 4), k != 2, k == 0, false)
	prefix := true
	var val interface{}
	var err error
	switch k {
	case 0:
		val, err = InetFromIPNet(a.ipnet()).Value()
	case 1:
		val, err = CIDRFromIPNet(a.ipnet()).Value()
	default:
		val, err = InetFromIP(a.goIP()).Value()
		prefix = false
	}
	vpAssert(err == nil, "encoding reports no error")
	out, ok := vpBytesOf(val)
	vpAssert(ok, "a non-nil address is not sent as NULL")
	vpObs("out", out)
	vpDenotes(out, a, prefix)
	vpReach("encoded")
}

func VP_P13_To() {
	k := vpChoose(3)
	a := vpAnyAddr(vpBound("arbitrary octets", 1, 4), true, k != 1, true)
	switch k {
	case 0:
		got := net.IPNet{IP: net.IP{9, 9, 9, 9}, Mask: net.IPMask{255, 0, 0, 0}}
		vpScanOK(InetToIPNet(&got), a.inet())
		vpNetIs(got, a)
	case 1:
		got := net.IPNet{IP: net.IP{9, 9, 9, 9}, Mask: net.IPMask{255, 0, 0, 0}}
		vpScanOK(CIDRToIPNet(&got), a.cidr())
		vpNetIs(got, a)
	default:
		got := net.IP{9, 9, 9, 9}
		vpScanOK(InetToIP(&got), a.inet())
		vpIPIs(got, a)
	}
}

// VP_P13_Host: a network without a mask, which is what a single host is scanned into, is sent as that host.
func VP_P13_Host() {
	a := vpAnyAddr(1, false, true, false)
	val, err := InetFromIPNet(net.IPNet{IP: a.goIP()}).Value()
	vpAssert(err == nil, "encoding reports no error")
	out, _ := vpBytesOf(val)
	vpObs("out", out)
	vpDenotes(out, a, true)
	vpReach("sent")
}

// vpSpecialAddr returns one of the addresses that package net tells from others.
func vpSpecialAddr() vpAddr {
	switch vpChoose(6) {
	case 0:
		return vpAddr{ip: make([]byte, 4), text: []byte("0.0.0.0")}
	case 1:
		return vpAddr{ip: []byte{255, 255, 255, 255}, bits: 32, text: []byte("255.255.255.255")}
	case 2:
		return vpAddr{ip: []byte{127, 0, 0, 1}, bits: 32, text: []byte("127.0.0.1")}
	case 3:
		return vpAddr{ip: []byte{224, 0, 0, 0}, bits: 4, text: []byte("224.0.0.0")}
	case 4:
		return vpAddr{ip: make([]byte, 16), text: []byte("::")}
	}
	ip := make([]byte, 16)
	ip[15] = 1
	return vpAddr{ip: ip, bits: 128, text: []byte("::1")}
}

// VP_P13_Special: the addresses that package net tells from others are addresses as any other.
func VP_P13_Special() {
	a := vpSpecialAddr()
	host := a
	host.bits = a.max()
	var val interface{}
	var err error
	k := vpChoose(7)
	switch k {
	case 0:
		val, err = InetFromIPNet(a.ipnet()).Value()
	case 1:
		val, err = CIDRFromIPNet(a.ipnet()).Value()
	case 2:
		val, err = InetFromIPNet(net.IPNet{IP: a.goIP()}).Value()
		a = host
	case 3:
		val, err = InetFromIP(a.goIP()).Value()
		a = host
	case 4:
		got := net.IPNet{IP: net.IP{9, 9, 9, 9}, Mask: net.IPMask{255, 0, 0, 0}}
		if vpBool() {
			vpScanOK(InetToIPNet(&got), a.inet())
		} else {
			vpScanOK(CIDRToIPNet(&got), a.cidr())
		}
		vpNetIs(got, a)
	case 5:
		got := net.IP{9, 9, 9, 9}
		vpScanOK(InetToIP(&got), host.inet())
		vpIPIs(got, host)
	default:
		got := net.IPNet{IP: net.IP{9, 9, 9, 9}, Mask: net.IPMask{255, 0, 0, 0}}
		vpScanOK(InetToIPNet(&got), host.inet())
		vpNetIs(got, host)
	}
	if k < 4 {
		vpAssert(err == nil, "encoding reports no error")
		out, ok := vpBytesOf(val)
		vpAssert(ok, "a non-nil address is not sent as NULL")
		vpObs("out", out)
		vpDenotes(out, a, k < 3)
	}
	vpReach("converted")
}

// vpAddrs returns a short list of addresses of which one, at an arbitrary place, is arbitrary.
func vpAddrs(prefix, host, dig bool) []vpAddr {
	as := make([]vpAddr, 1+vpChoose(vpBound("elements", 3, 3)))
	p := vpChoose(len(as))
	for i := range as {
		if i == p && vpBool() {
			as[i] = vpSpecialAddr()
			if !prefix {
				as[i].bits = as[i].max()
			}
		} else if i == p {
			as[i] = vpAnyAddr(1, prefix, host, dig)
		} else {
			as[i] = vpAddr{ip: []byte{10, 0, byte(i), 0}, bits: 32, text: append(strconv.AppendInt([]byte("10.0."), int64(i), 10), ".0"...)}
			if prefix {
				as[i].bits = 24
			}
		}
	}
	return as
}

func VP_P13_ArrayFrom() {
	k := vpChoose(3)
	as := vpAddrs(k != 2, k == 0, false)
	var nets []net.IPNet
	var ips []net.IP
	for _, a := range as {
		nets = append(nets, a.ipnet())
		ips = append(ips, a.goIP())
	}
	var got []vpElem
	switch k {
	case 0:
		got = vpEncoded(InetArrayFromIPNetSlice(nets), ',')
	case 1:
		got = vpEncoded(CIDRArrayFromIPNetSlice(nets), ',')
	default:
		got = vpEncoded(InetArrayFromIPSlice(ips), ',')
	}
	vpAssert(len(got) == len(as), "every address is sent once")
	for i := range got {
		vpAssert(!got[i].null, "no address is sent as NULL")
		vpDenotes(got[i].val, as[i], k != 2)
	}
}

func VP_P13_ArrayTo() {
	k := vpChoose(3)
	as := vpAddrs(true, k != 1, true)
	var es []vpElem
	for _, a := range as {
		if k == 1 {
			es = append(es, vpElem{val: a.cidr()})
		} else {
			es = append(es, vpElem{val: a.inet()})
		}
	}
	text := vpArrayOut(es, ',')
	if k == 2 {
		var got []net.IP
		vpScanOK(InetArrayToIPSlice(&got), text)
		vpAssert(len(got) == len(as), "every address is scanned once")
		for i := range got {
			vpIPIs(got[i], as[i])
		}
		return
	}
	var got []net.IPNet
	if k == 0 {
		vpScanOK(InetArrayToIPNetSlice(&got), text)
	} else {
		vpScanOK(CIDRArrayToIPNetSlice(&got), text)
	}
	vpAssert(len(got) == len(as), "every address is scanned once")
	for i := range got {
		vpNetIs(got[i], as[i])
	}
}

// vpMAC returns a hardware address of n bytes, up to k adjacent ones arbitrary, and PostgreSQL's text for it.
func vpMAC(n, k int) (net.HardwareAddr, []byte) {
	mac := make(net.HardwareAddr, n)
	var text []byte
	p := vpChoose(n - k + 1)
	for i := range mac {
		hi, lo := byte(i+1), byte(15-i)
		if i >= p && i < p+k {
			hi, lo = vpByte(), vpByte()
			vpAssume(vpAnd(hi < 16, lo < 16))
		}
		mac[i] = hi<<4 | lo
		if i > 0 {
			text = append(text, ':')
		}
		text = append(text, vpHexChar(hi), vpHexChar(lo))
	}
	return mac, text
}

func VP_P13_MACFrom() {
	k := 6
	if vpBool() {
		mac, text := vpMAC(6, k)
		vpScalar(MACAddrFromHardwareAddr(mac), text)
	} else {
		mac, text := vpMAC(8, k)
		vpScalar(MACAddr8FromHardwareAddr(mac), text)
	}
}

func VP_P13_MACTo() {
	k := vpBound("arbitrary bytes", 2, 4)
	if vpBool() {
		mac, text := vpMAC(6, k)
		got := net.HardwareAddr{1, 2, 3}
		vpScanOK(MACAddrToHardwareAddr(&got), text)
		vpAssert(string(got) == string(mac), "the scanned address is exactly the stored one")
	} else {
		mac, text := vpMAC(8, k)
		got := net.HardwareAddr{1, 2, 3}
		vpScanOK(MACAddr8ToHardwareAddr(&got), text)
		vpAssert(string(got) == string(mac), "the scanned address is exactly the stored one")
	}
}

func vpMACs(n, arb int) (macs []net.HardwareAddr, es []vpElem) {
	k := 1 + vpChoose(vpBound("elements", 3, 4))
	p := vpChoose(k)
	for i := 0; i < k; i++ {
		var m net.HardwareAddr
		var t []byte
		if i == p {
			m, t = vpMAC(n, arb)
		} else {
			m = make(net.HardwareAddr, n)
			for j := range m {
				m[j] = 0x10 + byte(i)
				if j > 0 {
					t = append(t, ':')
				}
				t = append(t, '1', '0'+byte(i))
			}
		}
		macs = append(macs, m)
		es = append(es, vpElem{val: t})
	}
	return macs, es
}

func VP_P13_MACArrayFrom() {
	if vpBool() {
		macs, es := vpMACs(6, 6)
		vpEncodes(MACAddrArrayFromHardwareAddrSlice(macs), es)
	} else {
		macs, es := vpMACs(8, 8)
		vpEncodes(MACAddr8ArrayFromHardwareAddrSlice(macs), es)
	}
}

func VP_P13_MACArrayTo() {
	var got, macs []net.HardwareAddr
	var es []vpElem
	k := vpBound("arbitrary bytes", 1, 3)
	if vpBool() {
		macs, es = vpMACs(6, k)
		vpScanOK(MACAddrArrayToHardwareAddrSlice(&got), vpArrayOut(es, ','))
	} else {
		macs, es = vpMACs(8, k)
		vpScanOK(MACAddr8ArrayToHardwareAddrSlice(&got), vpArrayOut(es, ','))
	}
	vpAssert(len(got) == len(macs), "every address is scanned once")
	for i := range got {
		vpAssert(string(got[i]) == string(macs[i]), "the scanned address is exactly the stored one")
	}
}

// VP_P13_NilElems: a nil address inside a slice never turns into other data: it is sent as NULL or refused by PostgreSQL.
func VP_P13_NilElems() {
	n := 1 + vpChoose(3)
	p := vpChoose(n)
	ips := make([]net.IP, n)
	nets := make([]net.IPNet, n)
	m6 := make([]net.HardwareAddr, n)
	m8 := make([]net.HardwareAddr, n)
	for i := range ips {
		if i != p {
			ips[i] = net.IP{1, 2, 3, 4}
			nets[i] = net.IPNet{IP: ips[i], Mask: net.IPMask{255, 255, 255, 255}}
			m6[i] = net.HardwareAddr{1, 2, 3, 4, 5, 6}
			m8[i] = net.HardwareAddr{1, 2, 3, 4, 5, 6, 7, 8}
		}
	}
	var val interface{}
	var err error
	mac := false
	switch vpChoose(5) {
	case 0:
		val, err = InetArrayFromIPSlice(ips).Value()
	case 1:
		val, err = InetArrayFromIPNetSlice(nets).Value()
	case 2:
		val, err = CIDRArrayFromIPNetSlice(nets).Value()
	case 3:
		val, err = MACAddrArrayFromHardwareAddrSlice(m6).Value()
		mac = true
	default:
		val, err = MACAddr8ArrayFromHardwareAddrSlice(m8).Value()
		mac = true
	}
	vpReach("nil")
	if err != nil {
		return
	}
	out, _ := vpBytesOf(val)
	vpObs("out", out)
	got, ok := vpArrayIn(out, ',')
	if !ok {
		return
	}
	vpAssert(len(got) == n, "no element is dropped")
	for i := range got {
		if i == p {
			_, valid := vpParseAddr(got[i].val)
			vpAssert(got[i].null || (mac && len(got[i].val) == 0) || (!mac && !valid), "a nil element is not sent as an address")
		} else {
			vpAssert(!got[i].null, "an address is not sent as NULL")
		}
	}
}

// VP_P13_NullElems: a NULL element scans as a nil address or an error.
func VP_P13_NullElems() {
	n := 1 + vpChoose(3)
	p := vpChoose(n)
	mk := func(s string) []byte {
		es := make([]vpElem, n)
		for i := range es {
			if i == p {
				es[i].null = true
			} else {
				es[i].val = []byte(s)
			}
		}
		return vpArrayOut(es, ',')
	}
	vpReach("null")
	switch vpChoose(5) {
	case 0:
		var got []net.IP
		if InetArrayToIPSlice(&got).Scan(vpSrc(mk("1.2.3.4"))) == nil {
			vpAssert(len(got) == n && got[p] == nil, "a NULL element is scanned as nil")
		}
	case 1:
		var got []net.IPNet
		if InetArrayToIPNetSlice(&got).Scan(vpSrc(mk("1.2.3.4/8"))) == nil {
			vpAssert(len(got) == n && got[p].IP == nil, "a NULL element is scanned as nil")
		}
	case 2:
		var got []net.IPNet
		if CIDRArrayToIPNetSlice(&got).Scan(vpSrc(mk("1.0.0.0/8"))) == nil {
			vpAssert(len(got) == n && got[p].IP == nil, "a NULL element is scanned as nil")
		}
	case 3:
		var got []net.HardwareAddr
		if MACAddrArrayToHardwareAddrSlice(&got).Scan(vpSrc(mk("01:02:03:04:05:06"))) == nil {
			vpAssert(len(got) == n && got[p] == nil, "a NULL element is scanned as nil")
		}
	default:
		var got []net.HardwareAddr
		if MACAddr8ArrayToHardwareAddrSlice(&got).Scan(vpSrc(mk("01:02:03:04:05:06:07:08"))) == nil {
			vpAssert(len(got) == n && got[p] == nil, "a NULL element is scanned as nil")
		}
	}
}

func VP_P13_NilAndEmpty() {
	if vpBool() {
		vpNilValue(InetArrayFromIPSlice(nil), InetArrayFromIPNetSlice(nil), CIDRArrayFromIPNetSlice(nil),
			MACAddrArrayFromHardwareAddrSlice(nil), MACAddr8ArrayFromHardwareAddrSlice(nil),
			InetFromIP(nil), InetFromIPNet(net.IPNet{}), CIDRFromIPNet(net.IPNet{}), MACAddrFromHardwareAddr(nil), MACAddr8FromHardwareAddr(nil))
	} else {
		vpEmptyArray(InetArrayFromIPSlice([]net.IP{}), InetArrayFromIPNetSlice([]net.IPNet{}), CIDRArrayFromIPNetSlice([]net.IPNet{}),
			MACAddrArrayFromHardwareAddrSlice([]net.HardwareAddr{}), MACAddr8ArrayFromHardwareAddrSlice([]net.HardwareAddr{}))
	}
}
