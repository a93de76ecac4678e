package pgsql

import (
	"database/sql/driver"
	"strconv"
)

func vpPt(c []vpCoord) []byte { return vpJoin("(", [][]byte{c[0].text, c[1].text}, ",", ")") }

func vpPts(open string, c []vpCoord, close string) []byte {
	var ps [][]byte
	for i := 0; i+1 < len(c); i += 2 {
		ps = append(ps, vpPt(c[i:]))
	}
	return vpJoin(open, ps, ",", close)
}

func vpLine(c []vpCoord) []byte {
	return vpJoin("{", [][]byte{c[0].text, c[1].text, c[2].text}, ",", "}")
}

func vpA2(c []vpCoord) [2]float64 { return [2]float64{c[0].val, c[1].val} }

func vpA2s(c []vpCoord) [][2]float64 {
	out := make([][2]float64, len(c)/2)
	for i := range out {
		out[i] = vpA2(c[2*i:])
	}
	return out
}

func vpA22(c []vpCoord) [2][2]float64 { return [2][2]float64{vpA2(c), vpA2(c[2:])} }

func vpSame2(got [2]float64, c []vpCoord) {
	vpAssert(got[0] == c[0].val, "every coordinate is scanned unchanged and in its place")
	vpAssert(got[1] == c[1].val, "every coordinate is scanned unchanged and in its place")
}

func vpSame2s(got [][2]float64, c []vpCoord) {
	vpAssert(len(got) == len(c)/2, "every point is scanned once")
	if len(got) == len(c)/2 {
		for i := range got {
			vpSame2(got[i], c[2*i:])
		}
	}
}

// vpSmallCoords returns n coordinates, each zero or one: points that coincide, and values that are zero.
func vpSmallCoords(n int) []vpCoord {
	cs := make([]vpCoord, n)
	for i := range cs {
		if vpBool() {
			cs[i] = vpCoord{[]byte("1"), 1}
		} else {
			cs[i] = vpCoord{[]byte("0"), 0}
		}
	}
	return cs
}

func vpGeoCoords(n int, exp bool) []vpCoord {
	if vpBool() {
		return vpSmallCoords(n)
	}
	return vpCoords(n, exp)
}

func vpNPts() int { return 2 * (1 + vpChoose(vpBound("points", 2, 3))) }

func VP_P12_ScalarFrom() {
	switch vpChoose(6) {
	case 0:
		c := vpGeoCoords(2, false)
		vpScalar(PointFromFloat64Array2(vpA2(c)), vpPt(c))
	case 1:
		c := vpGeoCoords(3, false)
		vpScalar(LineFromFloat64Array3([3]float64{c[0].val, c[1].val, c[2].val}), vpLine(c))
	case 2:
		c := vpGeoCoords(4, false)
		vpScalar(LsegFromFloat64Array2Array2(vpA22(c)), vpPts("[", c, "]"))
	case 3:
		c := vpGeoCoords(4, false)
		vpScalar(BoxFromFloat64Array2Array2(vpA22(c)), vpPts("(", c, ")"))
	case 4:
		c := vpGeoCoords(vpNPts(), false)
		vpScalar(PathFromFloat64Array2Slice(vpA2s(c)), vpPts("[", c, "]"))
	default:
		c := vpGeoCoords(vpNPts(), false)
		vpScalar(PolygonFromFloat64Array2Slice(vpA2s(c)), vpPts("(", c, ")"))
		vpNilValue(PathFromFloat64Array2Slice(nil), PolygonFromFloat64Array2Slice(nil))
	}
}

func VP_P12_ScalarTo() {
	switch vpChoose(6) {
	case 0:
		c := vpGeoCoords(2, true)
		got := [2]float64{7, 7}
		vpScanOK(PointToFloat64Array2(&got), vpPt(c))
		vpSame2(got, c)
	case 1:
		c := vpGeoCoords(3, true)
		got := [3]float64{7, 7, 7}
		vpScanOK(LineToFloat64Array3(&got), vpLine(c))
		for i := range got {
			vpAssert(got[i] == c[i].val, "every coordinate is scanned unchanged and in its place")
		}
	case 2:
		c := vpGeoCoords(4, true)
		got := [2][2]float64{{7, 7}, {7, 7}}
		vpScanOK(LsegToFloat64Array2Array2(&got), vpPts("[", c, "]"))
		vpSame2s(got[:], c)
	case 3:
		c := vpGeoCoords(4, true)
		got := [2][2]float64{{7, 7}, {7, 7}}
		vpScanOK(BoxToFloat64Array2Array2(&got), vpPts("", c, ""))
		vpSame2s(got[:], c)
	case 4:
		c := vpGeoCoords(vpNPts(), true)
		open, close := "[", "]"
		if vpBool() {
			open, close = "(", ")"
		}
		got := [][2]float64{{7, 7}}
		vpScanOK(PathToFloat64Array2Slice(&got), vpPts(open, c, close))
		vpSame2s(got, c)
	default:
		c := vpGeoCoords(vpNPts(), true)
		got := [][2]float64{{7, 7}}
		vpScanOK(PolygonToFloat64Array2Slice(&got), vpPts("(", c, ")"))
		vpSame2s(got, c)
	}
}

// vpGeos returns up to two values of k coordinates (k 0: one or two points), all but one constant; at most one is NULL.
func vpGeos(k int, exp, null bool) [][]vpCoord {
	n := vpChoose(vpBound("elements", 2, 3) + 1)
	vs := make([][]vpCoord, n)
	if n == 0 {
		return vs
	}
	if vpBool() {
		// the same value over and over
		m := k
		if m == 0 {
			m = 4
		}
		c := vpSmallCoords(m)
		for i := range vs {
			vs[i] = c
		}
		return vs
	}
	p := vpChoose(n)
	for i := range vs {
		m := k
		if m == 0 {
			m = 2 * (1 + i%2)
			if i == p {
				m = 4
			}
		}
		if i == p {
			vs[i] = vpCoords(m, exp)
		} else if null && vpBool() {
			vs[i] = nil
		} else {
			vs[i] = make([]vpCoord, m)
			for j := range vs[i] {
				x := int64(11*(i+1) + 100*j)
				vs[i][j] = vpCoord{strconv.AppendInt(nil, x, 10), float64(x)}
			}
		}
	}
	return vs
}

func vpGeoElems(vs [][]vpCoord, text func([]vpCoord) []byte) []vpElem {
	es := make([]vpElem, len(vs))
	for i := range vs {
		if vs[i] == nil {
			es[i].null = true
		} else {
			es[i].val = text(vs[i])
		}
	}
	return es
}

func vpLsegText(c []vpCoord) []byte { return vpPts("[", c, "]") }
func vpPolyText(c []vpCoord) []byte { return vpPts("(", c, ")") }
func vpBoxText(c []vpCoord) []byte  { return vpPts("", c, "") }

func VP_P12_ArrayFrom() {
	switch vpChoose(6) {
	case 0:
		vs := vpGeos(2, false, false)
		in := make([][2]float64, len(vs))
		for i := range vs {
			in[i] = vpA2(vs[i])
		}
		vpEncodes(PointArrayFromFloat64Array2Slice(in), vpGeoElems(vs, vpPt))
	case 1:
		vs := vpGeos(3, false, false)
		in := make([][3]float64, len(vs))
		for i := range vs {
			in[i] = [3]float64{vs[i][0].val, vs[i][1].val, vs[i][2].val}
		}
		vpEncodes(LineArrayFromFloat64Array3Slice(in), vpGeoElems(vs, vpLine))
	case 2:
		vs := vpGeos(4, false, false)
		in := make([][2][2]float64, len(vs))
		for i := range vs {
			in[i] = vpA22(vs[i])
		}
		vpEncodes(LsegArrayFromFloat64Array2Array2Slice(in), vpGeoElems(vs, vpLsegText))
	case 3:
		vs := vpGeos(4, false, false)
		in := make([][2][2]float64, len(vs))
		for i := range vs {
			in[i] = vpA22(vs[i])
		}
		var v driver.Valuer = BoxArrayFromFloat64Array2Array2Slice(in)
		got := vpEncoded(v, ';')
		vpAssert(vpElemsEq(got, vpGeoElems(vs, vpBoxText)), "the literal denotes exactly the given elements")
	case 4:
		vs := vpGeos(0, false, true)
		in := make([][][2]float64, len(vs))
		for i := range vs {
			if vs[i] != nil {
				in[i] = vpA2s(vs[i])
			}
		}
		vpEncodes(PathArrayFromFloat64Array2SliceSlice(in), vpGeoElems(vs, vpLsegText))
	default:
		vs := vpGeos(0, false, true)
		in := make([][][2]float64, len(vs))
		for i := range vs {
			if vs[i] != nil {
				in[i] = vpA2s(vs[i])
			}
		}
		vpEncodes(PolygonArrayFromFloat64Array2SliceSlice(in), vpGeoElems(vs, vpPolyText))
		vpNilValue(PointArrayFromFloat64Array2Slice(nil), LineArrayFromFloat64Array3Slice(nil), LsegArrayFromFloat64Array2Array2Slice(nil),
			BoxArrayFromFloat64Array2Array2Slice(nil), PathArrayFromFloat64Array2SliceSlice(nil), PolygonArrayFromFloat64Array2SliceSlice(nil))
	}
}

// vpGeoScan scans an array and reports whether its elements are to be compared.
func vpGeoScan(scan func(any) error, vs [][]vpCoord, es []vpElem, delim byte, nilable bool) bool {
	null := false
	for i := range es {
		null = null || es[i].null
	}
	text := vpArrayOut(es, delim)
	vpObs("text", text)
	err := scan(vpSrc(text))
	vpReach("scanned")
	vpAssert(err == nil || null && !nilable, "scanning reports no error")
	return err == nil
}

func vpArr2s(vs [][]vpCoord, got [][][2]float64) {
	vpAssert(len(got) == len(vs), "every element is scanned once")
	if len(got) == len(vs) {
		for i := range vs {
			vpAssert((got[i] == nil) == (vs[i] == nil), "exactly the NULL elements are scanned as nil")
			vpSame2s(got[i], vs[i])
		}
	}
}

func vpArr22(vs [][]vpCoord, got [][2][2]float64) {
	vpAssert(len(got) == len(vs), "every element is scanned once")
	if len(got) == len(vs) {
		for i := range vs {
			if vs[i] == nil {
				vpAssert(got[i] == [2][2]float64{}, "a NULL element is scanned as zero")
			} else {
				vpSame2s(got[i][:], vs[i])
			}
		}
	}
}

func VP_P12_ArrayTo() {
	switch vpChoose(6) {
	case 0:
		vs := vpGeos(2, true, true)
		got := [][2]float64{{7, 7}}
		if vpGeoScan(PointArrayToFloat64Array2Slice(&got).Scan, vs, vpGeoElems(vs, vpPt), ',', false) {
			vpAssert(len(got) == len(vs), "every element is scanned once")
			for i := range vs {
				if len(got) == len(vs) && vs[i] != nil {
					vpSame2(got[i], vs[i])
				} else if len(got) == len(vs) {
					vpAssert(got[i] == [2]float64{}, "a NULL element is scanned as zero")
				}
			}
		}
	case 1:
		vs := vpGeos(3, true, true)
		got := [][3]float64{{7, 7, 7}}
		if vpGeoScan(LineArrayToFloat64Array3Slice(&got).Scan, vs, vpGeoElems(vs, vpLine), ',', false) {
			vpAssert(len(got) == len(vs), "every element is scanned once")
			for i := range vs {
				if len(got) == len(vs) && vs[i] != nil {
					for j := range vs[i] {
						vpAssert(got[i][j] == vs[i][j].val, "every coordinate is scanned unchanged and in its place")
					}
				} else if len(got) == len(vs) {
					vpAssert(got[i] == [3]float64{}, "a NULL element is scanned as zero")
				}
			}
		}
	case 2:
		vs := vpGeos(4, true, true)
		got := [][2][2]float64{{{7, 7}, {7, 7}}}
		if vpGeoScan(LsegArrayToFloat64Array2Array2Slice(&got).Scan, vs, vpGeoElems(vs, vpLsegText), ',', false) {
			vpArr22(vs, got)
		}
	case 3:
		vs := vpGeos(4, true, true)
		got := [][2][2]float64{{{7, 7}, {7, 7}}}
		if vpGeoScan(BoxArrayToFloat64Array2Array2Slice(&got).Scan, vs, vpGeoElems(vs, vpBoxText), ';', false) {
			vpArr22(vs, got)
		}
	case 4:
		vs := vpGeos(0, true, true)
		open := vpBool()
		got := [][][2]float64{{{7, 7}}}
		text := vpPolyText
		if open {
			text = vpLsegText
		}
		if vpGeoScan(PathArrayToFloat64Array2SliceSlice(&got).Scan, vs, vpGeoElems(vs, text), ',', true) {
			vpArr2s(vs, got)
		}
	default:
		vs := vpGeos(0, true, true)
		got := [][][2]float64{{{7, 7}}}
		if vpGeoScan(PolygonArrayToFloat64Array2SliceSlice(&got).Scan, vs, vpGeoElems(vs, vpPolyText), ',', true) {
			vpArr2s(vs, got)
		}
	}
}
