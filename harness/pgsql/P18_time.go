package pgsql

import (
	"database/sql"
	"database/sql/driver"
	"time"
)

// vpClock is a point in time together with PostgreSQL's text of it (ISO date style, UTC or a fixed zone).
type vpClock struct {
	t    time.Time
	text []byte // of the kind asked for
	in   []byte // the form sent to the database, which always has the zone's minutes
}

type vpZone struct {
	off   int
	short string
	long  string
}

var vpZones = []vpZone{{0, "+00", "+00:00"}, {2 * 3600, "+02", "+02:00"}, {5*3600 + 1800, "+05:30", "+05:30"}, {-(3*3600 + 1800), "-03:30", "-03:30"}, {-8 * 3600, "-08", "-08:00"}}

type vpDay struct {
	y, m, d int
	text    string
}

var vpDays = []vpDay{{2004, 10, 19, "2004-10-19"}, {1999, 12, 31, "1999-12-31"}, {2000, 2, 29, "2000-02-29"}, {1969, 12, 31, "1969-12-31"}, {9999, 1, 1, "9999-01-01"}, {1, 1, 2, "0001-01-02"}}

func vpTwo(max int) (int, []byte) {
	n := vpDigits(1)
	d := vpByte()
	vpAssume(d >= '0')
	vpAssume(d <= '9')
	v := uint64(d-'0')*10 + n.mag
	vpAssume(v < uint64(max))
	return int(v), []byte{d, n.dig[0]}
}

// vpFraction returns an arbitrary number of microseconds and its text, with the point, without trailing zeros.
func vpFraction() (int, []byte) {
	n := vpChoose(7)
	if n == 0 {
		return 0, nil
	}
	us := 0
	text := []byte{'.'}
	for i := 0; i < n; i++ {
		d := vpByte()
		vpAssume(d >= '0')
		vpAssume(d <= '9')
		if i == n-1 {
			vpAssume(d != '0')
		}
		text = append(text, d)
		us = us*10 + int(d-'0')
	}
	for i := n; i < 6; i++ {
		us *= 10
	}
	return us, text
}

// vpTime returns an arbitrary time; date and zone tell whether its text has them, deep whether the time of day is arbitrary.
func vpTime(date, zone, deep, scan bool) vpClock {
	day := vpDay{0, 1, 1, ""}
	if date {
		day = vpDays[1]
		if deep {
			day = vpDays[vpChoose(vpBound("days", 3, len(vpDays)))]
		}
	}
	z := vpZone{}
	loc := time.UTC
	if zone {
		z = vpZones[1]
		if deep {
			z = vpZones[vpChoose(vpBound("zones", 3, len(vpZones)))]
		}
		loc = time.FixedZone("", z.off)
	}
	hh, mm, ss, us := 23, 4, 59, 120000
	th, tm, ts, tf := []byte("23"), []byte("04"), []byte("59"), []byte(".12")
	if deep {
		switch kind := vpChoose(4); {
		case kind == 2:
			us, tf = vpFraction()
		case !scan: // the clock of an instant isn't within the solver's reach: one of a few
			k := vpChoose(vpBound("clocks", 2, 6))
			hh, th = []int{0, 12, 9, 10, 23, 1}[k], []byte([]string{"00", "12", "09", "10", "23", "01"}[k])
			mm, tm = []int{0, 59, 30, 9, 59, 10}[k], []byte([]string{"00", "59", "30", "09", "59", "10"}[k])
			ss, ts = []int{0, 1, 59, 30, 59, 10}[k], []byte([]string{"00", "01", "59", "30", "59", "10"}[k])
			us, tf = 0, nil
		case kind == 0:
			hh, th = vpTwo(24)
		case kind == 3:
			mm, tm = vpTwo(60)
		default:
			ss, ts = vpTwo(60)
		}
	}
	text := []byte(day.text)
	if date {
		text = append(text, ' ')
	}
	text = append(text, th...)
	text = append(text, ':')
	text = append(text, tm...)
	text = append(text, ':')
	text = append(text, ts...)
	text = append(text, tf...)
	c := vpClock{t: time.Date(day.y, time.Month(day.m), day.d, hh, mm, ss, us*1000, loc)}
	c.text = append(append([]byte{}, text...), z.short...)
	c.in = append(append([]byte{}, text...), z.long...)
	return c
}

func vpTimes(date, zone, scan bool) []vpClock {
	cs := make([]vpClock, vpChoose(vpBound("elements", 2, 3)+1))
	for i := range cs {
		cs[i] = vpTime(date, zone, i == len(cs)-1, scan)
	}
	return cs
}

func vpTimeArrFrom(date, zone bool, mk func([]time.Time) driver.Valuer) {
	cs := vpTimes(date, zone, false)
	in := make([]time.Time, len(cs))
	want := make([]vpElem, len(cs))
	for i, c := range cs {
		in[i], want[i].val = c.t, c.in
	}
	vpEncodes(mk(in), want)
	vpNilValue(mk(nil))
}

// vpTimeArrOut is the text of a time array: unlike the other types' arrays, elements with a space are quoted.
func vpTimeArrOut(es []vpElem) []byte { return vpArrayOut(es, ',') }

func vpTimeArrTo(date, zone bool, mk func(*[]time.Time) sql.Scanner) {
	cs := vpTimes(date, zone, true)
	es := make([]vpElem, len(cs))
	null := false
	for i, c := range cs {
		es[i].val = c.text
		if i == 0 && vpBool() {
			es[i].null, null = true, true
		}
	}
	text := vpTimeArrOut(es)
	vpObs("text", text)
	got := []time.Time{time.Unix(77, 5)}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	if err != nil {
		vpAssert(null, "an array of times is scanned")
		return
	}
	vpAssert(len(got) == len(cs), "every time is scanned exactly once")
	if len(got) == len(cs) {
		for i := range got {
			if es[i].null {
				vpAssert(got[i].IsZero(), "a NULL element is scanned as the zero time")
			} else {
				vpSameTime(got[i], cs[i], zone)
			}
		}
	}
}

func vpSameTime(got time.Time, c vpClock, zone bool) {
	vpAssert(got.Equal(c.t), "every time is scanned exactly and in its place")
	_, off := got.Zone()
	_, want := c.t.Zone()
	vpAssert(vpOr(!zone, off == want), "the zone's offset is kept")
}

func VP_P18_TimeArray() {
	if vpBool() {
		vpTimeArrFrom(false, false, TimeArrayFromTimeSlice)
	} else {
		vpTimeArrTo(false, false, TimeArrayToTimeSlice)
	}
}
func VP_P18_TimetzArray() {
	if vpBool() {
		vpTimeArrFrom(false, true, TimetzArrayFromTimeSlice)
	} else {
		vpTimeArrTo(false, true, TimetzArrayToTimeSlice)
	}
}
func VP_P18_TimestampArray() {
	if vpBool() {
		vpTimeArrFrom(true, false, TimestampArrayFromTimeSlice)
	} else {
		vpTimeArrTo(true, false, TimestampArrayToTimeSlice)
	}
}
func VP_P18_TimestamptzArray() {
	if vpBool() {
		vpTimeArrFrom(true, true, TimestamptzArrayFromTimeSlice)
	} else {
		vpTimeArrTo(true, true, TimestamptzArrayToTimeSlice)
	}
}

// vpTimeRange is a range with two bounds of which one is arbitrary.
func vpTimeRange(zone, deep, scan bool) [2]vpClock {
	p := vpChoose(2)
	var r [2]vpClock
	r[p], r[1-p] = vpTime(true, zone, deep, scan), vpTime(true, zone, false, scan)
	return r
}

func vpRangeText(open string, a, b []byte, close string) []byte {
	q := func(x []byte) []byte {
		if len(x) == 0 {
			return nil
		}
		return vpJoin(`"`, [][]byte{x}, "", `"`)
	}
	return vpJoin(open, [][]byte{q(a), q(b)}, ",", close)
}

func vpTimeRangeOut(zone, deep bool) ([]byte, [2]vpClock) {
	r := vpTimeRange(zone, deep, true)
	open, closing := "(", ")"
	switch vpChoose(5) {
	case 0:
		return []byte("empty"), [2]vpClock{}
	case 1:
		r[0] = vpClock{}
	case 2:
		r[1] = vpClock{}
	case 3:
		r = [2]vpClock{}
	default:
		open = "["
		if vpBool() {
			closing = "]"
		}
	}
	return vpRangeText(open, r[0].text, r[1].text, closing), r
}

func vpSameRange(got [2]time.Time, r [2]vpClock, zone bool) {
	for i := range got {
		if r[i].text == nil {
			vpAssert(got[i].IsZero(), "a missing bound is scanned as the zero time")
		} else {
			vpSameTime(got[i], r[i], zone)
		}
	}
}

func vpTimeRangeFrom(zone bool, mk func([2]time.Time) driver.Valuer) {
	r := vpTimeRange(zone, true, false)
	vpScalar(mk([2]time.Time{r[0].t, r[1].t}), vpRangeText("[", r[0].in, r[1].in, ")"))
}

func vpTimeRangeTo(zone bool, mk func(*[2]time.Time) sql.Scanner) {
	text, r := vpTimeRangeOut(zone, true)
	vpObs("text", text)
	got := [2]time.Time{time.Unix(77, 5), time.Unix(77, 5)}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	vpAssert(err == nil, "a range is scanned")
	if err == nil {
		vpSameRange(got, r, zone)
	}
}

func vpTimeRangeArrFrom(zone bool, mk func([][2]time.Time) driver.Valuer) {
	n := vpChoose(3)
	in := make([][2]time.Time, n)
	want := make([]vpElem, n)
	for i := range in {
		r := vpTimeRange(zone, i == n-1, false)
		in[i] = [2]time.Time{r[0].t, r[1].t}
		want[i].val = vpRangeText("[", r[0].in, r[1].in, ")")
	}
	vpEncodes(mk(in), want)
	vpNilValue(mk(nil))
}

func vpTimeRangeArrTo(zone bool, mk func(*[][2]time.Time) sql.Scanner) {
	n := vpChoose(3)
	es := make([]vpElem, n)
	rs := make([][2]vpClock, n)
	null := false
	for i := range es {
		es[i].val, rs[i] = vpTimeRangeOut(zone, i == n-1)
		if i == 0 && vpBool() {
			es[i].null, rs[i], null = true, [2]vpClock{}, true
		}
	}
	text := vpArrayOut(es, ',')
	vpObs("text", text)
	got := [][2]time.Time{{}, {}, {}}
	err := mk(&got).Scan(vpSrc(text))
	vpReach("scanned")
	if err != nil {
		vpAssert(null, "an array of ranges is scanned")
		return
	}
	vpAssert(len(got) == n, "every range is scanned exactly once")
	if len(got) == n {
		for i := range got {
			vpSameRange(got[i], rs[i], zone)
		}
	}
}

func VP_P18_TsRange() {
	if vpBool() {
		vpTimeRangeFrom(false, TsRangeFromTimeArray2)
	} else {
		vpTimeRangeTo(false, TsRangeToTimeArray2)
	}
}
func VP_P18_TstzRange() {
	if vpBool() {
		vpTimeRangeFrom(true, TstzRangeFromTimeArray2)
	} else {
		vpTimeRangeTo(true, TstzRangeToTimeArray2)
	}
}
func VP_P18_TsRangeArray() {
	if vpBool() {
		vpTimeRangeArrFrom(false, TsRangeArrayFromTimeArray2Slice)
	} else {
		vpTimeRangeArrTo(false, TsRangeArrayToTimeArray2Slice)
	}
}
func VP_P18_TstzRangeArray() {
	if vpBool() {
		vpTimeRangeArrFrom(true, TstzRangeArrayFromTimeArray2Slice)
	} else {
		vpTimeRangeArrTo(true, TstzRangeArrayToTimeArray2Slice)
	}
}
