package pgsql

import (
	"database/sql"
	"time"
)

// vpDate returns an arbitrary date: a listed one or, deep, any day of a listed month.
func vpDate(deep bool) (time.Time, []byte) {
	d := vpDays[vpChoose(vpBound("days", 4, len(vpDays)))]
	if deep && vpBool() {
		mm := 1 + vpChoose(12)
		day, text := vpTwo(29)
		vpAssume(day > 0)
		out := append([]byte("2004-"), byte('0'+mm/10), byte('0'+mm%10), '-')
		return time.Date(2004, time.Month(mm), day, 0, 0, 0, 0, time.UTC), append(out, text...)
	}
	return time.Date(d.y, time.Month(d.m), d.d, 0, 0, 0, 0, time.UTC), []byte(d.text)
}

func VP_P18_DateArrayFrom() {
	in := make([]time.Time, vpChoose(3))
	want := make([]vpElem, len(in))
	for i := range in {
		in[i], want[i].val = vpDate(false)
	}
	vpEncodes(DateArrayFromTimeSlice(in), want)
	vpNilValue(DateArrayFromTimeSlice(nil))
}

func VP_P18_DateArrayTo() {
	n := vpChoose(3)
	es := make([]vpElem, n)
	want := make([]time.Time, n)
	null := false
	for i := range es {
		want[i], es[i].val = vpDate(i == n-1)
		if i == 0 && vpBool() {
			es[i].null, want[i], null = true, time.Time{}, true
		}
	}
	got := []time.Time{{}, {}, {}}
	err := DateArrayToTimeSlice(&got).Scan(vpSrc(vpArrayOut(es, ',')))
	vpReach("scanned")
	if err != nil {
		vpAssert(null, "an array of dates is scanned")
		return
	}
	vpAssert(len(got) == n, "every date is scanned exactly once")
	if len(got) == n {
		for i := range got {
			vpAssert(got[i].Equal(want[i]), "every date is scanned exactly and in its place")
		}
	}
}

// vpDateRange is a daterange as PostgreSQL prints it, canonical, and its bounds (zero if missing).
func vpDateRange(deep bool) ([]byte, [2]time.Time) {
	var r [2]time.Time
	var text [2][]byte
	p := vpChoose(2)
	r[p], text[p] = vpDate(deep)
	r[1-p], text[1-p] = time.Date(2010, 5, 6, 0, 0, 0, 0, time.UTC), []byte("2010-05-06")
	open := "["
	switch vpChoose(4) {
	case 0:
		return []byte("(,)"), [2]time.Time{}
	case 1:
		r[0], text[0], open = time.Time{}, nil, "("
	case 2:
		r[1], text[1] = time.Time{}, nil
	}
	return vpJoin(open, text[:], ",", ")"), r
}

func VP_P18_DateRange() {
	text, r := vpDateRange(false)
	vpScalar(DateRangeFromTimeArray2(r), text)
	text, r = vpDateRange(true)
	if vpBool() {
		text, r = []byte("empty"), [2]time.Time{}
	}
	got := [2]time.Time{time.Unix(77, 0), time.Unix(77, 0)}
	err := DateRangeToTimeArray2(&got).Scan(vpSrc(text))
	vpReach("scanned")
	vpAssert(err == nil, "a daterange is scanned")
	vpAssert(vpAnd(got[0].Equal(r[0]), got[1].Equal(r[1])), "both bounds are scanned exactly")
}

func VP_P18_DateRangeArrayFrom() {
	n := vpChoose(3)
	in := make([][2]time.Time, n)
	want := make([]vpElem, n)
	for i := range in {
		want[i].val, in[i] = vpDateRange(false)
	}
	vpEncodes(DateRangeArrayFromTimeArray2Slice(in), want)
	vpNilValue(DateRangeArrayFromTimeArray2Slice(nil))
}

func VP_P18_DateRangeArrayTo() {
	n := vpChoose(3)
	es := make([]vpElem, n)
	want := make([][2]time.Time, n)
	null := false
	for i := range es {
		es[i].val, want[i] = vpDateRange(i == n-1)
		if i == 0 {
			switch vpChoose(3) {
			case 0:
				es[i].null, want[i], null = true, [2]time.Time{}, true
			case 1:
				es[i].val, want[i] = []byte("empty"), [2]time.Time{}
			}
		}
	}
	text := vpArrayOut(es, ',')
	vpObs("text", text)
	got := [][2]time.Time{{}, {}, {}}
	err := DateRangeArrayToTimeArray2Slice(&got).Scan(vpSrc(text))
	vpReach("scanned")
	if err != nil {
		vpAssert(null, "an array of dateranges is scanned")
		return
	}
	vpAssert(len(got) == n, "every range is scanned exactly once")
	if len(got) == n {
		for i := range got {
			vpAssert(vpAnd(got[i][0].Equal(want[i][0]), got[i][1].Equal(want[i][1])), "both bounds are scanned exactly")
		}
	}
}

// VP_P18_Scalar: the targets of columns which the driver delivers as a time.Time.
func VP_P18_Scalar() {
	var s string
	var b []byte
	var scans []sql.Scanner
	var want []byte
	var c vpClock
	switch vpChoose(3) {
	case 0:
		c = vpTime(false, false, true, false)
		want = c.text
		scans = []sql.Scanner{TimeToString(&s), TimeToByteSlice(&b)}
	case 1:
		c = vpTime(false, true, true, false)
		want = c.in
		scans = []sql.Scanner{TimetzToString(&s), TimetzToByteSlice(&b)}
	default:
		c.t, want = vpDate(false)
		scans = []sql.Scanner{DateToString(&s), DateToByteSlice(&b)}
		var t time.Time
		vpAssert(DateToTime(&t).Scan(c.t) == nil, "a date is scanned")
		vpAssert(t.Equal(c.t), "a date is scanned exactly")
	}
	for _, sc := range scans {
		vpAssert(sc.Scan(c.t) == nil, "a time is scanned")
	}
	vpReach("scanned")
	vpAssert(s == string(want), "the text is exactly the time's")
	vpAssert(string(b) == string(want), "the text is exactly the time's")
}
