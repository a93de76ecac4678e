package api

// Harness interface.  The symbolic engine intercepts the vp* functions below that read the tape; compiled natively they
// replay a tape of concrete values, so that every model the solver returns runs against the real code.

import "strconv"

type vpEnd struct{}

var (
	vpTape    []uint64
	vpPos     int
	vpFailed  []string
	vpObsLog  []string
	vpReached []string
	vpAssumed bool
)

func vpNext() uint64 {
	if vpPos >= len(vpTape) {
		vpPos++
		return 0
	}
	v := vpTape[vpPos]
	vpPos++
	return v
}

func vpByte() byte         { return byte(vpNext()) }
func vpBool() bool         { return vpNext()&1 == 1 }
func vpU8() uint8          { return uint8(vpNext()) }
func vpU16() uint16        { return uint16(vpNext()) }
func vpU32() uint32        { return uint32(vpNext()) }
func vpU64() uint64        { return vpNext() }
func vpI8() int8           { return int8(vpNext()) }
func vpI16() int16         { return int16(vpNext()) }
func vpI32() int32         { return int32(vpNext()) }
func vpI64() int64         { return int64(vpNext()) }
func vpInt() int           { return int(vpNext()) }
func vpChoose(n int) int {
	if n <= 1 {
		vpNext()
		return 0
	}
	return int(vpNext() % uint64(n))
}

// vpAssume restricts the inputs to those satisfying the stated precondition.
func vpAssume(c bool) {
	if !c {
		vpAssumed = true
		panic(vpEnd{})
	}
}

// vpAssert states the property.
func vpAssert(c bool, msg string) {
	if !c {
		vpFailed = append(vpFailed, msg)
	}
}

// vpReach is a vacuity witness: the check warns when no feasible path gets here.
func vpReach(name string) { vpReached = append(vpReached, name) }

// vpObs records a value for comparison between the symbolic and the native run.
func vpObs(name string, v any) {
	s := "?"
	switch x := v.(type) {
	case string:
		s = strconv.Quote(x)
	case []byte:
		s = strconv.Quote(string(x))
	case int:
		s = strconv.FormatUint(uint64(x), 10)
	case int64:
		s = strconv.FormatUint(uint64(x), 10)
	case uint64:
		s = strconv.FormatUint(x, 10)
	case bool:
		s = "0"
		if x {
			s = "1"
		}
	}
	vpObsLog = append(vpObsLog, name+"="+s)
}

// vpBound returns the bound for the current tier and records it in the evidence.
func vpBound(name string, quick, thorough int) int { return int(vpNext()) }
func vpThorough() bool                              { return vpNext()&1 == 1 }

// vpPermuteMaps makes every later range over a map visit the entries in an arbitrary order.
func vpPermuteMaps(on bool) {}

// Non-branching connectives.
func vpAnd(cs ...bool) bool {
	r := true
	for _, c := range cs {
		r = r && c
	}
	return r
}

func vpOr(cs ...bool) bool {
	r := false
	for _, c := range cs {
		r = r || c
	}
	return r
}

func vpIteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

func vpIteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// vpJSONField is the field of *p that encoding/json decodes the key into, known to the symbolic engine only.
func vpJSONField(p any, key string) any { panic("vpJSONField") }

// vpSkip ends the path (outside the stated bounds).
func vpSkip() { vpAssumed = true; panic(vpEnd{}) }

// vpBytes returns n arbitrary bytes.
func vpBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByte()
	}
	return b
}

// vpString returns an arbitrary string of n bytes.
func vpString(n int) string { return string(vpBytes(n)) }

// vpPanics reports whether f panics.
func vpPanics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vpEnd); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// VPRun replays one tape natively.
func VPRun(name string, tape []uint64) (outcome, msg string, failed, obs, reached []string) {
	f := vpHarnesses[name]
	if f == nil {
		return "unknown harness", "", nil, nil, nil
	}
	vpTape, vpPos, vpFailed, vpObsLog, vpReached, vpAssumed = tape, 0, nil, nil, nil, false
	outcome = "done"
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vpEnd); ok {
					outcome = "assume"
					return
				}
				outcome = "panic"
				switch x := r.(type) {
				case error:
					msg = x.Error()
				case string:
					msg = x
				default:
					msg = "panic"
				}
			}
		}()
		f()
	}()
	return outcome, msg, vpFailed, vpObsLog, vpReached
}
