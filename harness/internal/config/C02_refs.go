package config

import "strings"

// References to Go types and functions are split at their last dots.

func vpLastDot(s string) int {
	at := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			at = i
		}
	}
	return at
}

// vpASCII is a text of any characters but control characters.
func vpASCII(n int) string {
	b := vpBytes(n)
	for _, c := range b {
		vpAssume(vpAnd(c >= ' ', c < 0x7f))
	}
	return string(b)
}

// Types: [*]package/path.Name
func VP_C02_Type() {
	n := 1 + vpChoose(vpBound("characters of a type", 6, 9))
	s := vpASCII(n)
	var t GoType
	if vpBool() { // set before
		t.Set([]string{"*a/b.C", "d.E"}[vpChoose(2)])
	}
	var err error
	file := vpBool()
	if file {
		t = GoType{Name: "Conn", PkgPath: "github.com/frk/gosql", PkgName: "gosql"}
		for i := 0; i < n; i++ {
			vpAssume(vpAnd(s[i] != '"', s[i] != '\\'))
		}
		err = t.UnmarshalJSON([]byte(`"` + s + `"`))
	} else {
		err = t.Set(s)
	}
	dot := vpLastDot(s)
	if dot < 0 {
		vpAssert(err != nil, "a type without a package is accepted")
		vpReach("rejected")
		return
	}
	if err != nil { // names and paths that cannot be may be rejected
		path := s[:dot]
		if len(path) > 0 && path[0] == '*' {
			path = path[1:]
		}
		vpAssert(!vpWellFormed(path, s[dot+1:]), "a well-formed type is rejected")
		return
	}
	ptr := s[0] == '*'
	path := s[:dot]
	if ptr {
		path = s[1:dot]
	}
	vpObs("type", t.String())
	vpAssert(t.IsPtr == ptr, "the mark of a pointer is lost or made up")
	vpAssert(vpAnd(t.PkgPath == path, t.Name == s[dot+1:]), "a type is split at another place")
	vpAssert(t.String() == s, "a type is printed otherwise")
	vpAssert(t.IsSet, "a type is not marked as set")
	vpReach("type")
}

func vpLetter(c byte) bool {
	return vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z'), c == '_')
}

func vpWord(c byte) bool { return vpOr(vpLetter(c), vpAnd(c >= '0', c <= '9')) }

// vpWellFormed says whether the parts can be a package's path and the name of an
// object in it: elements of letters, digits, dots and dashes, slashes in between.
func vpWellFormed(path, name string) bool {
	if len(path) == 0 || len(name) == 0 {
		return false
	}
	ok := vpAnd(vpLetter(name[0]), vpWord(path[0]), vpWord(path[len(path)-1]))
	for i := 1; i < len(name); i++ {
		ok = vpAnd(ok, vpWord(name[i]))
	}
	for i := 0; i < len(path); i++ {
		c := path[i]
		ok = vpAnd(ok, vpOr(vpWord(c), c == '.', c == '-', c == '/'))
	}
	return ok
}

// Objects: package/path.Name
func VP_C02_Object() {
	n := 1 + vpChoose(vpBound("characters of an identifier", 6, 8))
	s := vpASCII(n)
	var id ObjectIdent
	var err error
	if vpBool() {
		id.Set("a/b.C")
		err = id.Set(s)
	} else if vpBool() {
		for i := 0; i < n; i++ {
			vpAssume(vpAnd(s[i] != '"', s[i] != '\\'))
		}
		err = id.UnmarshalJSON([]byte(`"` + s + `"`))
	} else {
		err = id.Set(s)
	}
	dot := vpLastDot(s)
	ok := dot >= 0 && vpWellFormed(s[:dot], s[dot+1:])
	if err != nil {
		vpAssert(!ok, "a well-formed identifier is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(ok, "a malformed identifier is accepted")
	vpObs("id", id.String())
	vpAssert(vpAnd(id.PkgPath == s[:dot], id.Name == s[dot+1:]), "an identifier is split at another place")
	vpAssert(id.String() == s, "an identifier is printed otherwise")
	vpAssert(id.IsSet, "an identifier is not marked as set")
	vpReach("object")
}

// Paths of several elements.
func VP_C02_Paths() {
	host := []string{"github.com", "example.com", "gopkg.in", "a-b.c"}[vpChoose(4)]
	a, b, name := vpASCII(1+vpChoose(3)), vpASCII(1+vpChoose(vpBound("letters of a name", 2, 4))), vpASCII(1+vpChoose(2))
	path := host + "/" + a + "/" + b
	ok := vpAnd(vpWellFormed(path, name), !strings.Contains(name, "."))
	vpAssume(ok)
	s := path + "." + name
	var t GoType
	var id ObjectIdent
	star := vpBool()
	arg := s
	if star {
		arg = "*" + s
	}
	vpAssert(t.Set(arg) == nil, "a well-formed type is rejected")
	vpAssert(vpAnd(t.PkgPath == path, t.Name == name, t.IsPtr == star), "a type is split at another place")
	vpAssert(id.Set(s) == nil, "a well-formed identifier is rejected")
	vpAssert(vpAnd(id.PkgPath == path, id.Name == name), "an identifier is split at another place")
	vpReach("paths")
}
