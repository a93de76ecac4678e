package pgsql

import (
	"database/sql"
	"encoding/json"
	"errors"
)

// P19: documents (json, jsonb, xml) reach the Go value as the codec of the standard library reads them, whichever of
// its two forms - bytes or a string - the driver hands over, and are sent as that codec writes them.
//
// The codecs of the standard library work by reflection and are outside the encoding; in symbolic runs they are
// replaced by the models below, which agree with them on the documents the harnesses build (a JSON string of letters,
// an XML element of letters).  Native validation of a counterexample uses the real codecs.

// vpDoc is a value that reads and writes itself as JSON.
type vpDoc struct {
	text []byte
	read int
}

func (d *vpDoc) UnmarshalJSON(b []byte) error {
	d.text = append([]byte{}, b...)
	d.read++
	return nil
}

func (d *vpDoc) MarshalJSON() ([]byte, error) {
	return d.text, nil
}

func vpValidJSONText(b []byte) bool {
	n := len(b)
	if n < 2 {
		return false
	}
	ok := vpAnd(b[0] == '"', b[n-1] == '"')
	for i := 1; i < n-1; i++ {
		ok = vpAnd(ok, b[i] != '"')
	}
	return ok
}

//vp:stub encoding/json.Unmarshal
func vpJSONUnmarshal(b []byte, v any) error {
	if !vpValidJSONText(b) {
		return errors.New("invalid JSON")
	}
	if s, ok := v.(*string); ok {
		*s = string(b[1 : len(b)-1])
		return nil
	}
	u, ok := v.(json.Unmarshaler)
	if !ok {
		return errors.New("not a pointer to a value that can hold the document")
	}
	return u.UnmarshalJSON(b)
}

//vp:stub encoding/json.Marshal
func vpJSONMarshal(v any) ([]byte, error) {
	if p, ok := v.(*string); ok {
		if p == nil {
			return []byte("null"), nil
		}
		v = *p
	}
	if s, ok := v.(string); ok {
		return []byte(`"` + s + `"`), nil
	}
	if u, ok := v.(json.Marshaler); ok {
		b, err := u.MarshalJSON()
		if string(b) == "null" {
			return b, err
		}
		if err != nil || !vpValidJSONText(b) {
			return nil, errors.New("invalid JSON")
		}
		return append([]byte{}, b...), nil
	}
	return nil, errors.New("unsupported")
}

// an XML document of the harnesses: <a>letters</c>, valid when c is a
func vpXMLText(b []byte) ([]byte, bool) {
	n := len(b)
	if n < 7 {
		return nil, false
	}
	ok := vpAnd(vpAnd(b[0] == '<', b[1] == 'a'), b[2] == '>')
	ok = vpAnd(ok, vpAnd(vpAnd(b[n-4] == '<', b[n-3] == '/'), vpAnd(b[n-2] == 'a', b[n-1] == '>')))
	return b[3 : n-4], ok
}

//vp:stub encoding/xml.Unmarshal
func vpXMLUnmarshal(b []byte, v any) error {
	s, ok := v.(*string)
	if !ok {
		return errors.New("not a pointer to a string")
	}
	text, valid := vpXMLText(b)
	if !valid {
		return errors.New("invalid XML")
	}
	*s = string(text)
	return nil
}

//vp:stub encoding/xml.Marshal
func vpXMLMarshal(v any) ([]byte, error) {
	if s, ok := v.(string); ok {
		return []byte("<string>" + s + "</string>"), nil
	}
	return nil, errors.New("unsupported")
}

func vpLetters(n int) []byte {
	b := vpBytes(n)
	for i := range b {
		vpAssume(vpAnd(b[i] >= 'a', b[i] <= 'z'))
	}
	return b
}

// the three things a driver can hand over for the document
func vpDocSource(form int, doc []byte) any {
	switch form {
	case 0:
		return doc
	case 1:
		return string(doc)
	}
	return nil
}

func vpScanDoc(s sql.Scanner, src any) (err error, panicked bool) {
	panicked = vpPanics(func() { err = s.Scan(src) })
	return err, panicked
}

func VP_P19_JSONScan() {
	n := vpChoose(vpBound("letters", 3, 6) + 1)
	doc := append([]byte{'"'}, vpLetters(n)...)
	last := vpByte()
	vpAssume(vpOr(last == '"', vpAnd(last >= 'a', last <= 'z')))
	doc = append(doc, last)
	form := vpChoose(3)
	vpObs("document", string(doc))
	vpObs("form", form)

	src := vpDocSource(form, doc)
	kind := vpChoose(3)
	vpObs("kind", kind)
	if kind > 0 {
		raw, str := json.RawMessage("old"), "old"
		var val any = &raw
		if kind == 2 {
			val = &str
		}
		err, panicked := vpScanDoc(JSON(val), src)
		vpAssert(!panicked, "scanning a JSON document panics")
		switch {
		case form == 2:
			vpAssert(err == nil, "NULL is an error for a JSON value")
			vpAssert(string(raw) == "old" && str == "old", "NULL changes the Go value")
		case last != '"':
			vpAssert(err != nil, "an invalid JSON document is not reported")
		case kind == 1:
			vpAssert(err == nil, "a valid JSON document is refused")
			vpAssert(string(raw) == string(doc), "the Go value does not hold the JSON document")
			if b, ok := src.([]byte); ok {
				b[0] = 'X'
				vpAssert(raw[0] == '"', "the Go value keeps memory of the driver")
			}
		default:
			vpAssert(err == nil, "a valid JSON document is refused")
			vpAssert(str == string(doc[1:len(doc)-1]), "the Go value does not hold the JSON document")
		}
		vpReach("P19")
		return
	}

	val := &vpDoc{text: []byte("old")}
	err, panicked := vpScanDoc(JSON(val), src)
	vpAssert(!panicked, "scanning a JSON document panics")
	if form == 2 {
		vpAssert(err == nil, "NULL is an error for a JSON value")
		vpAssert(string(val.text) == "old" && val.read == 0, "NULL changes the Go value")
		vpReach("P19")
		return
	}
	if last == '"' {
		vpAssert(err == nil, "a valid JSON document is refused")
		vpAssert(val.read == 1, "the JSON document does not reach the Go value")
		vpAssert(string(val.text) == string(doc), "the Go value does not hold the JSON document")
		// the memory of the source is the driver's
		if b, ok := src.([]byte); ok {
			for i := range b {
				b[i] = 'X'
			}
			vpAssert(val.text[0] == '"', "the Go value keeps memory of the driver")
		}
	} else {
		vpAssert(err != nil, "an invalid JSON document is not reported")
	}
	vpReach("P19")
}

func VP_P19_JSONValue() {
	n := vpChoose(vpBound("letters", 3, 6) + 1)
	doc := append([]byte{'"'}, vpLetters(n)...)
	last := vpByte()
	vpAssume(vpOr(last == '"', vpAnd(last >= 'a', last <= 'z')))
	doc = append(doc, last)
	vpObs("document", string(doc))

	kind := vpChoose(5)
	vpObs("kind", kind)
	var val any = &vpDoc{text: doc}
	switch kind {
	case 1:
		val = json.RawMessage(doc)
	case 2:
		raw := json.RawMessage(doc)
		val = &raw
	case 3:
		// the letters as a Go string
		vpAssume(last == '"')
		val = string(doc[1 : len(doc)-1])
	case 4:
		// nothing, which JSON writes as null
		vpAssume(n == 0 && last == '"')
		for _, val := range []any{json.RawMessage(nil), (*string)(nil)} {
			v, err := JSON(val).Value()
			got, ok := vpDriverText(v)
			vpAssert(err == nil && ok && got == "null", "the JSON document sent is not that of the Go value")
		}
		vpReach("P19")
		return
	}
	v, err := JSON(val).Value()
	if last != '"' {
		vpAssert(err != nil, "a Go value that cannot be written as JSON is sent anyway")
		vpReach("P19")
		return
	}
	vpAssert(err == nil, "a Go value is refused as a JSON document")
	got, ok := vpDriverText(v)
	vpAssert(ok, "a JSON document is not sent as text")
	vpAssert(got == string(doc), "the JSON document sent is not that of the Go value")

	// and back
	back := new(vpDoc)
	err, panicked := vpScanDoc(JSON(back), v)
	vpAssert(!panicked && err == nil, "the JSON document sent cannot be read back")
	vpAssert(string(back.text) == string(doc), "a JSON document does not survive the round trip")

	nv, err := JSON(nil).Value()
	vpAssert(err == nil && nv == nil, "a nil value is not sent as NULL")
	vpReach("P19")
}

func VP_P19_XMLScan() {
	n := vpChoose(vpBound("letters", 3, 6) + 1)
	text := vpLetters(n)
	doc := append([]byte("<a>"), text...)
	c := vpByte()
	vpAssume(vpAnd(c >= 'a', c <= 'b'))
	doc = append(doc, '<', '/', c, '>')
	form := vpChoose(3)
	vpObs("document", string(doc))
	vpObs("form", form)

	val := "old"
	err, panicked := vpScanDoc(XML(&val), vpDocSource(form, doc))
	vpAssert(!panicked, "scanning an XML document panics")
	switch {
	case form == 2:
		vpAssert(err == nil, "NULL is an error for an XML value")
		vpAssert(val == "old", "NULL changes the Go value")
	case c == 'a':
		vpAssert(err == nil, "a valid XML document is refused")
		vpAssert(val == string(text), "the XML document does not reach the Go value")
	default:
		vpAssert(err != nil, "an invalid XML document is not reported")
	}
	vpReach("P19")
}

func VP_P19_XMLValue() {
	n := vpChoose(vpBound("letters", 3, 6) + 1)
	text := string(vpLetters(n))
	vpObs("text", text)
	v, err := XML(text).Value()
	vpAssert(err == nil, "a Go value is refused as an XML document")
	got, ok := vpDriverText(v)
	vpAssert(ok, "an XML document is not sent as text")
	vpAssert(got == "<string>"+text+"</string>", "the XML document sent is not that of the Go value")
	nv, err := XML(nil).Value()
	vpAssert(err == nil && nv == nil, "a nil value is not sent as NULL")
	vpReach("P19")
}

// the text of a value handed to the driver, which takes bytes and strings alike
func vpDriverText(v any) (string, bool) {
	switch t := v.(type) {
	case []byte:
		return string(t), true
	case string:
		return t, true
	}
	return "", false
}

// AnyToEmptyInterface hands over whatever the driver delivered, in memory of its own.
func VP_P19_Any() {
	n := vpChoose(vpBound("letters", 3, 6) + 1)
	doc := vpBytes(n)
	i := vpI64()
	want := string(doc)
	var val any = "old"
	switch vpChoose(5) {
	case 0:
		err, panicked := vpScanDoc(AnyToEmptyInterface(&val), doc)
		vpAssert(!panicked && err == nil, "bytes cannot be read into an empty interface")
		for i := range doc {
			doc[i] ^= 0xff
		}
		got, ok := val.([]byte)
		vpAssert(ok && string(got) == want, "the value of an empty interface is not what the driver delivered")
	case 1:
		err, panicked := vpScanDoc(AnyToEmptyInterface(&val), string(doc))
		vpAssert(!panicked && err == nil, "a string cannot be read into an empty interface")
		got, ok := val.(string)
		vpAssert(ok && got == want, "the value of an empty interface is not what the driver delivered")
	case 2:
		err, panicked := vpScanDoc(AnyToEmptyInterface(&val), i)
		vpAssert(!panicked && err == nil, "a number cannot be read into an empty interface")
		got, ok := val.(int64)
		vpAssert(ok && got == i, "the value of an empty interface is not what the driver delivered")
	case 3:
		err, panicked := vpScanDoc(AnyToEmptyInterface(&val), i > 0)
		vpAssert(!panicked && err == nil, "a bool cannot be read into an empty interface")
		got, ok := val.(bool)
		vpAssert(ok && got == (i > 0), "the value of an empty interface is not what the driver delivered")
	default:
		err, panicked := vpScanDoc(AnyToEmptyInterface(&val), nil)
		vpAssert(!panicked && err == nil, "NULL cannot be read into an empty interface")
		vpAssert(val == nil, "NULL leaves an old value in an empty interface")
	}
	vpReach("P19")
}
