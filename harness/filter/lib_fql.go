package filter

import "errors"

var vpErrConvert = errors.New("convert")

type vpConverted struct{ v any }

func vpColmap() map[string]Column {
	return map[string]Column{
		"a":   {Name: "col_a"},
		"b":   {Name: "t.col_b", IsNULLable: true},
		"u.s": {Name: "sub.col_us"},
		"c":   {Name: "col_c", ConvertValue: func(v any) (any, error) { return vpConverted{v}, nil }},
		"e":   {Name: "col_e", ConvertValue: func(v any) (any, error) { return nil, vpErrConvert }},
	}
}

func vpNewFQL(strict bool) *Constructor {
	c := &Constructor{}
	c.InitV2(vpColmap(), "ts")
	if strict {
		c.StrictSwitch()
	}
	return c
}
