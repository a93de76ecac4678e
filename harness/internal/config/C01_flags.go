package config

import "os"

// Values given on the command line win over those of the configuration file, and
// those over the defaults.

type vpOption struct {
	flag, key string
	kind      int // 0 string, 1 bool, 2 list, 3 type
	get       func(c *Config) string
	zero      string
}

func vpOptions() []vpOption {
	return []vpOption{
		{"wd", "working_directory", 0, func(c *Config) string { return c.WorkingDirectory.Value }, "."},
		{"r", "recursive", 1, func(c *Config) string { return c.Recursive.String() }, "false"},
		{"f", "input_files", 2, func(c *Config) string { return vpList(c.InputFiles.Value) }, ""},
		{"rx", "input_file_regexps", 2, func(c *Config) string { return vpList(c.InputFileRegexps.Value) }, ""},
		{"o", "output_file_name_format", 0, func(c *Config) string { return c.OutputFileNameFormat.Value }, "%s_gosql.go"},
		{"db", "database_dsn", 0, func(c *Config) string { return c.DatabaseDSN.Value }, ""},
		{"qid", "quote_identifiers", 1, func(c *Config) string { return c.QuoteIdentifiers.String() }, "false"},
		{"fcktag", "filter_column_key_tag", 0, func(c *Config) string { return c.FilterColumnKeyTag.Value }, "json"},
		{"fckbase", "filter_column_key_base", 1, func(c *Config) string { return c.FilterColumnKeyBase.String() }, "false"},
		{"fcksep", "filter_column_key_separator", 0, func(c *Config) string { return c.FilterColumnKeySeparator.Value }, "."},
		{"with-ctx", "method_with_context", 1, func(c *Config) string { return c.MethodWithContext.String() }, "false"},
		{"argtype", "method_argument_type", 3, func(c *Config) string {
			t, p := c.MethodArgumentType, ""
			if t.IsPtr {
				p = "*"
			}
			return p + t.PkgPath + "." + t.Name
		}, "github.com/frk/gosql.Conn"},
		{"", "method_name", 0, func(c *Config) string { return c.MethodName.Value }, "Exec"},
	}
}

func vpList(l []string) string {
	s := ""
	for _, x := range l {
		s += x + ","
	}
	return s
}

// vpGive gives the option the text on the command line.
func (o vpOption) vpGive(args []string, text string) []string {
	if o.kind == 1 {
		if text == "" {
			return append(args, "-"+o.flag)
		}
		return append(args, "-"+o.flag+"="+text)
	}
	if vpBool() {
		return append(args, "--"+o.flag+"="+text)
	}
	return append(args, "-"+o.flag, text)
}

// vpReal runs the tool's configuration with the arguments and the file.
func vpReal(args []string, kvs []vpKV, file bool) (Config, error) {
	if file {
		name := vpWriteFile(kvs)
		defer vpRemove(name)
		args = append(args, "-config", name)
	}
	os.Args = append([]string{"gosql"}, args...)
	c := DefaultConfig
	ConfigFile = ""
	c.ParseFlags(func() {})
	if !file {
		return c, nil
	}
	err := c.ParseFile()
	return c, err
}

// vpValue is a value of the option's kind, as it is given on the command line, in
// the file, and as it is read.
func (o vpOption) vpValue(n int) (arg, raw, val string) {
	switch o.kind {
	case 0:
		s := vpText(n)
		return s, `"` + s + `"`, s
	case 1:
		b := vpBool()
		arg, raw, val = "false", "false", "false"
		if b {
			arg, raw, val = []string{"true", "1", "t", "T", "TRUE", "True", ""}[vpChoose(7)], "true", "true"
		} else {
			arg = []string{"false", "0", "f", "F", "FALSE", "False"}[vpChoose(6)]
		}
		return arg, raw, val
	case 2:
		s := vpText(n)
		return s, `"` + s + `"`, s + ","
	}
	s := "lib." + vpText(n)
	for i := range s[4:] {
		vpAssume(s[4+i] != '.')
	}
	if vpBool() {
		s = "*" + s
	}
	return s, `"` + s + `"`, s
}

// One option, given any way.
func VP_C01_Option() {
	opts := vpOptions()
	i := vpChoose(len(opts))
	o := opts[i]
	var args []string
	var kvs []vpKV
	want := o.zero
	given := 0
	if o.flag != "" {
		given = vpChoose(3)
	}
	for k := 0; k < given; k++ {
		n := 1
		if o.kind == 0 {
			n = vpChoose(3)
		}
		arg, _, val := o.vpValue(n)
		args = o.vpGive(args, arg)
		if o.kind == 2 && k > 0 {
			want += val
		} else {
			want = val
		}
	}
	file := vpBool()
	if file {
		switch vpChoose(4) {
		case 0: // other things only
			kvs = append(kvs, vpKV{"nothing_known", `"x"`})
		case 1:
			kvs = append(kvs, vpKV{o.key, "null"})
		case 2:
			n := 1
			if o.kind == 0 {
				n = vpChoose(vpBound("bytes of a value in the file", 3, 4))
			}
			_, raw, val := o.vpValue(n)
			if o.kind == 2 {
				raw = "[" + raw + "]"
				if vpBool() {
					_, r2, v2 := o.vpValue(1)
					raw = raw[:len(raw)-1] + "," + r2 + "]"
					val += v2
				}
			}
			kvs = append(kvs, vpKV{o.key, raw})
			if given == 0 {
				want = val
			}
		case 3:
			switch o.kind {
			case 0, 1:
				vpSkip()
			case 2:
				kvs = append(kvs, vpKV{o.key, "[]"})
			case 3:
				kvs = append(kvs, vpKV{o.key, `""`})
			}
		}
	}
	c, err := vpReal(args, kvs, file)
	vpAssert(err == nil, "a well-formed configuration is rejected")
	got := o.get(&c)
	vpObs("got", got)
	vpAssert(got == want, "an option has another value than the one given")
	for k, p := range opts {
		if k != i {
			vpAssert(p.get(&c) == p.zero, "an option that was not given has another value than its default")
		}
	}
	vpReach("option")
}

// Many options at once, each given on the command line, in the file, in both or not at all.
func VP_C01_Mixed() {
	opts := vpOptions()
	var args []string
	var kvs []vpKV
	want := make([]string, len(opts))
	a, b := vpChoose(len(opts)), vpChoose(len(opts))
	vpAssume(a <= b)
	rest := vpChoose(4)
	for i, o := range opts {
		how := rest
		if i == a || i == b {
			how = vpChoose(4)
		}
		want[i] = o.zero
		arg, raw, val := "a"+o.flag, `"j`+o.key+`"`, "j"+o.key
		if o.kind == 1 {
			arg, raw, val = "false", "true", "true"
		} else if o.kind == 2 {
			raw, val = "["+raw+"]", val+","
		} else if o.kind == 3 {
			arg, raw, val = "lib.A", `"*lib.B"`, "*lib.B"
		}
		if how&1 != 0 {
			kvs = append(kvs, vpKV{o.key, raw})
			want[i] = val
		}
		if how&2 != 0 && o.flag != "" {
			args = o.vpGiven(args, arg)
			want[i] = arg
			if o.kind == 2 {
				want[i] += ","
			}
		}
	}
	c, err := vpReal(args, kvs, true)
	vpAssert(err == nil, "a well-formed configuration is rejected")
	for i, o := range opts {
		vpObs(o.key, o.get(&c))
		vpAssert(o.get(&c) == want[i], "an option has another value than the one given")
	}
	vpReach("mixed")
}

func (o vpOption) vpGiven(args []string, text string) []string {
	return append(args, "-"+o.flag+"="+text)
}

// Values of another kind in the file are reported, unless the command line has the option.
func VP_C01_Mistyped() {
	opts := vpOptions()
	o := opts[vpChoose(len(opts))]
	raw := []string{`"x"`, "true", "1", `["x"]`, "{}", `[1]`}[vpChoose(6)]
	right := o.kind == 0 && raw == `"x"` || o.kind == 1 && raw == "true" || o.kind == 2 && raw == `["x"]`
	var args []string
	given := o.flag != "" && vpBool()
	if given {
		args = o.vpGiven(args, []string{"x", "true", "x", "lib.T"}[o.kind])
	}
	c, err := vpReal(args, []vpKV{{o.key, raw}}, true)
	vpAssert((err == nil) == (right || given), "a value of another kind is accepted, or one that is not needed rejected")
	if given {
		vpAssert(o.get(&c) == []string{"x", "true", "x,", "lib.T"}[o.kind], "an option has another value than the one given")
	}
	vpReach("mistyped")
}

// The file that is read, if none is named, is the one at the root of the git
// project the working directory is in.
func VP_C01_Lookup() {
	depth := 1 + vpChoose(vpBound("directories within one another", 3, 4))
	names := []string{"p", "q.d", "r", "s"}[:depth]
	levels := make([][]vpNode, depth)
	root := -1
	conf := make([]string, depth)
	for i := range levels {
		name := ""
		switch vpChoose(4) {
		case 1:
			name = ".gosql"
		case 2:
			name = ".gosql.json"
		case 3:
			levels[i] = append(levels[i], vpNode{name: []string{".gosql", ".gosql.json"}[i%2], dir: true})
		}
		if name != "" {
			conf[i] = "M" + names[i][:1]
			levels[i] = append(levels[i], vpNode{name: name, kvs: []vpKV{{"method_name", `"` + conf[i] + `"`}}})
		}
		switch vpChoose(4) {
		case 1:
			levels[i] = append(levels[i], vpNode{name: ".git", dir: true})
			root = i
		case 2: // no project's root
			levels[i] = append(levels[i], vpNode{name: ".git"})
		case 3:
			levels[i] = append([]vpNode{{name: ".git", dir: true}}, levels[i]...)
			root = i
		}
		levels[i] = append(levels[i], vpNode{name: "a.gosql"}, vpNode{name: "gosql.json"})
	}
	top, dir := vpMakeTree(names, levels)
	defer vpRemoveTree(top)
	c := DefaultConfig
	ConfigFile = ""
	c.WorkingDirectory.Set(dir)
	err := c.ParseFile()
	vpAssert(err == nil, "a configuration file cannot be read")
	want := "Exec"
	if root >= 0 && conf[root] != "" {
		want = conf[root]
	}
	vpObs("method", c.MethodName.Value)
	vpAssert(c.MethodName.Value == want, "a configuration file is missed, or another's read")
	vpReach("lookup")
}
