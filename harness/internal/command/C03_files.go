package command

// The files that are processed, and the files that are written.

// vpLetters is a word of the letters a to e.
func vpLetters(n int) string {
	b := vpBytes(n)
	for _, c := range b {
		vpAssume(vpAnd(c >= 'a', c <= 'e'))
	}
	return string(b)
}

// A file is processed if none are selected, if it is listed, or if an expression matches its path.
func VP_C03_Selected() {
	dir := vpScratch()
	defer vpRemove(dir)
	dsn, stop := vpServe()
	defer stop()
	cfg := vpConfig(dir, dsn)
	n := vpBound("letters of a file's name", 2, 3)
	name := vpLetters(n) + []string{"", "_test"}[vpChoose(2)] + ".go"
	want := false
	listed := vpChoose(3)
	for i := 0; i < listed; i++ {
		f := vpLetters(n) + ".go"
		full := dir + "/" + f
		switch vpChoose(5) {
		case 1:
			f = "./" + f
		case 2:
			f = "x/../" + f
		case 3:
			f = dir + "/" + f
		case 4:
			full = dir + "/x/" + f
			f = "x/" + f
		}
		cfg.InputFiles.Set(f)
		want = vpOr(want, full == dir+"/"+name)
	}
	rxs := vpChoose(vpBound("expressions", 2, 3))
	for i := 0; i < rxs; i++ {
		switch vpChoose(4) {
		case 0:
			cfg.InputFileRegexps.Set(`a\.go$`)
			want = vpOr(want, vpAnd(name[n:] == ".go", name[n-1] == 'a'))
		case 1:
			cfg.InputFileRegexps.Set(`/[b-d][^/]*$`)
			want = vpOr(want, vpAnd(name[0] >= 'b', name[0] <= 'd'))
		case 2:
			cfg.InputFileRegexps.Set(`_test`)
			want = vpOr(want, len(name) > n+3)
		case 3:
			cfg.InputFileRegexps.Set(`^[a-e]+\.go$`) // no absolute path
		}
	}
	if listed+rxs == 0 {
		want = true
	}
	cmd, err := New(cfg)
	vpAssert(err == nil, "a well-formed configuration is rejected")
	got := true
	if f := cmd.FileFilterFunc(); f != nil {
		got = f(dir + "/" + name)
	}
	vpObs("got", got)
	vpAssert(got == want, "a file is left out, or processed though it was not selected")
	vpReach("selected")
}

// vpOut is the name of the output for the name of an input without its extension.
func vpOut(format, base string) (string, bool) {
	percents, at := 0, -1
	for i := 0; i < len(format); i++ {
		if format[i] == '%' {
			percents++
			at = i
		}
	}
	name := ""
	switch {
	case percents == 0:
		name = base + format
	case percents == 1 && at+1 < len(format) && format[at+1] == 's':
		name = format[:at] + base + format[at+2:]
	default:
		return "", false
	}
	if name == base || name == base+".go" {
		return "", false // the input itself
	}
	if n := len(name); n < 3 || name[n-3:] != ".go" {
		name += ".go"
	}
	return name, true
}

// The output lies next to its input and is named by the format.
func VP_C03_Output() {
	dir := vpScratch()
	defer vpRemove(dir)
	dsn, stop := vpServe()
	defer stop()
	cfg := vpConfig(dir, dsn)
	format := vpPrintable(vpChoose(vpBound("characters of a format", 5, 6)))
	for i := 0; i < len(format); i++ {
		vpAssume(format[i] != '/')
	}
	if vpBool() {
		format = []string{"%s_gosql.go", "gen_%s", "_x.go", "zz_%s.go", "%s.sql.go"}[vpChoose(5)]
	}
	for i := 0; i < len(format); i++ {
		vpAssume(format[i] != ' ')
	}
	cfg.OutputFileNameFormat.Set(format)
	base := vpPrintable(vpChoose(vpBound("characters of an input", 3, 4)))
	for i := 0; i < len(base); i++ {
		vpAssume(base[i] != '/')
	}
	base = "a" + base
	want, ok := vpOut(format, base)
	cmd, err := New(cfg)
	vpAssert((err == nil) == ok, "a malformed format is accepted, or a well-formed one rejected")
	if err != nil {
		vpReach("rejected")
		return
	}
	sub := dir + []string{"", "/sub", "/x.go"}[vpChoose(3)]
	got := cmd.outFilePath(sub + "/" + base + ".go")
	vpObs("got", got[len(dir):])
	vpAssert(got == sub+"/"+want, "the output is written elsewhere")
	vpReach("output")
}
