package search

import "strings"

// Which types code is generated for.

// vpPrefixed says whether the name begins with one of the words, in any case.
func vpPrefixed(name string) bool {
	r := false
	for _, w := range []string{"select", "insert", "update", "delete", "filter"} {
		if len(name) < len(w) {
			continue
		}
		eq := true
		for i := 0; i < len(w); i++ {
			eq = vpAnd(eq, vpOr(name[i] == w[i], name[i] == w[i]-'a'+'A'))
		}
		r = vpOr(r, eq)
	}
	return r
}

// vpFound lists what is found, as file:type.
func vpFound(dir string, recursive bool, filter func(string) bool) string {
	pkgs, err := Search(dir, recursive, filter)
	vpAssert(err == nil, "the search fails")
	var l []string
	for _, p := range pkgs {
		vpAssert(len(p.Files) > 0, "a package without targets is listed")
		for _, f := range p.Files {
			vpAssert(f.Package == p && len(f.Matches) > 0, "a file without targets is listed")
			for _, m := range f.Matches {
				vpAssert(m.Pos == m.Named.Obj().Pos(), "a target has another position")
				vpAssert(strings.HasSuffix(p.Fset.Position(m.Pos).Filename, f.Path[len(dir):]), "a target is in another file")
				l = append(l, p.Name+f.Path[len(dir):]+":"+m.Named.Obj().Name())
			}
		}
	}
	return strings.Join(l, " ")
}

// The name of a type decides.
func VP_C06_Names() {
	n := 4 + vpChoose(3)
	b := vpBytes(n)
	for i, c := range b {
		letter := vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z'), c == '_')
		if i > 0 {
			letter = vpOr(letter, vpAnd(c >= '0', c <= '9'))
		}
		vpAssume(letter)
	}
	name := string(b)
	name += []string{"", "Q", "_user", "s"}[vpChoose(4)]
	for _, w := range []string{"func", "type", "case", "chan", "else", "goto", "bool", "byte", "rune", "uint", "true", "main", "init"} {
		vpAssume(name != w)
	}
	for _, w := range []string{"break", "const", "defer", "range", "error", "print", "false", "return", "switch", "struct", "import", "string", "select"} {
		vpAssume(name != w)
	}
	dir := vpModule([]vpSource{{"", "a.go", "package db\n\ntype " + name + " struct{}\n"}})
	defer vpRemove(dir)
	got := vpFound(dir, false, nil)
	vpObs("got", got)
	want := ""
	if vpPrefixed(name) {
		want = "db/a.go:" + name
		vpReach("target")
	} else {
		vpReach("other")
	}
	vpAssert(got == want, "a type is missed, or taken for a target")
}

// How a type is declared decides.
func VP_C06_Declarations() {
	ignore := []string{"// gosql:ignore\n", "//gosql:ignore\n", "// Not gosql:ignored.\n", "/* x\ngosql:ignore */\n", "// One.\n// gosql:ignore\n//\n", "// gosql.ignore\n", "// gosql: ignore\n", "// gosql:ignore\n\n", "//go:x\n//gosql:ignore because\n"}
	hides := []bool{true, true, true, true, true, false, false, false, true}
	doc := func() (string, bool) {
		if vpBool() {
			return "", false
		}
		i := vpChoose(len(ignore))
		return ignore[i], hides[i]
	}
	body := []string{" struct{}", " struct {\n\tA int // gosql:ignore\n}", " Other", " = Other", "[T any] struct{}", " struct{} // gosql:ignore", " int", " interface{}"}[vpChoose(8)]
	alias := strings.HasPrefix(body, " = ") || body == " int" || body == " interface{}" // no struct type of that name
	src := "package db\n\ntype Other struct{}\n\nvar SelectV int\n\nfunc SelectF() { type SelectL struct{} }\n\n"
	want := []string{}
	switch vpChoose(3) {
	case 0:
		d, hide := doc()
		src += d + "type SelectA" + body + "\n"
		if !hide && !alias {
			want = append(want, "SelectA")
		}
	case 1: // a group
		d, hide := doc()
		d1, hide1 := doc()
		src += d + "type (\n" + d1 + "\tInsertA" + body + "\n\n\tUser struct{}\n\tFilterB struct{}\n)\n"
		if !hide {
			if !hide1 && !alias {
				want = append(want, "InsertA")
			}
			want = append(want, "FilterB")
		}
	case 2: // several declarations
		d, hide := doc()
		src += d + "type deleteA" + body + "\n\ntype UPDATEB struct{}\n"
		if !hide && !alias {
			want = append(want, "deleteA")
		}
		want = append(want, "UPDATEB")
	}
	dir := vpModule([]vpSource{{"", "a.go", src}})
	defer vpRemove(dir)
	got := vpFound(dir, vpBool(), nil)
	vpObs("got", got)
	for i := range want {
		want[i] = "db/a.go:" + want[i]
	}
	vpAssert(got == strings.Join(want, " "), "a declaration is missed, or taken for a target")
	vpReach("declarations")
}

// The files and packages that are looked into.
func VP_C06_Files() {
	srcs := []vpSource{{"", "a.go", ""}, {"", "b.go", ""}, {"p", "c.go", ""}, {"p/q", "d.go", ""}}
	recursive := vpBool()
	var want []string
	skip := vpChoose(5)
	for i := range srcs {
		s := &srcs[i]
		pkg := []string{"db", "db", "p", "other"}[i]
		s.text = "package " + pkg + "\n"
		n := 1
		if i < vpBound("files with any number of targets", 3, 4) {
			n = vpChoose(3)
		}
		for k := 0; k < n; k++ {
			name := "Select" + strings.ToUpper(s.name[:1]) + string(rune('0'+k))
			s.text += "\ntype " + name + " struct{}\n"
			if i == skip || !recursive && s.dir != "" {
				continue
			}
			at := "/" + s.name
			if s.dir != "" {
				at = "/" + s.dir + at
			}
			want = append(want, pkg+at+":"+name)
		}
	}
	dir := vpModule(srcs)
	defer vpRemove(dir)
	var filter func(string) bool
	if skip < len(srcs) {
		not := dir + "/" + srcs[skip].name
		if srcs[skip].dir != "" {
			not = dir + "/" + srcs[skip].dir + "/" + srcs[skip].name
		}
		filter = func(path string) bool { return path != not }
	}
	got := vpFound(dir, recursive, filter)
	vpObs("got", got)
	vpAssert(got == strings.Join(want, " "), "a file is missed, or looked into though it was not selected")
	vpReach("files")
}
