package command

import "strings"

// A run that fails leaves nothing half-written.

// Writing one file.
func VP_C04_Write() {
	dir := vpScratch()
	defer vpRemove(dir)
	cmd := new(Command)
	before := vpBool()
	path := dir + "/a.go"
	if before {
		vpPut(path, "package old\n")
	}
	fault := vpChoose(4)
	src := "package db\n"
	valid := true
	if fault == 1 {
		src = []string{"package", "package db\nfunc", "package db\nvar x = `", "package db\nfunc (q *Q) _.a() {}\n"}[vpChoose(4)]
		valid = false
	} else if vpBool() {
		name := vpPrintable(vpBound("letters of a name", 2, 3))
		for i := 0; i < len(name); i++ {
			vpAssume(vpOr(vpAnd(name[i] >= 'a', name[i] <= 'z'), vpAnd(name[i] >= 'A', name[i] <= 'Z')))
		}
		vpAssume(vpAnd(name != "if", name != "go", name != "for", name != "var", name != "map"))
		src = "package db\n\nvar " + name + "1 int\n"
	}
	out := new(outFile)
	switch fault {
	case 2: // the directory is gone
		path = dir + "/gone/a.go"
	case 3: // no space
		if before {
			vpSkip()
		}
		vpFill(path)
	}
	out.path = path
	out.buf.WriteString(src)
	err := cmd.writeOutFile(out)
	vpAssert(err == nil || fault != 0, "there is a failure without a cause")
	vpAssert(err != nil || fault != 1 && fault != 2, "a failure goes unreported")
	got, exists := vpGet(path)
	vpObs("exists", exists)
	switch {
	case err == nil:
		vpAssert(exists && got == src, "a file is not what was generated")
		vpReach("written")
	case !valid:
		vpAssert(exists == before, "a file is left, or lost, though nothing could be generated")
		vpAssert(!exists || got == "package old\n", "a file is changed though nothing could be generated")
		vpReach("invalid")
	default:
		vpAssert(!exists || got == "package old\n", "a half-written file is left")
		vpReach("failed")
	}
}

// A file that replaces a longer one has nothing of it left.
func VP_C04_Replace() {
	dir := vpScratch()
	defer vpRemove(dir)
	path := dir + "/a.go"
	n := vpChoose(vpBound("lines of an old file", 4, 6))
	vpPut(path, "package db\n"+strings.Repeat("// line\n", n))
	out := new(outFile)
	out.path = path
	src := "package db\n" + strings.Repeat("\nvar X = 1\n", vpChoose(2))
	out.buf.WriteString(src)
	vpAssert(new(Command).writeOutFile(out) == nil, "a file cannot be replaced")
	got, _ := vpGet(path)
	vpObs("got", got)
	vpAssert(got == src, "a file is not what was generated")
	vpReach("replaced")
}
