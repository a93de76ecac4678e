package gosql

// vpOrdinal is the placeholder of ordinal n, built digit by digit.
func vpOrdinal(n int) string {
	if n >= 10 {
		return vpOrdinal(n/10) + string(rune('0'+n%10))
	}
	return "$" + string(rune('0'+n))
}

// VP_G01_Table: every entry of the table, which is the whole supported range.
func VP_G01_Table() {
	vpAssert(len(OrdinalParameters) == 65535, "the table has as many entries as a query can have parameters")
	block := vpChoose(8)
	for i := block; i < len(OrdinalParameters); i += 8 {
		vpAssert(OrdinalParameters[i] == vpOrdinal(i+1), "every entry is its ordinal's placeholder")
	}
	vpReach("table")
}

func vpCheckList(num, pos int) {
	want := ""
	for i := 0; i < num; i++ {
		if i > 0 {
			want += ","
		}
		want += vpOrdinal(pos + i + 1)
	}
	vpReach("list")
	vpAssert(InValueList(num, pos) == want, "the list has the placeholders that follow the position, in order and separated by commas")
}

// VP_G01_List: every small count at positions around each change of the number of digits and at both ends.
func VP_G01_List() {
	base := []int{0, 9, 99, 999, 9999, 65523}[vpChoose(6)]
	num := vpChoose(vpBound("values", 13, 13))
	if base == 0 && vpBool() {
		num = []int{100, 999, 2500}[vpChoose(3)]
	}
	pos := base
	if base != 0 && base != 65523 {
		pos = base - vpChoose(10)
	} else if base == 0 {
		pos = vpChoose(vpBound("start", 12, 100))
	}
	vpCheckList(num, pos)
}

// VP_G01_Symbolic: every position of a window, the position being a variable.
func VP_G01_Symbolic() {
	pos := int(vpU8())
	vpAssume(pos < vpBound("window", 24, 128))
	vpCheckList(3, pos)
}

// VP_G01_None: a count below one gives the empty list whatever the position.
func VP_G01_None() {
	num, pos := vpInt(), vpInt()
	vpAssume(num <= 0)
	vpReach("none")
	vpAssert(InValueList(num, pos) == "", "no values give no placeholders")
}
