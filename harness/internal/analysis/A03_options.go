package analysis

import (
	"go/types"

	"github.com/frk/gosql/internal/config"
)

// vpModes is what the options of a field allow.
type vpModes struct{ sel, fil, ins, upd, nn bool }

// option applies one option of an sql tag.
func (m *vpModes) option(o string) {
	is := func(w string) bool { return o == w }
	if len(o) == 2 {
		ro, wo, xf, nn := is("ro"), is("wo"), is("xf"), is("nn")
		m.ins, m.upd = vpAnd(m.ins, !ro), vpAnd(m.upd, !ro)
		m.sel, m.fil = vpAnd(m.sel, !wo), vpAnd(m.fil, !wo, !xf)
		m.nn = vpOr(m.nn, nn)
	}
	if len(o) == 0 {
		return
	}
	on, off := o[0] == '+', o[0] == '-'
	set := func(b *bool, cond bool) {
		*b = vpAnd(vpOr(*b, vpAnd(on, cond)), !vpAnd(off, cond))
	}
	for i := 1; i < len(o); i++ {
		c := o[i]
		set(&m.sel, vpOr(c == 'r', c == 's'))
		set(&m.fil, vpOr(c == 'r', c == 'f'))
		set(&m.ins, vpOr(c == 'w', c == 'i'))
		set(&m.upd, vpOr(c == 'w', c == 'u'))
		// the nullability flag reads the other way around: -N is "not NULL"
		m.nn = vpAnd(vpOr(m.nn, vpAnd(off, c == 'N')), !vpAnd(on, c == 'N'))
	}
}

func vpModesOf(opts ...string) vpModes {
	m := vpModes{true, true, true, true, false}
	for _, o := range opts {
		m.option(o)
	}
	return m
}

func (m vpModes) readOnly() bool  { return vpAnd(m.sel, !m.ins, !m.upd) }
func (m vpModes) writeOnly() bool { return vpAnd(vpOr(m.ins, m.upd), !m.sel) }

func (m vpModes) check(f FieldMode) {
	vpAssert(f.CanInsert() == m.ins, "the options have the wrong effect on inserting")
	vpAssert(f.CanUpdate() == m.upd, "the options have the wrong effect on updating")
	vpAssert(f.CanSelect() == m.sel, "the options have the wrong effect on reading")
	vpAssert(f.CanExcludeFilter() == !m.fil, "the options have the wrong effect on filtering")
	vpAssert(f.TreatAsNotNULL() == m.nn, "the options have the wrong effect on nullability")
	vpAssert(f.IsReadOnly() == m.readOnly(), "a field is wrongly (not) read-only")
	vpAssert(f.IsWriteOnly() == m.writeOnly(), "a field is wrongly (not) write-only")
}

func vpOption(n int) string {
	o := vpASCII(n)
	for i := 0; i < n; i++ {
		vpAssume(o[i] != ',')
	}
	return o
}

func vpOneField(opts ...string) *FieldInfo {
	tag := "a"
	for _, o := range opts {
		tag += "," + o
	}
	fs := vpRecord(vpStruct().add("A", vpBasic(types.Int), vpTag("sql", tag)))
	vpAssert(len(fs) == 1, "a field is lost")
	return fs[0]
}

// One option of any text.
func VP_A03_Option() {
	o := vpOption(vpChoose(vpBound("option characters", 5, 7) + 1))
	f := vpOneField(o)
	vpModesOf(o).check(f.Mode)
	m := vpModesOf(o)
	vpAssert(vpAnd(f.IsReadOnly() == m.readOnly(), f.IsWriteOnly() == m.writeOnly(), f.ExcludeFromFilter() == !m.fil), "a field's own options are not its modes")
	vpAssert(f.NullEmpty == (o == "nullempty"), "wrong nullempty")
	vpAssert(f.UseAdd == (o == "add"), "wrong add")
	vpAssert(f.UseDefault == (o == "default"), "wrong default")
	vpAssert(vpAnd(f.ColIdent.Name == "a", f.ColIdent.Qualifier == ""), "wrong column")
	vpReach("option")
}

// Several options: they are applied in order.
func VP_A03_Options() {
	a := vpOption(vpChoose(vpBound("first option characters", 3, 4) + 1))
	b := vpOption(vpChoose(vpBound("second option characters", 3, 4) + 1))
	f := vpOneField(a, b)
	vpModesOf(a, b).check(f.Mode)
	vpReach("two options")
}

// The named options next to mode options, in either order.
func VP_A03_Named() {
	names := []string{"nullempty", "add", "default", "coalesce", "coalesce(x)", "pk", "json"}
	a, b := names[vpChoose(len(names))], names[vpChoose(len(names))]
	o := vpOption(vpChoose(vpBound("mode option characters", 3, 4) + 1))
	opts := []string{a, b, o}
	if vpBool() {
		opts = []string{o, a, b}
	}
	f := vpOneField(opts...)
	vpModesOf(o).check(f.Mode)
	has := func(w string) bool { return vpOr(a == w, b == w, o == w) }
	vpAssert(f.NullEmpty == has("nullempty"), "wrong nullempty")
	vpAssert(f.UseAdd == has("add"), "wrong add")
	vpAssert(f.UseDefault == has("default"), "wrong default")
	vpAssert(f.UseCoalesce == vpOr(has("coalesce"), has("coalesce(x)")), "wrong coalesce")
	val := ""
	for i := len(opts) - 1; i >= 0; i-- { // the first coalesce option counts
		if opts[i] == "coalesce" {
			val = ""
		} else if opts[i] == "coalesce(x)" {
			val = "x"
		}
	}
	vpAssert(f.CoalesceValue == val, "wrong coalesce value")
	vpReach("named options")
}

// The alternative value of coalesce is taken as written.
func VP_A03_Coalesce() {
	v := vpOption(1 + vpChoose(vpBound("coalesce value characters", 5, 8)))
	f := vpOneField("coalesce(" + v + ")")
	vpAssert(f.UseCoalesce, "coalesce is ignored")
	vpAssert(f.CoalesceValue == v, "the alternative value is not the one given")
	vpModesOf().check(f.Mode)
	vpReach("coalesce")
}

// Options of the parents of a nested field: reading, writing and filtering are
// restricted by any of them, and prefixes and selectors accumulate.
func VP_A03_Nested() {
	depth := 1 + vpChoose(vpBound("levels above the field", 2, 2))
	own := vpOption(2)
	f := vpStruct().add("F", vpBasic(types.Int), vpTag("sql", "f,"+own))
	modes := []vpModes{vpModesOf(own)}
	opts := []string{own}
	ptr := []bool{}
	emb := []bool{}
	pfx := []string{"p_", "q"}
	for i := 0; i < depth; i++ {
		o := vpOption(2)
		if i > 0 {
			o = []string{"ro", "wo", "xf", "-i", "-u", "-s", "-r", "-w", "nn"}[vpChoose(9)]
		}
		opts = append(opts, o)
		var t types.Type = vpNamed(vpPkg, []string{"T1", "T2"}[i], f.typ())
		p, e := vpBool(), vpBool()
		ptr, emb = append(ptr, p), append(emb, e)
		if p {
			t = types.NewPointer(t)
		}
		f = vpStruct()
		v := types.NewField(0, vpPkg, []string{"T1", "T2"}[i], t, e)
		f.fields = append(f.fields, v)
		f.tags = append(f.tags, vpTag("sql", ">"+pfx[i]+","+o))
		modes = append(modes, vpModesOf(o))
		// a sibling after the nested struct belongs to the enclosing one
		f.add("S", vpBasic(types.String), vpTag("sql", "s"))
	}
	fs := vpRecord(f)
	vpAssert(len(fs) == 1+depth, "wrong number of nested fields")
	n := fs[0]
	col := "f"
	for i := 0; i < depth; i++ {
		col = pfx[i] + col
	}
	vpAssert(n.ColIdent.Name == col, "wrong column of a nested field")
	vpAssert(len(n.Selector) == depth, "wrong selector of a nested field")
	for i, s := range n.Selector {
		k := depth - 1 - i
		vpAssert(s.Name == []string{"T1", "T2"}[k], "wrong selector path")
		vpAssert(vpAnd(s.IsPointer == ptr[k], s.IsEmbedded == emb[k]), "wrong selector kind")
		modes[k+1].check(s.Mode)
	}
	modes[0].check(n.Mode)
	ro, wo, xf := false, false, false
	for _, m := range modes {
		ro = vpOr(ro, m.readOnly())
		wo = vpOr(wo, m.writeOnly())
		xf = vpOr(xf, !m.fil)
	}
	vpAssert(n.IsReadOnly() == ro, "a nested field is wrongly (not) read-only")
	vpAssert(n.IsWriteOnly() == wo, "a nested field is wrongly (not) write-only")
	vpAssert(n.ExcludeFromFilter() == xf, "a nested field is wrongly (not) filterable")
	// siblings: innermost first
	for i := 1; i <= depth; i++ {
		s := fs[i]
		c := "s"
		for j := i; j < depth; j++ {
			c = pfx[j] + c
		}
		vpAssert(s.ColIdent.Name == c, "wrong column after a nested struct")
		vpAssert(len(s.Selector) == depth-i, "wrong selector after a nested struct")
		vpModesOf().check(s.Mode)
	}
	vpReach("nested")
}

// Which fields of a record are columns: those with an sql tag other than "-",
// a name, and access.
func VP_A03_Fields() {
	imported := vpBool()
	pkg := vpPkg
	if imported {
		pkg = types.NewPackage("example.com/app/model", "model")
	}
	s := &vpS{}
	type want struct{ name, col string }
	var ws []want
	n := 1 + vpChoose(vpBound("record fields", 3, 4))
	for i := 0; i < n; i++ {
		name := []string{"A", "B", "C", "D"}[i]
		col := []string{"a", "b", "c", "d"}[i]
		tag := vpTag("sql", col)
		in := true
		switch vpChoose(6) {
		case 1:
			tag, in = vpTag("sql", "-"), false
		case 2:
			tag, in = "", false
		case 3:
			name, in = "_", false
		case 4:
			name, in = "x"+col, !imported
		case 5:
			tag, in = vpTag("json", col), false
		}
		s.fields = append(s.fields, types.NewField(0, pkg, name, vpBasic(types.Int), false))
		s.tags = append(s.tags, tag)
		if in {
			ws = append(ws, want{name, col})
		}
	}
	var t types.Type = vpNamed(pkg, vpFresh("User"), s.typ())
	var fs []*FieldInfo
	// directly, or as a nested struct (held by value or by pointer)
	switch vpChoose(3) {
	case 0:
		info, err := vpRun("SelectUser", vpStruct().add("User", t, `rel:"u"`))
		vpAssert(err == nil, "a record type is rejected")
		fs = info.Struct.(*QueryStruct).Rel.Type.Fields
	case 1:
		fs = vpRecord(vpStruct().add("N", t, `sql:">"`))
	case 2:
		fs = vpRecord(vpStruct().add("N", types.NewPointer(t), `sql:">"`))
	}
	vpAssert(len(fs) == len(ws), "wrong set of record fields")
	for i, w := range ws {
		vpAssert(vpAnd(fs[i].Name == w.name, fs[i].ColIdent.Name == w.col), "wrong record field")
	}
	vpReach("fields")
}

// The key under which a filter knows a field: the tag or name of the field,
// joined with those of its parents, as configured globally or by fck options.
func VP_A03_FilterKey() {
	tag := []string{"json", "", "k"}[vpChoose(3)]
	sep := []string{".", ""}[vpChoose(2)]
	base := vpBool()
	cfg := config.Config{
		FilterColumnKeyTag:       config.String{Value: tag},
		FilterColumnKeySeparator: config.String{Value: sep},
		FilterColumnKeyBase:      config.Bool{Value: base},
	}
	depth := vpChoose(3)
	if depth == 2 && !vpThorough() {
		vpAssume(tag == "json")
	}
	// level 0 is the field, higher levels its parents; the option list of at
	// most one level is set
	fckAt := vpChoose(depth+2) - 1
	fck := []string{"tag:k,sep:_", "sep:__", "tag:,base:1", "base:false", "tag:json"}[vpChoose(5)]
	names := []string{"F", "P", "Q"}
	keys := make([]string, depth+1)
	ks := make([]string, depth+1)
	var t *vpS
	for i := 0; i <= depth; i++ {
		keys[i] = []string{"", "-", "x"}[vpChoose(3)] + ""
		if keys[i] == "x" {
			keys[i] = "x" + names[i] + ",omitempty"
		}
		ks[i] = "k" + names[i]
		tg := ""
		if keys[i] != "" {
			tg = vpTag("json", keys[i]) + " "
		}
		tg += vpTag("k", ks[i])
		if fckAt == i {
			tg += " " + vpTag("fck", fck)
		}
		var ft types.Type
		if i == 0 {
			ft, tg = vpBasic(types.Int), tg+" "+vpTag("sql", "f")
		} else {
			ft, tg = vpNamed(vpPkg, "T"+names[i], t.typ()), tg+" "+vpTag("sql", ">")
		}
		t = vpStruct().add(names[i], ft, tg)
	}
	info, err := vpRunCfg("SelectUser", vpStruct().add("User", vpNamed(vpPkg, vpFresh("User"), t.typ()), `rel:"u"`), cfg)
	vpAssert(err == nil, "a record type is rejected")
	fs := info.Struct.(*QueryStruct).Rel.Type.Fields
	vpAssert(len(fs) == 1, "a field is lost")

	top := depth // the outermost level that takes part
	if fckAt >= 0 {
		if fckAt > 0 {
			top = fckAt
		}
		switch fck {
		case "tag:k,sep:_":
			tag, sep = "k", "_"
		case "sep:__":
			sep = "__"
		case "tag:,base:1":
			tag, base = "", true
		case "base:false":
			base = false
		case "tag:json":
			tag = "json"
		}
	}
	want, first := "", true
	if base {
		top = 0
	}
	drop := false
	for i := top; i >= 0; i-- {
		k := names[i]
		switch tag {
		case "k":
			k = ks[i]
		case "json":
			k, _, _ = vpSplit(keys[i], ',')
		}
		if k == "-" && tag != "" {
			drop = true
		}
		if k == "" {
			continue
		}
		if !first {
			want += sep
		}
		first = false
		want += k
	}
	if drop {
		want = ""
	}
	vpAssert(fs[0].FilterColumnKey == want, "wrong filter key")
	vpReach("key")
}

// A struct nested in itself has no finite list of columns and is rejected; the
// same struct used twice side by side is not nested in itself.
func VP_A03_Recursive() {
	a := vpNamed(vpPkg, vpFresh("A"), nil)
	b := vpNamed(vpPkg, vpFresh("B"), nil)
	ptr := func(t types.Type) types.Type { return types.NewPointer(t) }
	sa, sb := vpStruct().add("Id", vpBasic(types.Int), `sql:"id"`), vpStruct().add("Id", vpBasic(types.Int), `sql:"id"`)
	tag := func(p string, on bool) string {
		if on {
			return vpTag("sql", ">"+p)
		}
		return ""
	}
	aa, ab, ab2, ba := vpBool(), vpBool(), vpBool(), vpBool()
	sa.add("A", ptr(a), tag("x_", aa)).add("B", ptr(b), tag("y_", ab)).add("B2", ptr(b), tag("z_", ab2))
	sb.add("A", ptr(a), tag("v_", ba))
	a.SetUnderlying(sa.typ())
	b.SetUnderlying(sb.typ())
	info, err := vpRun("SelectUser", vpStruct().add("Rel", a, `rel:"u"`))
	bad := aa || (ab || ab2) && ba
	if err != nil {
		vpAssert(bad, "a record type is rejected")
		vpReach("rejected")
		return
	}
	vpAssert(!bad, "a struct nested in itself is accepted")
	want := []string{"id"}
	if ab {
		want = append(want, "y_id")
	}
	if ab2 {
		want = append(want, "z_id")
	}
	fs := info.Struct.(*QueryStruct).Rel.Type.Fields
	vpAssert(len(fs) == len(want), "wrong number of columns")
	for i := range want {
		vpAssert(fs[i].ColIdent.Name == want[i], "wrong column")
	}
	vpReach("accepted")
}
