package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// printVal renders one operand for %v/%s.
func (w *W) printVal(fr *frame, v Iface, verb byte, plus bool, depth int) Str {
	if v.t == nil {
		if verb == 's' {
			return cstr("%!s(<nil>)")
		}
		return cstr("<nil>")
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if _, isNamed := v.t.(*types.Basic); !isNamed {
			if f := w.eng.methodByName(v.t, "Error"); f != nil && f.Signature.Params().Len() == 0 {
				return str(w.callFn(fr, f, []Value{v.v}, nil))
			}
			if f := w.eng.methodByName(v.t, "String"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
				return str(w.callFn(fr, f, []Value{v.v}, nil))
			}
		}
	}
	return w.printRaw(fr, v.t, v.v, verb, plus, depth)
}

func (w *W) printRaw(fr *frame, t types.Type, v Value, verb byte, plus bool, depth int) Str {
	switch x := v.(type) {
	case Str:
		return x
	case *Expr:
		width, signed, _ := basicInfo(t)
		if width == 0 {
			if x.op == OConst {
				return cstr(fmt.Sprint(x.k == 1))
			}
			if w.branch(x) {
				return cstr("true")
			}
			return cstr("false")
		}
		if verb == 's' {
			unsup("%%s of integer")
		}
		return w.fmtInt(x, signed, 10)
	case float64:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			return cstr(fmt.Sprint(float32(x)))
		}
		return cstr(fmt.Sprint(x))
	case SymF:
		return w.fmtFloat(x, 'g', -1, 64)
	case Slice:
		et := t.Underlying().(*types.Slice).Elem()
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb == 's' {
			return w.bytesToStr(x)
		}
		return w.printList(fr, et, []Value(x), verb, depth)
	case Array:
		return w.printList(fr, t.Underlying().(*types.Array).Elem(), []Value(x), verb, depth)
	case Iface:
		return w.printVal(fr, x, verb, plus, depth+1)
	case Struct:
		st := t.Underlying().(*types.Struct)
		out := cstr("{")
		for i, f := range x {
			if i > 0 {
				out = concat(out, cstr(" "))
			}
			if plus {
				out = concat(out, cstr(st.Field(i).Name()+":"))
			}
			out = concat(out, w.printElem(fr, st.Field(i).Type(), f, verb, depth))
		}
		return concat(out, cstr("}"))
	case Ptr:
		if x == nil {
			return cstr("<nil>")
		}
		if depth == 0 {
			if st, ok := (*x).(Struct); ok {
				return concat(cstr("&"), w.printRaw(fr, t.Underlying().(*types.Pointer).Elem(), st, verb, plus, 1))
			}
		}
		return cstr("0xc000000000")
	}
	unsup("formatting %T", v)
	return Str{}
}

func (w *W) printElem(fr *frame, t types.Type, v Value, verb byte, depth int) Str {
	if i, ok := v.(Iface); ok {
		return w.printVal(fr, i, verb, false, depth+1)
	}
	return w.printVal(fr, Iface{w.eng.canonType(t), v}, verb, false, depth+1)
}

func (w *W) printList(fr *frame, et types.Type, l []Value, verb byte, depth int) Str {
	out := cstr("[")
	for i, e := range l {
		if i > 0 {
			out = concat(out, cstr(" "))
		}
		out = concat(out, w.printElem(fr, et, e, verb, depth))
	}
	return concat(out, cstr("]"))
}

func (w *W) sprintf(fr *frame, format Str, args []Value, lenient bool) Str {
	f := format.s
	if !format.concrete() { // decide where the verbs are; other bytes are copied
		shape := make([]byte, format.Len())
		verb := false
		for i := range shape {
			b := format.at(i)
			switch {
			case b.op == OConst:
				shape[i] = byte(b.k)
			case w.branch(w.eb.Eq(b, mkConst(8, '%'))):
				shape[i] = '%'
			case verb:
				if !w.branch(w.eb.Eq(b, mkConst(8, 's'))) {
					unsup("symbolic format string")
				}
				shape[i] = 's'
			}
			verb = !verb && shape[i] == '%'
		}
		f = string(shape)
	}
	out := Str{}
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = concat(out, format.slice(i, len(f)))
			break
		}
		out = concat(out, format.slice(i, i+j))
		i += j + 1
		spec := "%"
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			spec += string(f[i])
			i++
		}
		if i >= len(f) {
			return concat(out, cstr("%!(NOVERB)"))
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = concat(out, cstr("%"))
			continue
		}
		if ai >= len(args) {
			out = concat(out, cstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		arg := args[ai].(Iface)
		ai++
		out = concat(out, w.fmtOne(fr, spec, verb, arg, lenient))
	}
	if ai < len(args) && !lenient {
		unsup("extra fmt operands")
	}
	return out
}

func (w *W) fmtOne(fr *frame, spec string, verb byte, arg Iface, lenient bool) (r Str) {
	if lenient {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(unsupported); ok {
					r = cstr("<value>")
					return
				}
				panic(x)
			}
		}()
	}
	if verb == 'T' {
		return cstr(arg.t.String())
	}
	if verb == 'p' {
		return cstr("0xc000000000")
	}
	if verb == 'w' {
		verb = 'v'
	}
	if spec == "%" || spec == "%+" {
		switch verb {
		case 'v', 's':
			return w.printVal(fr, arg, verb, spec == "%+", 0)
		case 'd':
			if e, ok := arg.v.(*Expr); ok {
				_, signed, _ := basicInfo(arg.t)
				return w.fmtInt(e, signed, 10)
			}
			return w.printVal(fr, arg, 'd', false, 0)
		case 't':
			return w.printVal(fr, arg, 'v', false, 0)
		case 'x':
			if e, ok := arg.v.(*Expr); ok {
				_, signed, _ := basicInfo(arg.t)
				return w.fmtInt(e, signed, 16)
			}
		}
	}
	// general case: concrete operands only
	if verb == 'q' || verb == 's' || verb == 'v' {
		s := w.printVal(fr, arg, verb, false, 0)
		if s.concrete() {
			if verb == 'v' {
				verb = 's'
			}
			return cstr(fmt.Sprintf(spec+string(verb), s.s))
		}
		if verb == 'q' && spec == "%" {
			return str(w.fallback(fr, "strconv", "Quote", []Value{s}))
		}
	}
	switch x := arg.v.(type) {
	case *Expr:
		if x.op == OConst {
			_, signed, _ := basicInfo(arg.t)
			if signed {
				return cstr(fmt.Sprintf(spec+string(verb), sx(x.k, x.w)))
			}
			return cstr(fmt.Sprintf(spec+string(verb), x.k))
		}
	case float64:
		return cstr(fmt.Sprintf(spec+string(verb), x))
	}
	unsup("format %s%c of %T", spec, verb, arg.v)
	return Str{}
}

func initFmt() {
	intr["fmt.Sprintf"] = func(w *W, fr *frame, a []Value) Value { return w.sprintf(fr, str(a[0]), a[1].(Slice), false) }
	intr["fmt.Errorf"] = func(w *W, fr *frame, a []Value) Value {
		args := a[1].(Slice)
		msg := w.sprintf(fr, str(a[0]), args, true)
		f := str(a[0]).s
		if strings.Count(f, "%w") == 1 {
			pkg := w.eng.prog.ImportedPackage("fmt")
			if pkg != nil && pkg.Type("wrapError") != nil {
				// find the operand
				n := strings.Count(strings.ReplaceAll(f[:strings.Index(f, "%w")], "%%", ""), "%")
				if n < len(args) {
					p := new(Value)
					*p = Struct{msg, args[n]}
					return Iface{w.eng.canonType(types.NewPointer(pkg.Type("wrapError").Type())), Ptr(p)}
				}
			}
		}
		p := new(Value)
		*p = Struct{msg}
		pkg := w.eng.prog.ImportedPackage("errors")
		return Iface{w.eng.canonType(types.NewPointer(pkg.Type("errorString").Type())), Ptr(p)}
	}
	sprint := func(ln bool) intrFn {
		return func(w *W, fr *frame, a []Value) Value {
			out := Str{}
			prevStr := true
			for i, x := range a[0].(Slice) {
				v := x.(Iface)
				_, isS := v.v.(Str)
				if ln && i > 0 || !ln && i > 0 && !isS && !prevStr {
					out = concat(out, cstr(" "))
				}
				prevStr = isS
				out = concat(out, w.printVal(fr, v, 'v', false, 0))
			}
			if ln {
				out = concat(out, cstr("\n"))
			}
			return out
		}
	}
	intr["fmt.Sprint"] = sprint(false)
	intr["fmt.Sprintln"] = sprint(true)
	wr := func(s func(w *W, fr *frame, a []Value) Str) intrFn {
		return func(w *W, fr *frame, a []Value) Value {
			out := s(w, fr, a[1:])
			dst := a[0].(Iface)
			if dst.t == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := w.eng.methodByName(dst.t, "Write")
			if f == nil {
				unsup("Fprintf to %s", dst.t)
			}
			return w.callFn(fr, f, []Value{dst.v, strToBytes(out)}, nil)
		}
	}
	intr["fmt.Fprintf"] = wr(func(w *W, fr *frame, a []Value) Str { return w.sprintf(fr, str(a[0]), a[1].(Slice), false) })
	intr["fmt.Fprint"] = wr(func(w *W, fr *frame, a []Value) Str { return str(intr["fmt.Sprint"](w, fr, a)) })
	intr["fmt.Fprintln"] = wr(func(w *W, fr *frame, a []Value) Str { return str(intr["fmt.Sprintln"](w, fr, a)) })
	intr["fmt.Println"] = func(w *W, fr *frame, a []Value) Value { return Tuple{int64c(0), Iface{}} }
	intr["fmt.Printf"] = intr["fmt.Println"]
	intr["fmt.Print"] = intr["fmt.Println"]
	intr["log.Println"] = nop
	intr["log.Printf"] = nop
	intr["log.Print"] = nop
	_ = strconv.Itoa
}
