package main

// A model of package fmt over symbolic values.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

const tokLSS = token.LSS

func (in *Interp) renderConc(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(in.tt.Eval(t))
		}
		return string(b)
	}
	return fmt.Sprintf("%v", v)
}

func (in *Interp) methodByName(t types.Type, name string) *types.Func {
	ms := in.P.methodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return f
		}
	}
	return nil
}

func (in *Interp) callStringer(v Iface) (Value, bool) {
	if v.T == nil {
		return nil, false
	}
	if v.T == in.P.rtErr {
		return v.V, true
	}
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		return nil, false
	}
	for _, name := range []string{"Error", "String"} {
		m := in.methodByName(v.T, name)
		if m == nil {
			continue
		}
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		f := in.P.lookupMethod(v.T, m)
		if f == nil {
			continue
		}
		return in.safeCallStr(&Closure{fn: f}, v), true
	}
	return nil, false
}

func (in *Interp) safeCallStr(cl *Closure, v Iface) (res Value) {
	g := in.cur
	n := len(g.frames)
	np := len(g.panics)
	nm := in.noMerge
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(goPanicErr); ok {
				g.frames = g.frames[:n]
				g.panics = g.panics[:np]
				in.noMerge = nm
				if p, ok := v.V.(*Value); ok && p == nil {
					res = "<nil>"
					return
				}
				res = "%!v(PANIC=String method)"
				return
			}
			panic(r)
		}
	}()
	return in.callSync(g, cl, []Value{v.V})
}

// fmtValue renders v for verb without width handling.
func (in *Interp) fmtValue(v Iface, verb byte, flags string) Value {
	return in.fmtDepth(v, verb, flags, 0)
}

func (in *Interp) fmtDepth(v Iface, verb byte, flags string, depth int) Value {
	if v.T == nil {
		if verb == 'v' || verb == 's' && depth > 0 {
			return "<nil>"
		}
		if verb == 'T' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return v.T.String()
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
		if !strings.Contains(flags, "#") {
			if s, ok := in.callStringer(v); ok {
				return in.fmtStr(s, verb)
			}
		}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if verb == 'd' || verb == 'c' || verb == 't' {
				return in.strCat("%!"+string(verb)+"(string=", in.strCat(v.V, ")"))
			}
			return in.fmtStr(v.V, verb)
		case u.Info()&types.IsBoolean != 0:
			switch b := v.V.(type) {
			case bool:
				return strconv.FormatBool(b)
			case *Term:
				return strconv.FormatBool(in.branch(b))
			}
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := basicInfo(v.T)
			var c uint64
			switch x := v.V.(type) {
			case uint64:
				c = x
			case *Term:
				if verb == 'x' && flags == fmt.Sprintf("0%d", w/4) {
					// fixed-width hex without forking
					return in.hexTerm(x)
				}
				c = in.concretize(x)
			}
			if verb == 'v' {
				verb = 'd'
			}
			f := "%" + flags + string(verb)
			if signed {
				return fmt.Sprintf(f, sext(c, w))
			}
			return fmt.Sprintf(f, c)
		case u.Info()&types.IsFloat != 0:
			return fmt.Sprintf("%"+flags+string(verb), v.V)
		case u.Kind() == types.UnsafePointer:
			return "0xc000000000"
		}
	case *types.Slice:
		s, ok := v.V.([]Value)
		if !ok {
			break
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch verb {
			case 's', 'q', 'x', 'X':
				return in.fmtStr(in.strOfBytes(s), verb)
			}
		}
		return in.fmtList(s, u.Elem(), verb, flags, depth)
	case *types.Array:
		s, ok := v.V.(ArrayV)
		if !ok {
			break
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch verb {
			case 's', 'q', 'x', 'X':
				return in.fmtStr(in.strOfBytes([]Value(s)), verb)
			}
		}
		return in.fmtList([]Value(s), u.Elem(), verb, flags, depth)
	case *types.Struct:
		s, ok := v.V.(StructV)
		if !ok {
			break
		}
		var res Value = "{"
		for i := range s {
			if i > 0 {
				res = in.strCat(res, " ")
			}
			if strings.Contains(flags, "+") {
				res = in.strCat(res, u.Field(i).Name()+":")
			}
			ft := u.Field(i).Type()
			ev := Iface{ft, s[i]}
			if _, isI := ft.Underlying().(*types.Interface); isI {
				ev = s[i].(Iface)
			}
			res = in.strCat(res, in.fmtDepth(ev, verb, flags, depth+1))
		}
		return in.strCat(res, "}")
	case *types.Pointer:
		p, ok := v.V.(*Value)
		if !ok {
			break
		}
		if p == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return in.strCat("&", in.fmtDepth(Iface{u.Elem(), *p}, verb, flags, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Map:
		m, ok := v.V.(*MapV)
		if !ok || m == nil {
			return "map[]"
		}
		var res Value = "map["
		first := true
		for i := range m.ents {
			e := &m.ents[i]
			if e.dead {
				continue
			}
			if !first {
				res = in.strCat(res, " ")
			}
			first = false
			wrap := func(t types.Type, x Value) Iface {
				if _, isI := t.Underlying().(*types.Interface); isI {
					return x.(Iface)
				}
				return Iface{t, x}
			}
			res = in.strCat(res, in.fmtDepth(wrap(u.Key(), e.k), verb, flags, depth+1))
			res = in.strCat(res, ":")
			res = in.strCat(res, in.fmtDepth(wrap(u.Elem(), e.v), verb, flags, depth+1))
		}
		return in.strCat(res, "]")
	case *types.Signature, *types.Chan:
		return "0xc000000000"
	}
	return "%!" + string(verb) + "(?)"
}

func (in *Interp) fmtList(s []Value, et types.Type, verb byte, flags string, depth int) Value {
	var res Value = "["
	for i := range s {
		if i > 0 {
			res = in.strCat(res, " ")
		}
		ev := Iface{et, s[i]}
		if _, isI := et.Underlying().(*types.Interface); isI {
			ev = s[i].(Iface)
		}
		res = in.strCat(res, in.fmtDepth(ev, verb, flags, depth+1))
	}
	return in.strCat(res, "]")
}

func (in *Interp) hexTerm(x *Term) Value {
	n := int(x.w) / 4
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		sh := uint64(x.w) - 4*uint64(i+1)
		nib := in.tt.Bin(opBAnd, in.tt.Bin(opLShr, x, in.tt.Const(sh, x.w)), in.tt.Const(15, x.w))
		b := in.tt.Resize(nib, 8, false)
		out[i] = in.tt.Ite(in.tt.Cmp(opUlt, b, in.tt.Const(10, 8)),
			in.tt.Bin(opAdd, b, in.tt.Const('0', 8)),
			in.tt.Bin(opAdd, b, in.tt.Const('a'-10, 8)))
	}
	return mkStr(out)
}

func (in *Interp) fmtStr(s Value, verb byte) Value {
	switch verb {
	case 'q':
		if c, ok := s.(string); ok {
			return strconv.Quote(c)
		}
		// approximate: correct for strings without special characters
		return in.strCat("\"", in.strCat(s, "\""))
	case 'x', 'X':
		if c, ok := s.(string); ok {
			return fmt.Sprintf("%"+string(verb), c)
		}
		var res Value = ""
		for _, t := range in.strTerms(s) {
			res = in.strCat(res, in.hexTerm(t))
		}
		return res
	}
	return s
}

func (in *Interp) sprintf(format Value, args []Value) Value {
	f, ok := format.(string)
	if !ok {
		// a symbolic format string: split on % by forking
		sy := format.(*SymStr)
		b := make([]byte, 0, len(sy.b))
		var res Value = ""
		plain := true
		for _, t := range sy.b {
			if in.branch(in.normB(in.tt.Eq(t, in.tt.Const('%', 8)))) {
				plain = false
			}
		}
		if plain {
			res = format
			if len(args) > 0 {
				res = in.strCat(res, "%!(EXTRA ?)")
			}
			return res
		}
		for _, t := range sy.b {
			b = append(b, byte(in.concretize(t)))
		}
		f = string(b)
	}
	var res Value = ""
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			res = in.strCat(res, f[i:])
			break
		}
		res = in.strCat(res, f[i:i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			i++
		}
		for i < len(f) && (f[i] >= '0' && f[i] <= '9' || f[i] == '.') {
			i++
		}
		if i >= len(f) {
			res = in.strCat(res, "%!(NOVERB)")
			break
		}
		flags := f[st:i]
		vr, vn := utf8.DecodeRuneInString(f[i:])
		i += vn
		if vr == '%' {
			res = in.strCat(res, "%")
			continue
		}
		if vr >= 0x80 || vr == '*' || vr == '[' {
			panic(unsupported("fmt verb " + string(vr)))
		}
		verb := byte(vr)
		if ai >= len(args) {
			res = in.strCat(res, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a, ok := args[ai].(Iface)
		if !ok {
			panic(unsupportedV("fmt arg", args[ai]))
		}
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		s := in.fmtValue(a, verb, flags)
		s = in.padStr(s, flags, verb, a)
		res = in.strCat(res, s)
	}
	if ai < len(args) {
		res = in.strCat(res, "%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				res = in.strCat(res, ", ")
			}
			a := args[k].(Iface)
			if a.T == nil {
				res = in.strCat(res, "<nil>")
			} else {
				res = in.strCat(res, a.T.String()+"=")
				res = in.strCat(res, in.fmtValue(a, 'v', ""))
			}
		}
		res = in.strCat(res, ")")
	}
	return res
}

// padStr applies width and precision for strings; integers were handled.
func (in *Interp) padStr(s Value, flags string, verb byte, a Iface) Value {
	if a.T != nil {
		if b, ok := a.T.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsFloat) != 0 {
			if _, isS := in.asStringer(a); !isS {
				return s
			}
		}
	}
	left := strings.Contains(flags, "-")
	fl := strings.TrimLeft(flags, "+-# 0")
	if fl == "" {
		return s
	}
	w, p := fl, ""
	if k := strings.IndexByte(fl, '.'); k >= 0 {
		w, p = fl[:k], fl[k+1:]
		if p == "" {
			p = "0"
		}
	}
	if p != "" && (verb == 's' || verb == 'v') {
		n, _ := strconv.Atoi(p)
		if strLen(s) > n {
			s = strSub(s, 0, n)
		}
	}
	if w != "" {
		n, _ := strconv.Atoi(w)
		if d := n - strLen(s); d > 0 {
			pad := strings.Repeat(" ", d)
			if left {
				return in.strCat(s, pad)
			}
			return in.strCat(pad, s)
		}
	}
	return s
}

func (in *Interp) asStringer(a Iface) (Value, bool) {
	if in.methodByName(a.T, "Error") != nil || in.methodByName(a.T, "String") != nil {
		return nil, true
	}
	return nil, false
}

// sprint implements Sprint (ln=false) and Sprintln (ln=true).
func (in *Interp) sprint(args []Value, ln bool) Value {
	var res Value = ""
	prevStr := false
	for i, a := range args {
		v := a.(Iface)
		isStr := false
		if v.T != nil {
			if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.String {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			res = in.strCat(res, " ")
		}
		res = in.strCat(res, in.fmtValue(v, 'v', ""))
		prevStr = isStr
	}
	if ln {
		res = in.strCat(res, "\n")
	}
	return res
}
