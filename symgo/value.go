package main

// Runtime values of the symbolic interpreter.
//
//  bool             Go bool or *Term (w=0)
//  integers         uint64 (masked to the width) or *Term
//  floats           float64 (concrete only)
//  string           Go string or *SymStr (concrete length, symbolic bytes)
//  pointer          *Value (nil pointer: (*Value)(nil)); unsafe.Pointer likewise
//  struct, array    StructV, ArrayV
//  slice            []Value
//  map              *MapV
//  chan             *Chan
//  interface        Iface
//  func             *Closure (nil func: (*Closure)(nil))
//  tuple            TupleV

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV []Value
type ArrayV []Value
type TupleV []Value

type SymStr struct{ b []*Term }

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	fn      *ssa.Function
	env     []Value
	builtin *ssa.Builtin
	host    string // bound intrinsic
}

type mapEnt struct {
	k, v Value
	dead bool
}

type MapV struct {
	ents []mapEnt
	idx  map[interface{}]int // concrete keys
	sym  int                 // number of live entries whose key is symbolic
	n    int
	kt   types.Type
	cell Value // identity used by the race detector
}

// Poison marks a value whose computation is not supported; using it ends the
// path as unsupported.
type Poison struct{ why string }

// SliceData is unsafe.SliceData / unsafe.StringData of something.
type DataPtr struct {
	s []Value
	v Value // string
}

type mapIter struct {
	m    *MapV
	keys []int
	pos  int
}
type strIter struct {
	s   Value
	pos int
}

func under(t types.Type) types.Type { return t.Underlying() }

func basicInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = zeroValue(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(ArrayV, u.Len())
		et := u.Elem()
		for i := range a {
			a[i] = zeroValue(et)
		}
		return a
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = zeroValue(u.At(i).Type())
		}
		return tv
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero value of %s", t)))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case StructV:
		n := make(StructV, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case ArrayV:
		n := make(ArrayV, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

// storeInto writes v to *p, keeping the backing cells of aggregates so that
// pointers to fields and elements stay valid.
func storeInto(p *Value, v Value) {
	switch x := v.(type) {
	case StructV:
		if d, ok := (*p).(StructV); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case ArrayV:
		if d, ok := (*p).(ArrayV); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- strings

func isSymStr(v Value) bool { _, ok := v.(*SymStr); return ok }

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(unsupported(fmt.Sprintf("strLen of %T", v)))
}

func (in *Interp) strAt(v Value, i int) *Term {
	switch x := v.(type) {
	case string:
		return in.tt.Const(uint64(x[i]), 8)
	case *SymStr:
		return x.b[i]
	}
	panic(unsupported(fmt.Sprintf("strAt of %T", v)))
}

func (in *Interp) strAtV(v Value, i int) Value {
	switch x := v.(type) {
	case string:
		return uint64(x[i])
	case *SymStr:
		return in.norm(x.b[i])
	}
	panic(unsupported(fmt.Sprintf("strAt of %T", v)))
}

func (in *Interp) strTerms(v Value) []*Term {
	switch x := v.(type) {
	case string:
		r := make([]*Term, len(x))
		for i := range r {
			r[i] = in.tt.Const(uint64(x[i]), 8)
		}
		return r
	case *SymStr:
		return x.b
	}
	panic(unsupported(fmt.Sprintf("strTerms of %T", v)))
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != opConst {
			return &SymStr{b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.k))
	}
	return sb.String()
}

func strSub(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return mkStr(x.b[lo:hi:hi])
	}
	panic(unsupported("strSub"))
}

func (in *Interp) strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ta, tb := in.strTerms(a), in.strTerms(b)
	r := make([]*Term, 0, len(ta)+len(tb))
	r = append(r, ta...)
	r = append(r, tb...)
	return mkStr(r)
}

// strEq returns a Boolean value (bool or *Term).
func (in *Interp) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	res := in.tt.tru
	for i := 0; i < n; i++ {
		res = in.tt.And(res, in.tt.Eq(in.strAt(a, i), in.strAt(b, i)))
		if res == in.tt.fls {
			return false
		}
	}
	return in.normB(res)
}

// strLess: a < b lexicographically.
func (in *Interp) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	na, nb := strLen(a), strLen(b)
	m := na
	if nb < m {
		m = nb
	}
	res := in.tt.Bool(na < nb)
	for i := m - 1; i >= 0; i-- {
		x, y := in.strAt(a, i), in.strAt(b, i)
		res = in.tt.Ite(in.tt.Eq(x, y), res, in.tt.Cmp(opUlt, x, y))
	}
	return in.normB(res)
}

// norm turns constant terms into plain values.
func (in *Interp) norm(t *Term) Value {
	if t.op == opConst {
		if t.w == 0 {
			return t.k != 0
		}
		return t.k
	}
	return t
}
func (in *Interp) normB(t *Term) Value {
	if t.op == opConst {
		return t.k != 0
	}
	return t
}

func (in *Interp) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return in.tt.Bool(x)
	case *Term:
		return x
	}
	panic(unsupportedV("boolTerm", v))
}

func (in *Interp) intTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case uint64:
		return in.tt.Const(x, w)
	case *Term:
		return x
	}
	panic(unsupportedV("intTerm", v))
}

func unsupportedV(what string, v Value) pathEnd {
	if p, ok := v.(Poison); ok {
		return unsupported(what + " of poison: " + p.why)
	}
	return unsupported(fmt.Sprintf("%s of %T", what, v))
}

func (in *Interp) bytesOfStr(v Value) []Value {
	n := strLen(v)
	r := make([]Value, n)
	for i := range r {
		r[i] = in.strAtV(v, i)
	}
	return r
}

func (in *Interp) strOfBytes(b []Value) Value {
	sym := false
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			sym = true
			break
		}
	}
	if !sym {
		bb := make([]byte, len(b))
		for i, x := range b {
			u, ok := x.(uint64)
			if !ok {
				panic(unsupportedV("strOfBytes", x))
			}
			bb[i] = byte(u)
		}
		return string(bb)
	}
	r := make([]*Term, len(b))
	for i, x := range b {
		r[i] = in.intTerm(x, 8)
	}
	return mkStr(r)
}

// ---- equality

func (in *Interp) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return in.normB(in.tt.And(a.(*Term), b.(*Term)))
}

func (in *Interp) notV(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return in.normB(in.tt.Not(in.boolTerm(a)))
}

func (in *Interp) eqVal(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return in.strEq(a, b)
		case u.Info()&types.IsBoolean != 0:
			if x, ok := a.(bool); ok {
				if y, ok := b.(bool); ok {
					return x == y
				}
			}
			return in.normB(in.tt.Eq(in.boolTerm(a), in.boolTerm(b)))
		case u.Info()&types.IsInteger != 0:
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return x == y
				}
			}
			w, _, _ := basicInfo(t)
			return in.normB(in.tt.Eq(in.intTerm(a, w), in.intTerm(b, w)))
		case u.Info()&types.IsFloat != 0:
			return a.(float64) == b.(float64)
		case u.Kind() == types.UnsafePointer:
			return a.(*Value) == b.(*Value)
		case u.Kind() == types.UntypedNil:
			return true
		}
	case *types.Pointer:
		pa, ok1 := a.(*Value)
		pb, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			panic(unsupported(fmt.Sprintf("pointer compare %T %T", a, b)))
		}
		return pa == pb
	case *types.Chan:
		return a.(*Chan) == b.(*Chan)
	case *types.Map:
		return a.(*MapV) == b.(*MapV) // only against nil
	case *types.Slice:
		return a.([]Value) == nil && b.([]Value) == nil
	case *types.Signature:
		return a.(*Closure) == nil && b.(*Closure) == nil
	case *types.Interface:
		x, ok := a.(Iface)
		if !ok {
			panic(unsupportedV("iface compare", a))
		}
		y, ok := b.(Iface)
		if !ok {
			panic(unsupportedV("iface compare", b))
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		if !types.Comparable(x.T) {
			in.goPanicStr("runtime error: comparing uncomparable type " + x.T.String())
		}
		return in.eqVal(x.T, x.V, y.V)
	case *types.Struct:
		x, y := a.(StructV), b.(StructV)
		var res Value = true
		for i := range x {
			res = in.andV(res, in.eqVal(u.Field(i).Type(), x[i], y[i]))
			if r, ok := res.(bool); ok && !r {
				return false
			}
		}
		return res
	case *types.Array:
		x, y := a.(ArrayV), b.(ArrayV)
		var res Value = true
		for i := range x {
			res = in.andV(res, in.eqVal(u.Elem(), x[i], y[i]))
			if r, ok := res.(bool); ok && !r {
				return false
			}
		}
		return res
	}
	panic(unsupported(fmt.Sprintf("equality of %s", t)))
}

// ---- maps

type ifaceKey struct {
	t string
	v interface{}
}

// concKey returns a hashable host key for a concrete value.
func concKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case bool, uint64, string, float64, *Value, *Chan:
		return x, true
	case *Term, *SymStr:
		return nil, false
	case Iface:
		if x.T == nil {
			return ifaceKey{}, true
		}
		k, ok := concKey(x.V)
		if !ok {
			return nil, false
		}
		return ifaceKey{x.T.String(), k}, true
	case StructV:
		s := "S"
		for _, e := range x {
			k, ok := concKey(e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%v", k, k)
		}
		return s, true
	case ArrayV:
		s := "A"
		for _, e := range x {
			k, ok := concKey(e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%v", k, k)
		}
		return s, true
	}
	return nil, false
}

func newMap(kt types.Type) *MapV {
	return &MapV{idx: make(map[interface{}]int), kt: kt}
}

// find locates the entry for key k, forking when equality is symbolic.
func (in *Interp) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	ck, conc := concKey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if conc {
			if _, c := concKey(e.k); c {
				continue
			}
		}
		if in.branch(in.eqVal(m.kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapSet(m *MapV, k, v Value) {
	if m == nil {
		in.goPanicStr("assignment to entry in nil map")
	}
	if i := in.mapFind(m, k); i >= 0 {
		m.ents[i].v = v
		return
	}
	if ck, ok := concKey(k); ok {
		m.idx[ck] = len(m.ents)
	} else {
		m.sym++
	}
	m.ents = append(m.ents, mapEnt{k: k, v: v})
	m.n++
}

func (in *Interp) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	if ck, ok := concKey(m.ents[i].k); ok {
		delete(m.idx, ck)
	} else {
		m.sym--
	}
	m.ents[i].dead = true
	m.n--
}

func isScalar(v Value) bool {
	switch v.(type) {
	case bool, uint64, *Term:
		return true
	}
	return false
}

// mapLookup returns value and presence. Symbolic keys against scalar maps are
// merged into one term instead of forking.
func (in *Interp) mapLookup(m *MapV, k Value, vt types.Type) (Value, Value) {
	zero := zeroValue(vt)
	if m == nil {
		return zero, false
	}
	_, conc := concKey(k)
	if !conc || m.sym > 0 {
		allScalar := isScalar(zero)
		if allScalar {
			for i := range m.ents {
				if !m.ents[i].dead && !isScalar(m.ents[i].v) {
					allScalar = false
					break
				}
			}
		}
		if allScalar {
			var res Value = zero
			var okv Value = false
			for i := range m.ents {
				e := &m.ents[i]
				if e.dead {
					continue
				}
				eq := in.eqVal(m.kt, e.k, k)
				if b, isb := eq.(bool); isb {
					if b {
						return e.v, true
					}
					continue
				}
				res = in.iteScalar(eq.(*Term), e.v, res, vt)
				okv = in.normB(in.tt.Or(eq.(*Term), in.boolTerm(okv)))
			}
			return res, okv
		}
	}
	i := in.mapFind(m, k)
	if i < 0 {
		return zero, false
	}
	return m.ents[i].v, true
}

func (in *Interp) iteScalar(c *Term, a, b Value, t types.Type) Value {
	if w, _, ok := basicInfo(t); ok {
		return in.norm(in.tt.Ite(c, in.intTerm(a, w), in.intTerm(b, w)))
	}
	return in.normB(in.tt.Ite(c, in.boolTerm(a), in.boolTerm(b)))
}

// tryMerge builds ite(c, a, b) for mergeable values, or reports false.
func (in *Interp) tryMerge(c *Term, a, b Value, t types.Type) (Value, bool) {
	switch x := a.(type) {
	case bool, uint64, *Term:
		if !isScalar(b) {
			return nil, false
		}
		return in.iteScalar(c, a, b, t), true
	case string, *SymStr:
		if _, ok := b.(*SymStr); !ok {
			if _, ok := b.(string); !ok {
				return nil, false
			}
		}
		if strLen(a) != strLen(b) {
			return nil, false
		}
		n := strLen(a)
		r := make([]*Term, n)
		for i := range r {
			r[i] = in.tt.Ite(c, in.strAt(a, i), in.strAt(b, i))
		}
		return mkStr(r), true
	case *Value:
		if y, ok := b.(*Value); ok && x == y {
			return a, true
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && x == y {
			return a, true
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && (x == y || (x != nil && y != nil && x.fn == y.fn && x.fn != nil && len(x.env) == 0 && len(y.env) == 0)) {
			return a, true
		}
	case float64:
		if y, ok := b.(float64); ok && x == y {
			return a, true
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.T == nil && y.T == nil {
			return a, true
		}
		if x.T == nil || y.T == nil || !types.Identical(x.T, y.T) {
			return nil, false
		}
		v, ok := in.tryMerge(c, x.V, y.V, x.T)
		if !ok {
			return nil, false
		}
		return Iface{x.T, v}, true
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return nil, false
		}
		if len(x) == 0 {
			return a, true
		}
		if &x[0] == &y[0] {
			return a, true
		}
	case StructV:
		y, ok := b.(StructV)
		st, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 || len(x) != len(y) {
			return nil, false
		}
		r := make(StructV, len(x))
		for i := range x {
			v, ok := in.tryMerge(c, x[i], y[i], st.Field(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	return nil, false
}
