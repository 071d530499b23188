package main

// Models of library functions the interpreter does not execute from source.

import (
	"fmt"
	"go/types"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl)

type intrEnt struct {
	f    intrinsic
	pure bool
}

var intrTab = map[string]intrEnt{}
var intrCache sync.Map // *ssa.Function -> intrEnt

func reg(name string, pure bool, f intrinsic) { intrTab[name] = intrEnt{f, pure} }

func lookupIntrinsic(f *ssa.Function) (intrinsic, bool) {
	if e, ok := intrCache.Load(f); ok {
		x := e.(intrEnt)
		return x.f, x.pure
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	e, ok := intrTab[name]
	if !ok && strings.HasPrefix(name, userMod) {
		e, ok = intrTab["user:"+strings.TrimPrefix(name, userMod)]
	}
	if !ok && strings.HasPrefix(name, "("+"*"+userMod) {
		e, ok = intrTab["user:(*"+strings.TrimPrefix(name, "(*"+userMod)]
	}
	intrCache.Store(f, e)
	return e.f, e.pure
}

func done(v Value) (Value, ctl) { return v, ctlDone }

func sv(n int) Value { return uint64(int64(n)) }

// pure functions over values
func pure1(f func(in *Interp, a []Value) Value) intrinsic {
	return func(in *Interp, g *Gor, a []Value, _ *ssa.Function) (Value, ctl) { return f(in, a), ctlDone }
}

// indexByte builds the index of the first (or last) byte equal to c.
func (in *Interp) indexByte(n int, at func(int) *Term, c *Term, last bool) Value {
	res := in.tt.Const(^uint64(0), 64)
	if last {
		for i := 0; i < n; i++ {
			res = in.tt.Ite(in.tt.Eq(at(i), c), in.tt.Const(uint64(i), 64), res)
		}
	} else {
		for i := n - 1; i >= 0; i-- {
			res = in.tt.Ite(in.tt.Eq(at(i), c), in.tt.Const(uint64(i), 64), res)
		}
	}
	return in.norm(res)
}

func (in *Interp) strIndexByte(s, c Value, last bool) Value {
	if x, ok := s.(string); ok {
		if y, ok := c.(uint64); ok {
			if last {
				return sv(strings.LastIndexByte(x, byte(y)))
			}
			return sv(strings.IndexByte(x, byte(y)))
		}
	}
	return in.indexByte(strLen(s), func(i int) *Term { return in.strAt(s, i) }, in.intTerm(c, 8), last)
}

func (in *Interp) slIndexByte(s []Value, c Value, last bool) Value {
	return in.indexByte(len(s), func(i int) *Term { return in.intTerm(s[i], 8) }, in.intTerm(c, 8), last)
}

func (in *Interp) strIndex(s, sub Value, last bool) Value {
	if x, ok := s.(string); ok {
		if y, ok := sub.(string); ok {
			if last {
				return sv(strings.LastIndex(x, y))
			}
			return sv(strings.Index(x, y))
		}
	}
	n, m := strLen(s), strLen(sub)
	res := in.tt.Const(^uint64(0), 64)
	if m > n {
		return in.norm(res)
	}
	step := func(i int) {
		e := in.boolTerm(in.strEq(strSub(s, i, i+m), sub))
		res = in.tt.Ite(e, in.tt.Const(uint64(i), 64), res)
	}
	if last {
		for i := 0; i+m <= n; i++ {
			step(i)
		}
	} else {
		for i := n - m; i >= 0; i-- {
			step(i)
		}
	}
	return in.norm(res)
}

func (in *Interp) contains(s, sub Value) Value {
	n, m := strLen(s), strLen(sub)
	res := in.tt.fls
	for i := 0; i+m <= n; i++ {
		res = in.tt.Or(res, in.boolTerm(in.strEq(strSub(s, i, i+m), sub)))
	}
	return in.normB(res)
}

func (in *Interp) inSet(t *Term, chars string) *Term {
	r := in.tt.fls
	for i := 0; i < len(chars); i++ {
		r = in.tt.Or(r, in.tt.Eq(t, in.tt.Const(uint64(chars[i]), 8)))
	}
	return r
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (in *Interp) allASCII(s Value) *Term {
	r := in.tt.tru
	for _, t := range in.strTerms(s) {
		r = in.tt.And(r, in.tt.Cmp(opUlt, t, in.tt.Const(0x80, 8)))
	}
	return r
}

func (in *Interp) lowerByte(t *Term, up bool) *Term {
	lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
	if up {
		lo, hi, d = 'a', 'z', uint64(256-32)
	}
	c := in.tt.And(in.tt.Cmp(opUle, in.tt.Const(lo, 8), t), in.tt.Cmp(opUle, t, in.tt.Const(hi, 8)))
	if t.isConst() {
		if c == in.tt.tru {
			return in.tt.Const(t.k+d, 8)
		}
		return t
	}
	return in.tt.Ite(c, in.tt.Bin(opAdd, t, in.tt.Const(d, 8)), t)
}

func (in *Interp) callBody(g *Gor, f *ssa.Function, args []Value) (Value, ctl) {
	fn := in.info(f)
	if fn == nil {
		panic(unsupported("no body: " + f.String()))
	}
	nf := in.newFrame(fn, args, nil)
	g.frames = append(g.frames, nf)
	return nil, ctlPushed
}

func (in *Interp) caseMap(up bool) intrinsic {
	return func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		if s, ok := a[0].(string); ok {
			if up {
				return strings.ToUpper(s), ctlDone
			}
			return strings.ToLower(s), ctlDone
		}
		if !in.branch(in.normB(in.allASCII(a[0]))) {
			if in.noFork > 0 {
				panic(specAbort{})
			}
			return in.callBody(g, f, a)
		}
		ts := in.strTerms(a[0])
		r := make([]*Term, len(ts))
		for i, t := range ts {
			r[i] = in.lowerByte(t, up)
		}
		return mkStr(r), ctlDone
	}
}

func (in *Interp) mkError(msg Value) Value {
	p := new(Value)
	*p = StructV{msg}
	return Iface{in.P.errStrPtr, p}
}

func variadic(v Value) []Value {
	s, _ := v.([]Value)
	return s
}

func atomicLoad(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
	p := a[0].(*Value)
	if p == nil {
		in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	in.vcAtomic(g, p)
	return *p, ctlDone
}
func atomicStore(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
	p := a[0].(*Value)
	if p == nil {
		in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	in.vcAtomic(g, p)
	*p = a[1]
	return nil, ctlDone
}
func atomicSwap(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
	p := a[0].(*Value)
	o := *p
	in.vcAtomic(g, p)
	*p = a[1]
	return o, ctlDone
}
func atomicAdd(w uint8) intrinsic {
	return func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		p := a[0].(*Value)
		if p == nil {
			in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		in.vcAtomic(g, p)
		if x, ok := (*p).(uint64); ok {
			if y, ok := a[1].(uint64); ok {
				*p = (x + y) & mask(w)
				return *p, ctlDone
			}
		}
		*p = in.norm(in.tt.Bin(opAdd, in.intTerm(*p, w), in.intTerm(a[1], w)))
		return *p, ctlDone
	}
}
func atomicCAS(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
	p := a[0].(*Value)
	in.vcAtomic(g, p)
	t := f.Signature.Params().At(1).Type()
	if in.branch(in.eqVal(t, *p, a[1])) {
		*p = a[2]
		return true, ctlDone
	}
	return false, ctlDone
}

func (in *Interp) vcAtomic(g *Gor, p *Value) {
	if in.race == nil || g.id < 0 {
		return
	}
	m := in.mu(p)
	in.vcJoin(g, m.vc)
	in.vcRelease(g, &m.vc)
}

// userCall: the operation is called directly from the program's own code (not
// from an environment model or a library).
func (g *Gor) userCall() bool {
	if len(g.frames) == 0 {
		return false
	}
	p := g.frames[len(g.frames)-1].fn.pkg
	return p == userMod || p == userMod+"/zz/sync"
}

func (in *Interp) lockSync(g *Gor) ctl {
	if g.userCall() {
		return in.syncPoint(g)
	}
	return ctlDone
}

func lockIntr(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
	m := in.mu(a[0].(*Value))
	if m.locked || m.readers > 0 {
		m.q = append(m.q, &waiter{g: g})
		g.why = "mutex lock"
		return nil, ctlBlock
	}
	if in.inter && in.noFork == 0 && len(in.gors) > 1 && g.userCall() && g.op != "locking" {
		// scheduling point before the acquisition: yield with a retry
		g.op = "locking"
		g.frames[len(g.frames)-1].pc--
		return nil, ctlYield
	}
	g.op = ""
	m.locked = true
	if g.userCall() {
		in.vcJoin(g, m.vc)
		in.vcJoin(g, m.rvc)
	}
	return nil, ctlDone
}
func unlockIntr(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
	m := in.mu(a[0].(*Value))
	if !m.locked {
		panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex"})
	}
	m.locked = false
	if g.userCall() {
		in.vcRelease(g, &m.vc)
	}
	in.wakeMu(m)
	return nil, in.lockSync(g)
}
func rlockIntr(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
	m := in.mu(a[0].(*Value))
	if m.locked {
		m.q = append(m.q, &waiter{g: g})
		g.why = "rwmutex rlock"
		return nil, ctlBlock
	}
	m.readers++
	if g.userCall() {
		in.vcJoin(g, m.vc)
	}
	return nil, in.lockSync(g)
}
func runlockIntr(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
	m := in.mu(a[0].(*Value))
	if m.readers == 0 {
		panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	m.readers--
	if g.userCall() {
		in.vcRelease(g, &m.rvc)
	}
	in.wakeMu(m)
	return nil, in.lockSync(g)
}

func (in *Interp) wg(p *Value) *wgSt {
	w := in.wgs[p]
	if w == nil {
		w = &wgSt{}
		in.wgs[p] = w
	}
	return w
}

func (in *Interp) wgAdd(g *Gor, p *Value, d int64) {
	w := in.wg(p)
	w.n += d
	in.vcRelease(g, &w.vc)
	if w.n < 0 {
		in.goPanicStr("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, x := range w.q {
			in.ready(x)
		}
		w.q = nil
	}
}

// writeTo calls w.Write(data) as the result of the current call.
func (in *Interp) writeTo(g *Gor, w Value, s Value) (Value, ctl) {
	ifc, ok := w.(Iface)
	if !ok {
		panic(unsupportedV("writer", w))
	}
	if ifc.T == nil {
		in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	m := in.methodByName(ifc.T, "Write")
	if m == nil {
		panic(unsupported("no Write method"))
	}
	f := in.P.lookupMethod(ifc.T, m)
	return in.pushCall(g, nil, &Closure{fn: f}, []Value{ifc.V, in.bytesOfStr(s)}, -1, nil)
}

func symName(base string, w uint8) string { return fmt.Sprintf("%s.%d", base, w) }

func labelOf(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic label"))
	}
	return s
}

func hostStr1(fn func(string) string) intrinsic {
	return func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		if s, ok := a[0].(string); ok {
			return fn(s), ctlDone
		}
		return in.callBody(g, f, a)
	}
}

func init() {
	// --- strings
	reg("strings.IndexByte", true, pure1(func(in *Interp, a []Value) Value { return in.strIndexByte(a[0], a[1], false) }))
	reg("strings.LastIndexByte", true, pure1(func(in *Interp, a []Value) Value { return in.strIndexByte(a[0], a[1], true) }))
	reg("internal/bytealg.IndexByteString", true, intrTab["strings.IndexByte"].f)
	reg("internal/stringslite.IndexByte", true, intrTab["strings.IndexByte"].f)
	reg("internal/bytealg.LastIndexByteString", true, intrTab["strings.LastIndexByte"].f)
	reg("bytes.IndexByte", true, pure1(func(in *Interp, a []Value) Value { return in.slIndexByte(a[0].([]Value), a[1], false) }))
	reg("internal/bytealg.IndexByte", true, intrTab["bytes.IndexByte"].f)
	reg("internal/bytealg.LastIndexByte", true, pure1(func(in *Interp, a []Value) Value { return in.slIndexByte(a[0].([]Value), a[1], true) }))
	idx := pure1(func(in *Interp, a []Value) Value { return in.strIndex(a[0], a[1], false) })
	reg("strings.Index", true, idx)
	reg("internal/bytealg.IndexString", true, idx)
	reg("internal/stringslite.Index", true, idx)
	reg("strings.LastIndex", true, pure1(func(in *Interp, a []Value) Value { return in.strIndex(a[0], a[1], true) }))
	reg("bytes.Index", true, pure1(func(in *Interp, a []Value) Value {
		return in.strIndex(in.strOfBytes(a[0].([]Value)), in.strOfBytes(a[1].([]Value)), false)
	}))
	reg("internal/bytealg.Index", true, intrTab["bytes.Index"].f)
	reg("strings.Contains", true, pure1(func(in *Interp, a []Value) Value { return in.contains(a[0], a[1]) }))
	reg("bytes.Contains", true, pure1(func(in *Interp, a []Value) Value {
		return in.contains(in.strOfBytes(a[0].([]Value)), in.strOfBytes(a[1].([]Value)))
	}))
	reg("bytes.Equal", true, pure1(func(in *Interp, a []Value) Value {
		return in.strEq(in.strOfBytes(a[0].([]Value)), in.strOfBytes(a[1].([]Value)))
	}))
	reg("internal/bytealg.Equal", true, intrTab["bytes.Equal"].f)
	reg("strings.HasPrefix", true, pure1(func(in *Interp, a []Value) Value {
		n := strLen(a[1])
		if strLen(a[0]) < n {
			return false
		}
		return in.strEq(strSub(a[0], 0, n), a[1])
	}))
	reg("internal/stringslite.HasPrefix", true, intrTab["strings.HasPrefix"].f)
	reg("strings.HasSuffix", true, pure1(func(in *Interp, a []Value) Value {
		n, m := strLen(a[0]), strLen(a[1])
		if n < m {
			return false
		}
		return in.strEq(strSub(a[0], n-m, n), a[1])
	}))
	reg("internal/stringslite.HasSuffix", true, intrTab["strings.HasSuffix"].f)
	reg("strings.IndexAny", true, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		s, ok1 := a[0].(string)
		ch, ok2 := a[1].(string)
		if ok1 && ok2 {
			return sv(strings.IndexAny(s, ch)), ctlDone
		}
		if !ok2 || !isASCII(ch) {
			if in.noFork > 0 {
				panic(specAbort{})
			}
			return in.callBody(g, f, a)
		}
		res := in.tt.Const(^uint64(0), 64)
		for i := strLen(a[0]) - 1; i >= 0; i-- {
			res = in.tt.Ite(in.inSet(in.strAt(a[0], i), ch), in.tt.Const(uint64(i), 64), res)
		}
		return in.norm(res), ctlDone
	})
	reg("strings.ContainsAny", true, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		s, ok1 := a[0].(string)
		ch, ok2 := a[1].(string)
		if ok1 && ok2 {
			return strings.ContainsAny(s, ch), ctlDone
		}
		if !ok2 || !isASCII(ch) {
			if in.noFork > 0 {
				panic(specAbort{})
			}
			return in.callBody(g, f, a)
		}
		res := in.tt.fls
		for _, t := range in.strTerms(a[0]) {
			res = in.tt.Or(res, in.inSet(t, ch))
		}
		return in.normB(res), ctlDone
	})
	runeIdx := func(cont bool) intrinsic {
		return func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
			r, ok := a[1].(uint64)
			if !ok || r >= 0x80 {
				if in.noFork > 0 {
					panic(specAbort{})
				}
				return in.callBody(g, f, a)
			}
			i := in.strIndexByte(a[0], r, false)
			if !cont {
				return i, ctlDone
			}
			return in.notV(in.eqVal(types.Typ[types.Int], i, ^uint64(0))), ctlDone
		}
	}
	reg("strings.IndexRune", true, runeIdx(false))
	reg("strings.ContainsRune", true, runeIdx(true))
	count := func(in *Interp, s Value, c *Term) Value {
		res := in.tt.Const(0, 64)
		for _, t := range in.strTerms(s) {
			res = in.tt.Bin(opAdd, res, in.tt.Ite(in.tt.Eq(t, c), in.tt.Const(1, 64), in.tt.Const(0, 64)))
		}
		return in.norm(res)
	}
	reg("strings.Count", true, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		s, ok1 := a[0].(string)
		ch, ok2 := a[1].(string)
		if ok1 && ok2 {
			return sv(strings.Count(s, ch)), ctlDone
		}
		if strLen(a[1]) == 1 {
			return count(in, a[0], in.strAt(a[1], 0)), ctlDone
		}
		if in.noFork > 0 {
			panic(specAbort{})
		}
		return in.callBody(g, f, a)
	})
	reg("internal/bytealg.CountString", true, pure1(func(in *Interp, a []Value) Value { return count(in, a[0], in.intTerm(a[1], 8)) }))
	reg("internal/bytealg.Count", true, pure1(func(in *Interp, a []Value) Value {
		return count(in, in.strOfBytes(a[0].([]Value)), in.intTerm(a[1], 8))
	}))
	reg("internal/bytealg.Compare", true, pure1(func(in *Interp, a []Value) Value {
		x, y := in.strOfBytes(a[0].([]Value)), in.strOfBytes(a[1].([]Value))
		lt, gt := in.boolTerm(in.strLess(x, y)), in.boolTerm(in.strLess(y, x))
		return in.norm(in.tt.Ite(lt, in.tt.Const(^uint64(0), 64), in.tt.Ite(gt, in.tt.Const(1, 64), in.tt.Const(0, 64))))
	}))
	reg("internal/bytealg.CompareString", true, pure1(func(in *Interp, a []Value) Value {
		x, y := a[0], a[1]
		lt, gt := in.boolTerm(in.strLess(x, y)), in.boolTerm(in.strLess(y, x))
		return in.norm(in.tt.Ite(lt, in.tt.Const(^uint64(0), 64), in.tt.Ite(gt, in.tt.Const(1, 64), in.tt.Const(0, 64))))
	}))
	reg("internal/bytealg.MakeNoZero", false, pure1(func(in *Interp, a []Value) Value {
		s := make([]Value, in.concInt(a[0], types.Typ[types.Int]))
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}))
	reg("strings.ToLower", true, (*Interp)(nil).caseMap(false))
	reg("strings.ToUpper", true, (*Interp)(nil).caseMap(true))
	reg("strings.EqualFold", true, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		s, ok1 := a[0].(string)
		t, ok2 := a[1].(string)
		if ok1 && ok2 {
			return strings.EqualFold(s, t), ctlDone
		}
		both := in.tt.And(in.allASCII(a[0]), in.allASCII(a[1]))
		if !in.branch(in.normB(both)) {
			if in.noFork > 0 {
				panic(specAbort{})
			}
			return in.callBody(g, f, a)
		}
		if strLen(a[0]) != strLen(a[1]) {
			return false, ctlDone
		}
		r := in.tt.tru
		for i := 0; i < strLen(a[0]); i++ {
			r = in.tt.And(r, in.tt.Eq(in.lowerByte(in.strAt(a[0], i), false), in.lowerByte(in.strAt(a[1], i), false)))
		}
		return in.normB(r), ctlDone
	})
	reg("strings.TrimSpace", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s), ctlDone
		}
		if !in.branch(in.normB(in.allASCII(a[0]))) {
			return in.callBody(g, f, a)
		}
		n := strLen(a[0])
		lo, hi := 0, n
		const sp = " \t\n\v\f\r"
		for lo < hi && in.branch(in.normB(in.inSet(in.strAt(a[0], lo), sp))) {
			lo++
		}
		for hi > lo && in.branch(in.normB(in.inSet(in.strAt(a[0], hi-1), sp))) {
			hi--
		}
		return strSub(a[0], lo, hi), ctlDone
	})
	reg("strings.Join", false, pure1(func(in *Interp, a []Value) Value {
		var res Value = ""
		for i, e := range a[0].([]Value) {
			if i > 0 {
				res = in.strCat(res, a[1])
			}
			res = in.strCat(res, e)
		}
		return res
	}))
	reg("strings.Repeat", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		n := in.concInt(a[1], types.Typ[types.Int])
		if n < 0 {
			in.goPanicStr("strings: negative Repeat count")
		}
		var res Value = ""
		for i := int64(0); i < n; i++ {
			res = in.strCat(res, a[0])
		}
		return res, ctlDone
	})
	reg("internal/stringslite.Clone", true, pure1(func(in *Interp, a []Value) Value { return a[0] }))
	reg("strings.Clone", true, pure1(func(in *Interp, a []Value) Value { return a[0] }))

	// --- strconv (concrete only fast paths)
	reg("strconv.Itoa", false, pure1(func(in *Interp, a []Value) Value {
		return strconv.FormatInt(in.concInt(a[0], types.Typ[types.Int]), 10)
	}))
	reg("strconv.Quote", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.fmtStr(a[0], 'q'), ctlDone
	})

	// --- unsafe-ish
	ident := pure1(func(in *Interp, a []Value) Value { return a[0] })
	reg("internal/abi.NoEscape", true, ident)
	reg("internal/abi.Escape", true, ident)

	// --- errors, fmt
	reg("errors.New", false, pure1(func(in *Interp, a []Value) Value { return in.mkError(a[0]) }))
	reg("fmt.Errorf", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		msg := in.sprintf(a[0], variadic(a[1]))
		if fs, ok := a[0].(string); ok && strings.Contains(fs, "%w") {
			for _, e := range variadic(a[1]) {
				ifc := e.(Iface)
				if ifc.T != nil && in.P.implements(ifc.T, in.P.errIface) {
					if t := in.P.wrapErr; t != nil {
						p := new(Value)
						*p = StructV{msg, ifc}
						return Iface{types.NewPointer(t), p}, ctlDone
					}
				}
			}
		}
		return in.mkError(msg), ctlDone
	})
	reg("fmt.Sprintf", false, pure1(func(in *Interp, a []Value) Value { return in.sprintf(a[0], variadic(a[1])) }))
	reg("fmt.Sprint", false, pure1(func(in *Interp, a []Value) Value { return in.sprint(variadic(a[0]), false) }))
	reg("fmt.Sprintln", false, pure1(func(in *Interp, a []Value) Value { return in.sprint(variadic(a[0]), true) }))
	reg("fmt.Fprintf", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.writeTo(g, a[0], in.sprintf(a[1], variadic(a[2])))
	})
	reg("fmt.Fprint", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.writeTo(g, a[0], in.sprint(variadic(a[1]), false))
	})
	reg("fmt.Fprintln", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.writeTo(g, a[0], in.sprint(variadic(a[1]), true))
	})
	nilTuple := func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return TupleV{uint64(0), Iface{}}, ctlDone
	}
	reg("fmt.Printf", false, nilTuple)
	reg("fmt.Println", false, nilTuple)
	reg("fmt.Print", false, nilTuple)
	reg("fmt.Append", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.appendVals(a[0].([]Value), in.bytesOfStr(in.sprint(variadic(a[1]), false)), types.Typ[types.Byte]), ctlDone
	})
	reg("fmt.Appendf", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.appendVals(a[0].([]Value), in.bytesOfStr(in.sprintf(a[1], variadic(a[2]))), types.Typ[types.Byte]), ctlDone
	})
	reg("errors.Is", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.errorsIs(g, a[0].(Iface), a[1].(Iface)), ctlDone
	})
	reg("errors.As", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		tgt := a[1].(Iface)
		pt, ok := tgt.T.(*types.Pointer)
		if !ok {
			panic(unsupported("errors.As target"))
		}
		err := a[0].(Iface)
		for n := 0; err.T != nil && n < 20; n++ {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if in.P.implements(err.T, it) {
					storeInto(tgt.V.(*Value), err)
					return true, ctlDone
				}
			} else if types.Identical(err.T, pt.Elem()) {
				storeInto(tgt.V.(*Value), err.V)
				return true, ctlDone
			}
			err = in.unwrapErr(g, err)
		}
		return false, ctlDone
	})

	// --- sort
	reg("sort.Strings", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		s := a[0].([]Value)
		conc := true
		for _, x := range s {
			if _, ok := x.(string); !ok {
				conc = false
			}
		}
		if conc {
			sort.SliceStable(s, func(i, j int) bool { return s[i].(string) < s[j].(string) })
			return nil, ctlDone
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && in.branch(in.strLess(s[j], s[j-1])); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil, ctlDone
	})
	sortSlice := func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		s := a[0].(Iface).V.([]Value)
		less := a[1].(*Closure)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := in.callSync(g, less, []Value{uint64(j), uint64(j - 1)})
				if !in.branch(r) {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil, ctlDone
	}
	reg("sort.Slice", false, sortSlice)
	reg("sort.SliceStable", false, sortSlice)

	// --- sync
	reg("(*sync.Mutex).Lock", false, lockIntr)
	reg("(*sync.Mutex).Unlock", false, unlockIntr)
	reg("(*sync.Mutex).TryLock", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		m := in.mu(a[0].(*Value))
		if m.locked {
			return false, ctlDone
		}
		m.locked = true
		in.vcJoin(g, m.vc)
		return true, ctlDone
	})
	reg("(*sync.RWMutex).Lock", false, lockIntr)
	reg("(*sync.RWMutex).Unlock", false, unlockIntr)
	reg("(*sync.RWMutex).RLock", false, rlockIntr)
	reg("(*sync.RWMutex).RUnlock", false, runlockIntr)
	reg("(*sync.WaitGroup).Add", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		in.wgAdd(g, a[0].(*Value), in.concInt(a[1], types.Typ[types.Int]))
		return nil, ctlDone
	})
	reg("(*sync.WaitGroup).Done", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		in.wgAdd(g, a[0].(*Value), -1)
		return nil, ctlDone
	})
	reg("(*sync.WaitGroup).Wait", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		w := in.wg(a[0].(*Value))
		if w.n > 0 {
			w.q = append(w.q, g)
			g.why = "waitgroup"
			return nil, ctlBlock
		}
		in.vcJoin(g, w.vc)
		return nil, ctlDone
	})
	reg("(*sync.Once).Do", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		p := a[0].(*Value)
		if in.onces[p] {
			return nil, ctlDone
		}
		in.onces[p] = true
		return in.pushCall(g, nil, a[1].(*Closure), nil, -1, nil)
	})
	reg("(*sync.Pool).Get", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		st := (*(a[0].(*Value))).(StructV)
		nw := st[len(st)-1].(*Closure)
		if nw == nil {
			return Iface{}, ctlDone
		}
		return in.pushCall(g, nil, nw, nil, -1, nil)
	})
	reg("(*sync.Pool).Put", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) { return nil, ctlDone })
	for _, ty := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		reg("sync/atomic.Load"+ty, false, atomicLoad)
		reg("sync/atomic.Store"+ty, false, atomicStore)
		reg("sync/atomic.Swap"+ty, false, atomicSwap)
		reg("sync/atomic.Add"+ty, false, atomicAdd(w))
		reg("sync/atomic.CompareAndSwap"+ty, false, atomicCAS)
	}
	noop := func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.zeroResults(f), ctlDone
	}
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "(*internal/godebug.Setting).IncNonDefault",
		"(*internal/godebug.Setting).Value", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors", "internal/race.Read", "internal/race.Write", "internal/race.ReleaseMerge"} {
		reg(n, false, noop)
	}
	reg("internal/godebug.New", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		p := new(Value)
		*p = zeroValue(f.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return p, ctlDone
	})
	reg("runtime.Gosched", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) { return nil, ctlYield })
	reg("runtime.NumGoroutine", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		return in.numGor(), ctlDone
	})
	reg("unique.Make", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		k, ok := concKey(a[0])
		if !ok {
			panic(unsupported("unique.Make of symbolic value"))
		}
		key := fmt.Sprintf("%s/%v", f.String(), k)
		p := in.W.uniq[key]
		if p == nil {
			p = new(Value)
			*p = copyVal(a[0])
			in.W.uniq[key] = p
		}
		return StructV{p}, ctlDone
	})

	// --- net: host evaluation of pure functions on concrete arguments
	reg("net.ParseIP", false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		if s, ok := a[0].(string); ok {
			ip := net.ParseIP(s)
			if ip == nil {
				return []Value(nil), ctlDone
			}
			r := make([]Value, len(ip))
			for i := range ip {
				r[i] = uint64(ip[i])
			}
			return r, ctlDone
		}
		// an address with a zone is never accepted
		pct := in.tt.fls
		for _, t := range in.strTerms(a[0]) {
			pct = in.tt.Or(pct, in.tt.Eq(t, in.tt.Const('%', 8)))
		}
		if in.branch(in.normB(pct)) {
			return []Value(nil), ctlDone
		}
		return in.callBody(g, f, a)
	})

	registerVerif()
}

func (in *Interp) numGor() Value {
	n := 0
	for _, x := range in.gors {
		if x.st != gDead {
			n++
		}
	}
	return uint64(n)
}

func (in *Interp) unwrapErr(g *Gor, e Iface) Iface {
	m := in.methodByName(e.T, "Unwrap")
	if m == nil {
		return Iface{}
	}
	sig := m.Type().(*types.Signature)
	if sig.Results().Len() != 1 {
		return Iface{}
	}
	if _, ok := sig.Results().At(0).Type().Underlying().(*types.Interface); !ok {
		return Iface{}
	}
	f := in.P.lookupMethod(e.T, m)
	return in.callSync(g, &Closure{fn: f}, []Value{e.V}).(Iface)
}

func (in *Interp) errorsIs(g *Gor, err, tgt Iface) Value {
	for n := 0; n < 20; n++ {
		if err.T == nil || tgt.T == nil {
			return err.T == nil && tgt.T == nil
		}
		if types.Comparable(tgt.T) && types.Identical(err.T, tgt.T) {
			if in.branch(in.eqVal(err.T, err.V, tgt.V)) {
				return true
			}
		}
		if m := in.methodByName(err.T, "Is"); m != nil {
			f := in.P.lookupMethod(err.T, m)
			r := in.callSync(g, &Closure{fn: f}, []Value{err.V, tgt})
			if in.branch(r) {
				return true
			}
		}
		err = in.unwrapErr(g, err)
		if err.T == nil {
			return false
		}
	}
	return false
}
