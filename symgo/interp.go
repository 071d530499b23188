package main

// The symbolic interpreter proper: executes go/ssa code with explicit frames.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var solverGenMu sync.Mutex

// ---- compiled functions

type opd struct {
	kind uint8 // 0 slot, 1 constant, 2 global, 3 free variable, 4 aggregate constant
	n    int
	v    Value
	g    *ssa.Global
}

type Instr struct {
	i   ssa.Instruction
	dst int
	a   []opd
	cfn *ssa.Function // static callee
	in  intrinsic
	pur bool
}

type Block struct {
	idx    int
	ins    []Instr
	nphi   int
	succs  []int
	preds  []int
	region *Region // for blocks ending in If
	regOK  int8    // 0 unknown, 1 yes, 2 no
}

// Region is a side-effect free acyclic region hanging off an If.
type Region struct {
	order []int // topological order
	join  int   // -1: all leaves return
}

type Fn struct {
	f      *ssa.Function
	blocks []*Block
	nslots int
	slot   map[ssa.Value]int
	params []int
	pkg    string
	user   bool
	ipdom  []int
	hasDef bool
	mergeN int
}

type deferred struct {
	fn   *Closure
	args []Value
	ins  ssa.Instruction
}

type Frame struct {
	fn     *Fn
	regs   []Value
	env    []Value
	b      *Block
	pc     int
	prev   int
	dst    int
	defers []deferred
	// this frame is a deferred call run by the frame below
	isDefer bool
	// frame is unwinding a panic
	unwinding bool
	// this frame is the bottom of a callSync
	syncBase bool
	result   Value
	recRes   bool
}

type gStatus uint8

const (
	gRun gStatus = iota
	gBlocked
	gDead
)

type panicRec struct {
	val       Iface
	recovered bool
}

type Gor struct {
	id     int
	frames []*Frame
	st     gStatus
	why    string
	panics []*panicRec
	vc     []int64
	// delivery of a channel operation completed by the peer
	wake func()
	quie bool
	op   string
}

type goPanicErr struct{ val Iface }
type specAbort struct{}

type pathEnd struct {
	kind string // "unsupported", "assume", "budget", "done", "exit"
	msg  string
}

func unsupported(msg string) pathEnd { return pathEnd{"unsupported", msg} }

// ---- interpreter

type Interp struct {
	P    *Prog
	W    *Worker
	tt   *TermTable
	sol  *Solver
	fns  map[*ssa.Function]*Fn
	libs map[*ssa.Global]*Value // globals of library packages, per worker
	libI map[*ssa.Package]int8
	// per path
	globals  map[*ssa.Global]*Value
	gors     []*Gor
	cur      *Gor
	steps    int64
	path     *Path
	noFork   int
	noMerge  int
	mutexes  map[*Value]*mutexSt
	wgs      map[*Value]*wgSt
	onces    map[*Value]bool
	race     *raceSt
	inter    bool // explore schedules
	preempt  int
	mapOrd   bool
	trace    bool
	maxStep  int64
	initing  int
	yieldNow bool
}

func (in *Interp) info(f *ssa.Function) *Fn {
	if x, ok := in.fns[f]; ok {
		return x
	}
	// Build is a no-op once done, and waits for a build in another worker
	if p := f.Package(); p != nil {
		p.Build()
	}
	if o := f.Origin(); o != nil && o.Package() != nil {
		o.Package().Build()
	}
	if len(f.Blocks) == 0 {
		return nil
	}
	x := in.compile(f)
	in.fns[f] = x
	return x
}

func pkgPathOf(f *ssa.Function) string {
	if p := f.Package(); p != nil {
		return p.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Package() != nil {
		return o.Package().Pkg.Path()
	}
	if f.Parent() != nil {
		return pkgPathOf(f.Parent())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (in *Interp) compile(f *ssa.Function) *Fn {
	x := &Fn{f: f, slot: map[ssa.Value]int{}, pkg: pkgPathOf(f)}
	x.user = isUserPkg(x.pkg)
	ns := 0
	add := func(v ssa.Value) int {
		x.slot[v] = ns
		ns++
		return ns - 1
	}
	for _, p := range f.Params {
		x.params = append(x.params, add(p))
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				x.hasDef = true
			}
		}
	}
	fvidx := map[ssa.Value]int{}
	for i, fv := range f.FreeVars {
		fvidx[fv] = i
	}
	mkopd := func(v ssa.Value) opd {
		if v == nil {
			return opd{kind: 1}
		}
		switch c := v.(type) {
		case *ssa.Const:
			cv := constValue(c)
			switch cv.(type) {
			case StructV, ArrayV:
				return opd{kind: 4, v: cv}
			}
			return opd{kind: 1, v: cv}
		case *ssa.Global:
			return opd{kind: 2, g: c}
		case *ssa.Function:
			return opd{kind: 1, v: &Closure{fn: c}}
		case *ssa.Builtin:
			return opd{kind: 1, v: &Closure{builtin: c}}
		case *ssa.FreeVar:
			return opd{kind: 3, n: fvidx[v]}
		}
		s, ok := x.slot[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v, f))
		}
		return opd{kind: 0, n: s}
	}
	x.blocks = make([]*Block, len(f.Blocks))
	for bi, b := range f.Blocks {
		nb := &Block{idx: bi}
		x.blocks[bi] = nb
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, s.Index)
		}
		for _, s := range b.Preds {
			nb.preds = append(nb.preds, s.Index)
		}
		for _, i := range b.Instrs {
			ci := Instr{i: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = x.slot[v]
			}
			switch t := i.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range t.Edges {
					ci.a = append(ci.a, mkopd(e))
				}
				nb.nphi++
			default:
				var buf [10]*ssa.Value
				for _, p := range i.Operands(buf[:0]) {
					if *p == nil {
						ci.a = append(ci.a, opd{kind: 1})
						continue
					}
					ci.a = append(ci.a, mkopd(*p))
				}
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				if sf, ok := c.Common().Value.(*ssa.Function); ok {
					ci.cfn = sf
					ci.in, ci.pur = lookupIntrinsic(sf)
				}
			}
			nb.ins = append(nb.ins, ci)
		}
	}
	x.nslots = ns
	return x
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.TypeParam); ok {
			return Poison{"const of type parameter"}
		}
		return zeroValue(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Poison{"const of type " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, _, _ := basicInfo(t)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return f
	}
	return Poison{"const of type " + t.String()}
}

func (in *Interp) get(fr *Frame, o *opd) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.n]
	case 1:
		return o.v
	case 2:
		return in.globalAddr(o.g)
	case 3:
		return fr.env[o.n]
	default:
		return copyVal(o.v)
	}
}

func isUserPkg(path string) bool {
	return path == userMod || strings.HasPrefix(path, userMod+"/")
}

func (in *Interp) globalAddr(g *ssa.Global) *Value {
	if isUserPkg(g.Pkg.Pkg.Path()) {
		p := in.globals[g]
		if p == nil {
			p = new(Value)
			*p = zeroValue(g.Type().(*types.Pointer).Elem())
			in.globals[g] = p
		}
		return p
	}
	if in.libI[g.Pkg] == 0 {
		in.initLib(g.Pkg)
	}
	p := in.libs[g]
	if p == nil {
		p = new(Value)
		func() {
			defer func() {
				if r := recover(); r != nil {
					*p = Poison{"zero of " + g.String()}
				}
			}()
			*p = zeroValue(g.Type().(*types.Pointer).Elem())
		}()
		in.libs[g] = p
	}
	return p
}

// initLib runs a library package's initialiser; whatever is not supported
// becomes poison.
func (in *Interp) initLib(pkg *ssa.Package) {
	in.libI[pkg] = 1
	pkg.Build()
	f := pkg.Func("init")
	if f == nil {
		return
	}
	fn := in.info(f)
	if fn == nil {
		return
	}
	in.initing++
	saveNF, saveG := in.noFork, in.cur
	in.noFork = 1000
	defer func() { in.initing--; in.noFork = saveNF; in.cur = saveG }()
	g := &Gor{id: -1}
	in.cur = g
	fr := in.newFrame(fn, nil, nil)
	g.frames = append(g.frames, fr)
	// Straight-line walk over all blocks in order; control flow in package
	// initialisers is only the init guard.
	for _, b := range fn.blocks {
		for i := range b.ins {
			ins := &b.ins[i]
			switch t := ins.i.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				continue
			case *ssa.Call:
				if sf, ok := t.Call.Value.(*ssa.Function); ok && sf.Name() == "init" && sf.Package() != pkg {
					continue
				}
			case *ssa.Store:
				if gg, ok := t.Addr.(*ssa.Global); ok && gg.Name() == "init$guard" {
					continue
				}
			}
			in.tryInit(g, fr, b, i, ins)
		}
	}
	in.libI[pkg] = 2
}

func (in *Interp) tryInit(g *Gor, fr *Frame, b *Block, i int, ins *Instr) {
	nframes := len(g.frames)
	defer func() {
		if r := recover(); r != nil {
			g.frames = g.frames[:nframes]
			g.panics = nil
			if ins.dst >= 0 {
				fr.regs[ins.dst] = Poison{fmt.Sprintf("init of %s: %v", fr.fn.pkg, r)}
			}
			if st, ok := ins.i.(*ssa.Store); ok {
				if gg, ok := st.Addr.(*ssa.Global); ok {
					*in.globalAddr(gg) = Poison{fmt.Sprintf("init of %s: %v", gg, r)}
				}
			}
		}
	}()
	fr.b = b
	fr.pc = i
	if c, ok := ins.i.(*ssa.Call); ok {
		cl, args := in.callTarget(fr, ins, c.Common())
		fr.regs[ins.dst] = in.callSync(g, cl, args)
		return
	}
	in.exec(g, fr, ins)
}

func (in *Interp) newFrame(fn *Fn, args []Value, env []Value) *Frame {
	fr := &Frame{fn: fn, regs: make([]Value, fn.nslots), env: env, b: fn.blocks[0], dst: -1, prev: -1}
	for i, s := range fn.params {
		fr.regs[s] = args[i]
	}
	return fr
}

// goPanic raises a Go panic in the interpreted program.
func (in *Interp) goPanicStr(msg string) {
	in.goPanic(Iface{T: in.P.rtErr, V: msg})
}
func (in *Interp) goPanic(v Iface) {
	if in.noFork > 0 && in.initing == 0 {
		panic(specAbort{})
	}
	panic(goPanicErr{v})
}

// ---- calls

func (in *Interp) callTarget(fr *Frame, ins *Instr, cc *ssa.CallCommon) (*Closure, []Value) {
	a := ins.a
	if cc.IsInvoke() {
		recv := in.get(fr, &a[0])
		ifc, ok := recv.(Iface)
		if !ok {
			panic(unsupportedV("invoke", recv))
		}
		if ifc.T == nil {
			in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		f := in.P.lookupMethod(ifc.T, cc.Method)
		if f == nil {
			panic(unsupported(fmt.Sprintf("no method %s on %s", cc.Method.Name(), ifc.T)))
		}
		args := make([]Value, 0, len(a))
		args = append(args, ifc.V)
		for i := 1; i < len(a); i++ {
			args = append(args, in.get(fr, &a[i]))
		}
		return &Closure{fn: f}, args
	}
	args := make([]Value, 0, len(a)-1)
	for i := 1; i < len(a); i++ {
		args = append(args, in.get(fr, &a[i]))
	}
	fv := in.get(fr, &a[0])
	cl, ok := fv.(*Closure)
	if !ok {
		panic(unsupportedV("call", fv))
	}
	if cl == nil {
		in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	return cl, args
}

// pushCall starts a call; when the callee is an intrinsic or builtin the
// result is returned immediately with done=true.
func (in *Interp) pushCall(g *Gor, fr *Frame, cl *Closure, args []Value, dst int, cc *ssa.CallCommon) (res Value, ct ctl) {
	if cl.builtin != nil {
		return in.builtin(g, cl.builtin, args, cc), ctlDone
	}
	f := cl.fn
	if it, _ := lookupIntrinsic(f); it != nil {
		return it(in, g, args, f)
	}
	if f.Synthetic == "package initializer" && !isUserPkg(pkgPathOf(f)) {
		return nil, ctlDone // library packages are initialised on demand
	}
	fn := in.info(f)
	if fn == nil {
		panic(unsupported("no body: " + f.String()))
	}
	if len(g.frames) > 2000 {
		if in.initing == 0 && in.noFork == 0 {
			panic(pathEnd{"stack", "stack depth exceeded in " + f.String()})
		}
		panic(unsupported("stack depth"))
	}
	nf := in.newFrame(fn, args, cl.env)
	nf.dst = dst
	g.frames = append(g.frames, nf)
	if in.path != nil && fn.user {
		in.W.touch(f)
	}
	return nil, ctlPushed
}

type ctl uint8

const (
	ctlDone ctl = iota
	ctlBlock
	ctlPushed
	ctlJumped
	ctlYield
)

// callSync runs a call to completion on the current goroutine.
func (in *Interp) callSync(g *Gor, cl *Closure, args []Value) Value {
	if cl == nil {
		in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	base := len(g.frames)
	res, ct := in.pushCall(g, nil, cl, args, -1, nil)
	switch ct {
	case ctlDone:
		return res
	case ctlBlock:
		panic(unsupported("blocking call inside synchronous call"))
	}
	top := g.frames[base]
	top.syncBase = true
	in.noMerge++
	defer func() { in.noMerge-- }()
	for len(g.frames) > base {
		st := in.runSlice(g, base)
		if st == gBlocked {
			panic(unsupported("blocked inside synchronous call: " + g.why))
		}
	}
	return top.result
}

// runSlice executes g until it blocks, finishes or drops to depth base.
func (in *Interp) runSlice(g *Gor, base int) (st gStatus) {
	for {
		again := in.runInner(g, base, &st)
		if !again {
			return st
		}
	}
}

func (in *Interp) runInner(g *Gor, base int, st *gStatus) (again bool) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(goPanicErr); ok && in.initing == 0 {
				g.panics = append(g.panics, &panicRec{val: pe.val})
				in.startUnwind(g)
				again = true
				return
			}
			panic(r)
		}
	}()
	for {
		if len(g.frames) <= base {
			if base == 0 {
				g.st = gDead
			}
			*st = g.st
			return false
		}
		fr := g.frames[len(g.frames)-1]
		if fr.unwinding {
			if !in.unwindStep(g, fr) {
				*st = gBlocked
				return false
			}
			continue
		}
		ins := &fr.b.ins[fr.pc]
		in.steps++
		if in.steps > in.maxStep {
			panic(pathEnd{"budget", "instruction budget exceeded in " + fr.fn.f.String()})
		}
		switch in.exec(g, fr, ins) {
		case ctlDone:
			fr.pc++
		case ctlBlock:
			g.st = gBlocked
			*st = gBlocked
			return false
		case ctlPushed, ctlJumped:
		case ctlYield:
			fr.pc++
			*st = gRun
			if base == 0 {
				return false
			}
		}
	}
}

// ---- panics

func (in *Interp) startUnwind(g *Gor) {
	if len(g.frames) == 0 {
		return
	}
	g.frames[len(g.frames)-1].unwinding = true
}

// unwindStep performs one step of unwinding the top frame.
func (in *Interp) unwindStep(g *Gor, fr *Frame) bool {
	p := g.panics[len(g.panics)-1]
	if p.recovered {
		g.panics = g.panics[:len(g.panics)-1]
		fr.unwinding = false
		// run remaining defers, then return with the current results
		if len(fr.defers) > 0 {
			fr.recRes = true
		}
		if fr.fn.f.Recover != nil {
			nb := fr.fn.blocks[fr.fn.f.Recover.Index]
			fr.prev = -1
			fr.b = nb
			fr.pc = 0
			return true
		}
		in.doReturn(g, fr, in.zeroResults(fr.fn.f))
		return true
	}
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		in.startDefer(g, fr, d)
		return true
	}
	// pop the frame
	g.frames = g.frames[:len(g.frames)-1]
	if fr.syncBase {
		g.panics = g.panics[:len(g.panics)-1]
		panic(goPanicErr{p.val})
	}
	if fr.isDefer && len(g.frames) > 0 {
		// a panic inside a deferred call replaces the earlier one
		below := g.frames[len(g.frames)-1]
		if below.unwinding && len(g.panics) > 1 {
			g.panics = append(g.panics[:len(g.panics)-2], p)
		}
	}
	if len(g.frames) == 0 {
		panic(pathEnd{"panic", in.panicText(p.val)})
	}
	g.frames[len(g.frames)-1].unwinding = true
	return true
}

func (in *Interp) panicText(v Iface) string {
	if v.T == nil {
		return "panic(nil)"
	}
	if v.T == in.P.rtErr {
		return v.V.(string)
	}
	s := func() (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("%s value", v.T)
			}
		}()
		return fmt.Sprint(in.renderConc(in.fmtValue(v, 'v', "")))
	}()
	return s
}

func (in *Interp) zeroResults(f *ssa.Function) Value {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zeroValue(r.At(0).Type())
	}
	return zeroValue(r)
}

func (in *Interp) startDefer(g *Gor, fr *Frame, d deferred) {
	n := len(g.frames)
	var cc *ssa.CallCommon
	if x, ok := d.ins.(*ssa.Defer); ok {
		cc = x.Common()
	}
	if d.fn == nil {
		in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	_, ct := in.pushCall(g, fr, d.fn, d.args, -1, cc)
	switch ct {
	case ctlPushed:
		g.frames[n].isDefer = true
	case ctlBlock:
		panic(unsupported("blocking deferred intrinsic"))
	}
}

func (in *Interp) doReturn(g *Gor, fr *Frame, v Value) {
	g.frames = g.frames[:len(g.frames)-1]
	fr.result = v
	if fr.syncBase || len(g.frames) == 0 || fr.isDefer {
		return
	}
	below := g.frames[len(g.frames)-1]
	if fr.dst >= 0 {
		below.regs[fr.dst] = v
	}
	below.pc++
}

func (in *Interp) jump(fr *Frame, to int) {
	nb := fr.fn.blocks[to]
	from := fr.b.idx
	in.enterBlock(fr, nb, from)
}

func (in *Interp) enterBlock(fr *Frame, nb *Block, from int) {
	if nb.nphi > 0 {
		ei := -1
		for i, p := range nb.preds {
			if p == from {
				ei = i
				break
			}
		}
		var tmp [8]Value
		vals := tmp[:0]
		for k := 0; k < nb.nphi; k++ {
			vals = append(vals, in.get(fr, &nb.ins[k].a[ei]))
		}
		for k := 0; k < nb.nphi; k++ {
			fr.regs[nb.ins[k].dst] = vals[k]
		}
	}
	fr.prev = from
	fr.b = nb
	fr.pc = nb.nphi
}

// ---- instruction execution

func (in *Interp) exec(g *Gor, fr *Frame, ins *Instr) ctl {
	switch t := ins.i.(type) {
	case *ssa.BinOp:
		fr.regs[ins.dst] = in.binop(t.Op, t.X.Type(), t.Y.Type(), in.get(fr, &ins.a[0]), in.get(fr, &ins.a[1]))
	case *ssa.UnOp:
		x := in.get(fr, &ins.a[0])
		switch t.Op {
		case token.MUL:
			p, ok := x.(*Value)
			if !ok {
				panic(unsupportedV("load", x))
			}
			if p == nil {
				in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			if in.race != nil && in.noFork == 0 {
				in.access(g, fr, p, false, t.Pos())
			}
			v := *p
			if po, ok := v.(Poison); ok {
				panic(unsupported("use of " + po.why))
			}
			fr.regs[ins.dst] = copyVal(v)
		case token.ARROW:
			return in.recvOp(g, fr, ins, t, x)
		default:
			fr.regs[ins.dst] = in.unop(t.Op, t.X.Type(), x)
		}
	case *ssa.Call:
		if ins.in != nil {
			args := make([]Value, 0, len(ins.a)-1)
			for i := 1; i < len(ins.a); i++ {
				args = append(args, in.get(fr, &ins.a[i]))
			}
			n := len(g.frames)
			v, ct := ins.in(in, g, args, ins.cfn)
			switch ct {
			case ctlDone, ctlYield:
				fr.regs[ins.dst] = v
			case ctlPushed:
				g.frames[n].dst = ins.dst
			}
			return ct
		}
		cl, args := in.callTarget(fr, ins, t.Common())
		v, ct := in.pushCall(g, fr, cl, args, ins.dst, t.Common())
		if ct == ctlDone || ct == ctlYield {
			fr.regs[ins.dst] = v
		}
		return ct
	case *ssa.If:
		c := in.get(fr, &ins.a[0])
		switch b := c.(type) {
		case bool:
			if b {
				in.jump(fr, fr.b.succs[0])
			} else {
				in.jump(fr, fr.b.succs[1])
			}
			return ctlJumped
		case *Term:
			if in.noFork == 0 && in.merge(g, fr, b) {
				return ctlJumped
			}
			if in.branch(b) {
				in.jump(fr, fr.b.succs[0])
			} else {
				in.jump(fr, fr.b.succs[1])
			}
			return ctlJumped
		default:
			panic(unsupportedV("if", c))
		}
	case *ssa.Jump:
		in.jump(fr, fr.b.succs[0])
		return ctlJumped
	case *ssa.Return:
		var v Value
		switch len(ins.a) {
		case 0:
		case 1:
			v = in.get(fr, &ins.a[0])
		default:
			tv := make(TupleV, len(ins.a))
			for i := range ins.a {
				tv[i] = in.get(fr, &ins.a[i])
			}
			v = tv
		}
		in.doReturn(g, fr, v)
		return ctlJumped
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			in.startDefer(g, fr, d)
			return ctlJumped // re-executed when the deferred call returns
		}
	case *ssa.Panic:
		v := in.get(fr, &ins.a[0]).(Iface)
		in.goPanic(v)
	case *ssa.Go:
		cl, args := in.callTarget(fr, ins, t.Common())
		in.spawn(g, cl, args)
	case *ssa.Defer:
		cl, args := in.callTarget(fr, ins, t.Common())
		fr.defers = append(fr.defers, deferred{cl, args, t})
	case *ssa.Store:
		x := in.get(fr, &ins.a[0])
		p, ok := x.(*Value)
		if !ok {
			panic(unsupportedV("store", x))
		}
		if p == nil {
			in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		if in.race != nil {
			in.access(g, fr, p, true, t.Pos())
		}
		storeInto(p, in.get(fr, &ins.a[1]))
	case *ssa.Alloc:
		p := new(Value)
		*p = zeroValue(t.Type().(*types.Pointer).Elem())
		fr.regs[ins.dst] = p
	case *ssa.FieldAddr:
		x := in.get(fr, &ins.a[0])
		p, ok := x.(*Value)
		if !ok {
			panic(unsupportedV("fieldaddr", x))
		}
		if p == nil {
			in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(StructV)
		if !ok {
			panic(unsupportedV("fieldaddr", *p))
		}
		fr.regs[ins.dst] = &s[t.Field]
	case *ssa.Field:
		x := in.get(fr, &ins.a[0])
		s, ok := x.(StructV)
		if !ok {
			panic(unsupportedV("field", x))
		}
		fr.regs[ins.dst] = s[t.Field]
	case *ssa.IndexAddr:
		fr.regs[ins.dst] = in.indexAddr(in.get(fr, &ins.a[0]), in.get(fr, &ins.a[1]), t)
	case *ssa.Index:
		x, i := in.get(fr, &ins.a[0]), in.get(fr, &ins.a[1])
		fr.regs[ins.dst] = in.indexVal(x, i, t.X.Type(), t.Index.Type())
	case *ssa.Lookup:
		x, i := in.get(fr, &ins.a[0]), in.get(fr, &ins.a[1])
		if mt, ok := t.X.Type().Underlying().(*types.Map); ok {
			m, ok := x.(*MapV)
			if !ok {
				panic(unsupportedV("lookup", x))
			}
			if in.race != nil && m != nil && in.noFork == 0 {
				in.access(g, fr, &m.cell, false, t.Pos())
			}
			v, okv := in.mapLookup(m, i, mt.Elem())
			v = copyVal(v)
			if t.CommaOk {
				fr.regs[ins.dst] = TupleV{v, okv}
			} else {
				fr.regs[ins.dst] = v
			}
		} else {
			fr.regs[ins.dst] = in.indexVal(x, i, t.X.Type(), t.Index.Type())
		}
	case *ssa.Slice:
		fr.regs[ins.dst] = in.sliceOp(fr, ins, t)
	case *ssa.Extract:
		x := in.get(fr, &ins.a[0])
		tv, ok := x.(TupleV)
		if !ok {
			panic(unsupportedV("extract", x))
		}
		fr.regs[ins.dst] = tv[t.Index]
	case *ssa.Convert:
		fr.regs[ins.dst] = in.convert(in.get(fr, &ins.a[0]), t.X.Type(), t.Type())
	case *ssa.ChangeType:
		fr.regs[ins.dst] = in.get(fr, &ins.a[0])
	case *ssa.ChangeInterface:
		fr.regs[ins.dst] = in.get(fr, &ins.a[0])
	case *ssa.MakeInterface:
		v := in.get(fr, &ins.a[0])
		fr.regs[ins.dst] = Iface{t.X.Type(), v}
	case *ssa.TypeAssert:
		fr.regs[ins.dst] = in.typeAssert(in.get(fr, &ins.a[0]), t)
	case *ssa.MakeClosure:
		env := make([]Value, len(ins.a)-1)
		for i := range env {
			env[i] = in.get(fr, &ins.a[i+1])
		}
		fr.regs[ins.dst] = &Closure{fn: t.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		fr.regs[ins.dst] = newMap(t.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		n := in.concInt(in.get(fr, &ins.a[0]), t.Len.Type())
		c := in.concInt(in.get(fr, &ins.a[1]), t.Cap.Type())
		if n < 0 || n > 1<<24 {
			in.goPanicStr("runtime error: makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			in.goPanicStr("runtime error: makeslice: cap out of range")
		}
		et := t.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, c)
		fillZero(s, et)
		fr.regs[ins.dst] = s[:n]
	case *ssa.MakeChan:
		n := in.concInt(in.get(fr, &ins.a[0]), t.Size.Type())
		fr.regs[ins.dst] = newChan(int(n), t.Type().Underlying().(*types.Chan).Elem())
	case *ssa.MapUpdate:
		x := in.get(fr, &ins.a[0])
		m, ok := x.(*MapV)
		if !ok {
			panic(unsupportedV("mapupdate", x))
		}
		if in.race != nil && m != nil {
			in.access(g, fr, &m.cell, true, t.Pos())
		}
		in.mapSet(m, in.get(fr, &ins.a[1]), copyVal(in.get(fr, &ins.a[2])))
	case *ssa.Range:
		x := in.get(fr, &ins.a[0])
		switch y := x.(type) {
		case *MapV:
			if in.race != nil && y != nil {
				in.access(g, fr, &y.cell, false, t.Pos())
			}
			it := &mapIter{m: y}
			if y != nil {
				for i := range y.ents {
					if !y.ents[i].dead {
						it.keys = append(it.keys, i)
					}
				}
				if in.mapOrd && len(it.keys) > 1 && fr.fn.user {
					it.keys = in.permute(it.keys)
				}
			}
			fr.regs[ins.dst] = it
		case string, *SymStr:
			fr.regs[ins.dst] = &strIter{s: y}
		default:
			panic(unsupportedV("range", x))
		}
	case *ssa.Next:
		fr.regs[ins.dst] = in.next(in.get(fr, &ins.a[0]), t)
	case *ssa.Send:
		return in.sendOp(g, fr, ins, t)
	case *ssa.Select:
		return in.selectOp(g, fr, ins, t)
	case *ssa.Phi:
		panic("phi executed out of place")
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &ins.a[0]).([]Value)
		n := int(t.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.goPanicStr("runtime error: cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = ArrayV(s[:n:n])
		fr.regs[ins.dst] = p
	case *ssa.MultiConvert:
		fr.regs[ins.dst] = in.convert(in.get(fr, &ins.a[0]), t.X.Type(), t.Type())
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins.i)))
	}
	return ctlDone
}

func fillZero(s []Value, et types.Type) {
	if len(s) == 0 {
		return
	}
	z := zeroValue(et)
	switch z.(type) {
	case StructV, ArrayV:
		for i := range s {
			s[i] = copyVal(z)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

func (in *Interp) permute(keys []int) []int {
	// all orders for up to 3 entries, otherwise rotations and reversal
	out := make([]int, 0, len(keys))
	rest := append([]int(nil), keys...)
	if len(rest) <= 3 {
		for len(rest) > 1 {
			k := in.choose(len(rest), "maporder")
			out = append(out, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
		}
		return append(out, rest...)
	}
	k := in.choose(2, "maporder")
	if k == 1 {
		for i := len(rest) - 1; i >= 0; i-- {
			out = append(out, rest[i])
		}
		return out
	}
	return rest
}

func (in *Interp) boundsFail(i, n int64) {
	in.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
}

// checkIndex makes sure idx is in [0,n). The result is either a concrete
// index or a symbolic term.
func (in *Interp) checkIndex(idx Value, it types.Type, n int) (int, *Term) {
	w, signed, ok := basicInfo(it)
	if !ok {
		panic(unsupported("index type"))
	}
	switch x := idx.(type) {
	case uint64:
		var i int64
		if signed {
			i = sext(x, w)
		} else {
			i = int64(x)
		}
		if i < 0 || i >= int64(n) {
			in.boundsFail(i, int64(n))
		}
		return int(i), nil
	case *Term:
		var cond *Term
		if w < 64 && uint64(n) > mask(w) {
			cond = in.tt.tru
			if signed {
				cond = in.tt.Cmp(opSle, in.tt.Const(0, w), x)
			}
		} else {
			cond = in.tt.Cmp(opUlt, x, in.tt.Const(uint64(n), w))
			if signed && w < 64 {
				cond = in.tt.And(cond, in.tt.Cmp(opSle, in.tt.Const(0, w), x))
			}
		}
		if !in.branch(in.normB(cond)) {
			in.goPanicStr(fmt.Sprintf("runtime error: index out of range (symbolic) with length %d", n))
		}
		if n == 1 {
			return 0, nil
		}
		return -1, x
	}
	panic(unsupportedV("index", idx))
}

// concretise a symbolic index known to be within [0,n)
func (in *Interp) concIndex(t *Term) int {
	return int(in.concretize(t))
}

func (in *Interp) indexAddr(x, idx Value, t *ssa.IndexAddr) Value {
	var s []Value
	switch y := x.(type) {
	case []Value:
		s = y
	case *Value:
		if y == nil {
			in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a, ok := (*y).(ArrayV)
		if !ok {
			panic(unsupportedV("indexaddr", *y))
		}
		s = a
	default:
		panic(unsupportedV("indexaddr", x))
	}
	i, sym := in.checkIndex(idx, t.Index.Type(), len(s))
	if sym != nil {
		// table lookup: if the address is only loaded and elements are scalars, build one term
		if refs := t.Referrers(); refs != nil && len(s) <= 512 {
			only := true
			for _, r := range *refs {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					if _, ok := r.(*ssa.DebugRef); !ok {
						only = false
					}
				}
			}
			if only && len(s) > 0 {
				et := t.Type().Underlying().(*types.Pointer).Elem()
				if v, ok := in.tableTerm(s, sym, et); ok {
					p := new(Value)
					*p = v
					return p
				}
			}
		}
		i = in.concIndex(sym)
	}
	return &s[i]
}

func (in *Interp) tableTerm(s []Value, sym *Term, et types.Type) (Value, bool) {
	for _, v := range s {
		if !isScalar(v) {
			return nil, false
		}
	}
	// group equal values to keep the chain short
	var res Value = s[len(s)-1]
	for i := len(s) - 2; i >= 0; i-- {
		eq := in.tt.Eq(sym, in.tt.Const(uint64(i), sym.w))
		res = in.iteScalar(eq, s[i], res, et)
	}
	return res, true
}

func (in *Interp) indexVal(x, idx Value, xt, it types.Type) Value {
	switch y := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		i, sym := in.checkIndex(idx, it, n)
		if sym == nil {
			return in.strAtV(x, i)
		}
		res := in.strAt(x, n-1)
		for i := n - 2; i >= 0; i-- {
			res = in.tt.Ite(in.tt.Eq(sym, in.tt.Const(uint64(i), sym.w)), in.strAt(x, i), res)
		}
		return in.norm(res)
	case ArrayV:
		i, sym := in.checkIndex(idx, it, len(y))
		if sym != nil {
			et := xt.Underlying().(*types.Array).Elem()
			if v, ok := in.tableTerm(y, sym, et); ok {
				return v
			}
			i = in.concIndex(sym)
		}
		return y[i]
	}
	panic(unsupportedV("index", x))
}

func (in *Interp) concInt(v Value, t types.Type) int64 {
	w, signed, ok := basicInfo(t)
	if !ok {
		panic(unsupported("concInt type"))
	}
	switch x := v.(type) {
	case uint64:
		if signed {
			return sext(x, w)
		}
		return int64(x)
	case *Term:
		u := in.concretize(x)
		if signed {
			return sext(u, w)
		}
		return int64(u)
	case nil:
		return 0
	}
	panic(unsupportedV("concInt", v))
}

func (in *Interp) sliceOp(fr *Frame, ins *Instr, t *ssa.Slice) Value {
	x := in.get(fr, &ins.a[0])
	k := 1
	bound := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		o := &ins.a[k]
		val := in.get(fr, o)
		if tm, ok := val.(*Term); ok {
			val = in.concretize(tm)
		}
		return int(in.concInt(val, v.Type()))
	}
	// operands: X, Low, High, Max (nil ones included by Operands)
	switch y := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		lo := bound(t.Low, 0)
		k++
		hi := bound(t.High, n)
		if hi < 0 || hi > n {
			in.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			in.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSub(x, lo, hi)
	case []Value:
		return in.sliceSl(y, t, bound, &k)
	case *Value:
		if y == nil {
			in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a, ok := (*y).(ArrayV)
		if !ok {
			panic(unsupportedV("slice", *y))
		}
		return in.sliceSl([]Value(a), t, bound, &k)
	}
	panic(unsupportedV("slice", x))
}

func (in *Interp) sliceSl(s []Value, t *ssa.Slice, bound func(ssa.Value, int) int, k *int) Value {
	lo := bound(t.Low, 0)
	*k++
	hi := bound(t.High, len(s))
	*k++
	max := bound(t.Max, cap(s))
	if max < 0 || max > cap(s) {
		in.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", max, cap(s)))
	}
	if hi < 0 || hi > max {
		in.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", hi, cap(s)))
	}
	if lo < 0 || lo > hi {
		in.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
	}
	return s[lo:hi:max]
}

func (in *Interp) typeAssert(x Value, t *ssa.TypeAssert) Value {
	ifc, ok := x.(Iface)
	if !ok {
		panic(unsupportedV("typeassert", x))
	}
	good := false
	var v Value
	if ifc.T != nil {
		if it, isI := t.AssertedType.Underlying().(*types.Interface); isI {
			if in.P.implements(ifc.T, it) {
				good = true
				v = ifc
			}
		} else if types.Identical(ifc.T, t.AssertedType) {
			good = true
			v = ifc.V
		}
	}
	if t.CommaOk {
		if !good {
			v = zeroValue(t.AssertedType)
		}
		return TupleV{v, good}
	}
	if !good {
		in.goPanicStr("interface conversion: wrong type")
	}
	return v
}

func (in *Interp) next(x Value, t *ssa.Next) Value {
	switch it := x.(type) {
	case *mapIter:
		tup := t.Type().(*types.Tuple)
		for it.pos < len(it.keys) {
			e := &it.m.ents[it.keys[it.pos]]
			it.pos++
			if e.dead {
				continue
			}
			return TupleV{true, e.k, copyVal(e.v)}
		}
		zk, zv := Value(nil), Value(nil)
		if !isInvalid(tup.At(1).Type()) {
			zk = zeroValue(tup.At(1).Type())
		}
		if !isInvalid(tup.At(2).Type()) {
			zv = zeroValue(tup.At(2).Type())
		}
		return TupleV{false, zk, zv}
	case *strIter:
		if it.pos >= strLen(it.s) {
			return TupleV{false, uint64(0), uint64(0)}
		}
		r, n := in.decodeRune(it.s, it.pos)
		p := it.pos
		it.pos += n
		return TupleV{true, uint64(p), r}
	}
	panic(unsupportedV("next", x))
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

// ---- arithmetic

func (in *Interp) binop(op token.Token, t, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return in.eqVal(t, x, y)
	case token.NEQ:
		return in.notV(in.eqVal(t, x, y))
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("binop on " + t.String()))
	}
	switch {
	case b.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return in.strCat(x, y)
		case token.LSS:
			return in.strLess(x, y)
		case token.GTR:
			return in.strLess(y, x)
		case token.LEQ:
			return in.notV(in.strLess(y, x))
		case token.GEQ:
			return in.notV(in.strLess(x, y))
		}
	case b.Info()&types.IsInteger != 0:
		return in.intop(op, t, yt, x, y)
	case b.Info()&types.IsFloat != 0:
		fx, ok1 := x.(float64)
		fy, ok2 := y.(float64)
		if !ok1 || !ok2 {
			panic(unsupported("symbolic float"))
		}
		switch op {
		case token.ADD:
			return fx + fy
		case token.SUB:
			return fx - fy
		case token.MUL:
			return fx * fy
		case token.QUO:
			return fx / fy
		case token.LSS:
			return fx < fy
		case token.LEQ:
			return fx <= fy
		case token.GTR:
			return fx > fy
		case token.GEQ:
			return fx >= fy
		}
	case b.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND, token.LAND:
			return in.andV(x, y)
		case token.OR, token.LOR:
			return in.notV(in.andV(in.notV(x), in.notV(y)))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %s", op, t)))
}

func (in *Interp) intop(op token.Token, t, yt types.Type, x, y Value) Value {
	w, signed, _ := basicInfo(t)
	// shifts: the right operand may have another width
	if op == token.SHL || op == token.SHR {
		yw, ysig, _ := basicInfo(yt)
		cy, yc := y.(uint64)
		if yc {
			if ysig && sext(cy, yw) < 0 {
				in.goPanicStr("runtime error: negative shift amount")
			}
			if cx, ok := x.(uint64); ok {
				var k Op
				switch {
				case op == token.SHL:
					k = opShl
				case signed:
					k = opAShr
				default:
					k = opLShr
				}
				return evalBin(k, cx, cy, w)
			}
			if cy >= uint64(w) {
				cy = uint64(w)
				if op == token.SHL || !signed {
					return uint64(0)
				}
				cy = uint64(w) - 1
			}
			y = cy
		} else {
			yt2 := y.(*Term)
			if ysig {
				if in.branch(in.normB(in.tt.Cmp(opSlt, yt2, in.tt.Const(0, yw)))) {
					in.goPanicStr("runtime error: negative shift amount")
				}
			}
			if yw > w {
				big := in.tt.Cmp(opUle, in.tt.Const(uint64(w), yw), yt2)
				lo := in.tt.Resize(yt2, w, false)
				y = in.norm(in.tt.Ite(big, in.tt.Const(mask(w), w), lo))
			} else {
				y = in.norm(in.tt.Resize(yt2, w, false))
			}
		}
		k := opLShr
		if op == token.SHL {
			k = opShl
		} else if signed {
			k = opAShr
		}
		return in.norm(in.tt.Bin(k, in.intTerm(x, w), in.intTerm(y, w)))
	}
	cx, xc := x.(uint64)
	cy, yc := y.(uint64)
	if xc && yc {
		switch op {
		case token.ADD:
			return (cx + cy) & mask(w)
		case token.SUB:
			return (cx - cy) & mask(w)
		case token.MUL:
			return (cx * cy) & mask(w)
		case token.QUO, token.REM:
			if cy == 0 {
				in.goPanicStr("runtime error: integer divide by zero")
			}
			var k Op
			switch {
			case op == token.QUO && signed:
				k = opSDiv
			case op == token.QUO:
				k = opUDiv
			case signed:
				k = opSRem
			default:
				k = opURem
			}
			return evalBin(k, cx, cy, w)
		case token.AND:
			return cx & cy
		case token.OR:
			return cx | cy
		case token.XOR:
			return cx ^ cy
		case token.AND_NOT:
			return cx &^ cy
		case token.LSS:
			if signed {
				return sext(cx, w) < sext(cy, w)
			}
			return cx < cy
		case token.LEQ:
			if signed {
				return sext(cx, w) <= sext(cy, w)
			}
			return cx <= cy
		case token.GTR:
			if signed {
				return sext(cx, w) > sext(cy, w)
			}
			return cx > cy
		case token.GEQ:
			if signed {
				return sext(cx, w) >= sext(cy, w)
			}
			return cx >= cy
		}
	}
	tx, ty := in.intTerm(x, w), in.intTerm(y, w)
	lt, le := opUlt, opUle
	if signed {
		lt, le = opSlt, opSle
	}
	switch op {
	case token.ADD:
		return in.norm(in.tt.Bin(opAdd, tx, ty))
	case token.SUB:
		return in.norm(in.tt.Bin(opSub, tx, ty))
	case token.MUL:
		return in.norm(in.tt.Bin(opMul, tx, ty))
	case token.QUO, token.REM:
		if in.branch(in.normB(in.tt.Eq(ty, in.tt.Const(0, w)))) {
			in.goPanicStr("runtime error: integer divide by zero")
		}
		var k Op
		switch {
		case op == token.QUO && signed:
			k = opSDiv
		case op == token.QUO:
			k = opUDiv
		case signed:
			k = opSRem
		default:
			k = opURem
		}
		return in.norm(in.tt.Bin(k, tx, ty))
	case token.AND:
		return in.norm(in.tt.Bin(opBAnd, tx, ty))
	case token.OR:
		return in.norm(in.tt.Bin(opBOr, tx, ty))
	case token.XOR:
		return in.norm(in.tt.Bin(opBXor, tx, ty))
	case token.AND_NOT:
		return in.norm(in.tt.Bin(opBAnd, tx, in.tt.Un(opBNot, ty)))
	case token.LSS:
		return in.normB(in.tt.Cmp(lt, tx, ty))
	case token.LEQ:
		return in.normB(in.tt.Cmp(le, tx, ty))
	case token.GTR:
		return in.normB(in.tt.Cmp(lt, ty, tx))
	case token.GEQ:
		return in.normB(in.tt.Cmp(le, ty, tx))
	}
	panic(unsupported("intop " + op.String()))
}

func (in *Interp) unop(op token.Token, t types.Type, x Value) Value {
	switch op {
	case token.NOT:
		return in.notV(x)
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		w, _, _ := basicInfo(t)
		if c, ok := x.(uint64); ok {
			return -c & mask(w)
		}
		return in.norm(in.tt.Un(opNeg, in.intTerm(x, w)))
	case token.XOR:
		w, _, _ := basicInfo(t)
		if c, ok := x.(uint64); ok {
			return ^c & mask(w)
		}
		return in.norm(in.tt.Un(opBNot, in.intTerm(x, w)))
	}
	panic(unsupported("unop " + op.String()))
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if p, ok := v.(Poison); ok {
		panic(unsupported("use of " + p.why))
	}
	if fb, ok := uf.(*types.Basic); ok {
		if tb, ok := ut.(*types.Basic); ok {
			switch {
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				fw, fs, _ := basicInfo(from)
				tw, _, _ := basicInfo(to)
				switch x := v.(type) {
				case uint64:
					if fs {
						return uint64(sext(x, fw)) & mask(tw)
					}
					return x & mask(tw)
				case *Term:
					return in.norm(in.tt.Resize(x, tw, fs))
				}
				panic(unsupportedV("convert", v))
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
				fw, fs, _ := basicInfo(from)
				u, ok := v.(uint64)
				if !ok {
					u = in.concretize(v.(*Term))
				}
				if fs {
					return float64(sext(u, fw))
				}
				return float64(u)
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
				tw, ts, _ := basicInfo(to)
				f := v.(float64)
				if ts {
					return uint64(int64(f)) & mask(tw)
				}
				return uint64(f) & mask(tw)
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
				if tb.Kind() == types.Float32 {
					return float64(float32(v.(float64)))
				}
				return v
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				return in.runeToStr(v, from)
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return v
			case fb.Kind() == types.UnsafePointer && tb.Kind() == types.UnsafePointer:
				return v
			case fb.Info()&types.IsBoolean != 0:
				return v
			case fb.Kind() == types.UnsafePointer && tb.Kind() == types.Uintptr:
				panic(unsupported("pointer to uintptr"))
			}
		}
		if fb.Info()&types.IsString != 0 {
			if st, ok := ut.(*types.Slice); ok {
				ek := st.Elem().Underlying().(*types.Basic).Kind()
				if ek == types.Byte || ek == types.Uint8 {
					return in.roundCap(in.bytesOfStr(v), 1)
				}
				// []rune
				var rs []Value
				for p := 0; p < strLen(v); {
					r, n := in.decodeRune(v, p)
					rs = append(rs, r)
					p += n
				}
				return rs
			}
		}
		if fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if st, ok := uf.(*types.Slice); ok {
		if tb, ok := ut.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			s := v.([]Value)
			ek := st.Elem().Underlying().(*types.Basic).Kind()
			if ek == types.Byte || ek == types.Uint8 {
				return in.strOfBytes(s)
			}
			var res Value = ""
			for _, r := range s {
				res = in.strCat(res, in.runeToStr(r, st.Elem()))
			}
			return res
		}
		if _, ok := ut.(*types.Slice); ok {
			return v
		}
		if at, ok := ut.(*types.Array); ok {
			s := v.([]Value)
			if int64(len(s)) < at.Len() {
				in.goPanicStr("runtime error: cannot convert slice to array")
			}
			return copyVal(ArrayV(s[:at.Len()]))
		}
	}
	if _, ok := uf.(*types.Pointer); ok {
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

// roundCap gives a fresh slice the capacity Go would (size classes).
func (in *Interp) roundCap(s []Value, esz int64) []Value {
	return s[:len(s):len(s)]
}

func (in *Interp) runeToStr(v Value, from types.Type) Value {
	w, signed, _ := basicInfo(from)
	switch x := v.(type) {
	case uint64:
		if signed {
			return string(rune(sext(x, w)))
		}
		if x > 0x10ffff {
			return "\uFFFD"
		}
		return string(rune(x))
	case *Term:
		if w == 8 {
			if in.branch(in.normB(in.tt.Cmp(opUlt, x, in.tt.Const(0x80, 8)))) {
				return mkStr([]*Term{x})
			}
		} else if in.branch(in.normB(in.tt.Cmp(opUlt, x, in.tt.Const(0x80, w)))) {
			return mkStr([]*Term{in.tt.Resize(x, 8, false)})
		}
		u := in.concretize(x)
		return in.runeToStr(u, from)
	}
	panic(unsupportedV("runeToStr", v))
}

// decodeRune decodes the rune at position p (p < len).
func (in *Interp) decodeRune(s Value, p int) (Value, int) {
	if c, ok := s.(string); ok {
		for i, r := range c[p:] {
			_ = i
			n := len(string(r))
			if r == 0xFFFD {
				if strings.HasPrefix(c[p:], "\uFFFD") {
					return uint64(uint32(r)), 3
				}
				return uint64(uint32(r)), 1
			}
			return uint64(uint32(r)), n
		}
	}
	b0 := in.strAt(s, p)
	if in.branch(in.normB(in.tt.Cmp(opUlt, b0, in.tt.Const(0x80, 8)))) {
		return in.norm(in.tt.Resize(b0, 32, false)), 1
	}
	// multi-byte: concretise up to four bytes
	var buf []byte
	for i := p; i < strLen(s) && len(buf) < 4; i++ {
		t := in.strAt(s, i)
		var v uint64
		if t.isConst() {
			v = t.k
		} else {
			v = in.concretize(t)
		}
		buf = append(buf, byte(v))
		if len(buf) == 1 && (v < 0xC2 || v > 0xF4) {
			break
		}
		if len(buf) > 1 && v&0xC0 != 0x80 {
			break
		}
	}
	return in.decodeRune(string(buf), 0)
}
