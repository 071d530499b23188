package main

// Goroutines, channels, mutexes, scheduling, race detection.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type waiter struct {
	g    *Gor
	val  Value // for senders
	done func(v Value, ok bool)
	off  *bool // shared by all cases of one select: already fired
}

type Chan struct {
	cap    int
	buf    []Value
	bufVC  [][]int64
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	et     types.Type
	vc     []int64
}

func newChan(n int, et types.Type) *Chan { return &Chan{cap: n, et: et} }

func popq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.off != nil {
			if *w.off {
				continue
			}
			*w.off = true
		}
		return w
	}
	return nil
}

func liveq(q []*waiter) bool {
	for _, w := range q {
		if w.off == nil || !*w.off {
			return true
		}
	}
	return false
}

func (in *Interp) ready(g *Gor) {
	g.st = gRun
}

// trySend returns true if the send completed.
func (in *Interp) trySend(g *Gor, c *Chan, v Value) bool {
	if c.closed {
		in.goPanicStr("send on closed channel")
	}
	if w := popq(&c.recvq); w != nil {
		in.vcSend(g, c)
		in.vcRecvFor(w.g, c)
		w.done(v, true)
		in.ready(w.g)
		return true
	}
	if len(c.buf) < c.cap {
		in.vcSend(g, c)
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (in *Interp) tryRecv(g *Gor, c *Chan) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		in.vcRecvFor(g, c)
		if w := popq(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			in.vcSend(w.g, c)
			w.done(nil, true)
			in.ready(w.g)
		}
		return v, true, true
	}
	if w := popq(&c.sendq); w != nil {
		in.vcSend(w.g, c)
		in.vcRecvFor(g, c)
		w.done(nil, true)
		in.ready(w.g)
		return w.val, true, true
	}
	if c.closed {
		in.vcRecvFor(g, c)
		return zeroValue(c.et), false, true
	}
	return nil, false, false
}

func (in *Interp) sendOp(g *Gor, fr *Frame, ins *Instr, t *ssa.Send) ctl {
	x := in.get(fr, &ins.a[0])
	c, ok := x.(*Chan)
	if !ok {
		panic(unsupportedV("send", x))
	}
	v := in.get(fr, &ins.a[1])
	if c == nil {
		g.why = "send on nil channel"
		return ctlBlock
	}
	if in.trySend(g, c, v) {
		return in.syncPoint(g)
	}
	w := &waiter{g: g, val: v}
	w.done = func(Value, bool) { fr.pc++ }
	c.sendq = append(c.sendq, w)
	g.why = "chan send"
	return ctlBlock
}

func (in *Interp) recvOp(g *Gor, fr *Frame, ins *Instr, t *ssa.UnOp, x Value) ctl {
	c, ok := x.(*Chan)
	if !ok {
		panic(unsupportedV("recv", x))
	}
	set := func(v Value, ok bool) {
		if t.CommaOk {
			fr.regs[ins.dst] = TupleV{v, ok}
		} else {
			fr.regs[ins.dst] = v
		}
	}
	if c == nil {
		g.why = "receive from nil channel"
		return ctlBlock
	}
	if v, ok, done := in.tryRecv(g, c); done {
		set(v, ok)
		return in.syncPoint(g)
	}
	w := &waiter{g: g}
	w.done = func(v Value, ok bool) {
		set(v, ok)
		fr.pc++
	}
	c.recvq = append(c.recvq, w)
	g.why = "chan receive"
	return ctlBlock
}

func (in *Interp) closeChan(g *Gor, c *Chan) {
	if c == nil {
		in.goPanicStr("close of nil channel")
	}
	if c.closed {
		in.goPanicStr("close of closed channel")
	}
	c.closed = true
	in.vcSend(g, c)
	for {
		w := popq(&c.recvq)
		if w == nil {
			break
		}
		in.vcRecvFor(w.g, c)
		w.done(zeroValue(c.et), false)
		in.ready(w.g)
	}
	if liveq(c.sendq) {
		panic(unsupported("close of channel with blocked senders"))
	}
}

func (in *Interp) selectOp(g *Gor, fr *Frame, ins *Instr, t *ssa.Select) ctl {
	// operands: for each state Chan, Send
	type cs struct {
		c    *Chan
		v    Value
		send bool
		ri   int
	}
	var cases []cs
	k := 0
	nr := 0
	for _, s := range t.States {
		c := in.get(fr, &ins.a[k]).(*Chan)
		v := in.get(fr, &ins.a[k+1])
		k += 2
		x := cs{c: c, v: v, send: s.Dir == types.SendOnly, ri: -1}
		if !x.send {
			x.ri = nr
			nr++
		}
		cases = append(cases, x)
	}
	result := func(i int, v Value, ok bool) {
		tup := t.Type().(*types.Tuple)
		tv := make(TupleV, tup.Len())
		tv[0] = uint64(int64(i))
		tv[1] = ok
		for j := 2; j < tup.Len(); j++ {
			tv[j] = zeroValue(tup.At(j).Type())
		}
		if i >= 0 && cases[i].ri >= 0 {
			tv[2+cases[i].ri] = v
		}
		fr.regs[ins.dst] = tv
	}
	var rdy []int
	for i, x := range cases {
		if x.c == nil {
			continue
		}
		if x.send {
			if x.c.closed || liveq(x.c.recvq) || len(x.c.buf) < x.c.cap {
				rdy = append(rdy, i)
			}
		} else if len(x.c.buf) > 0 || liveq(x.c.sendq) || x.c.closed {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[0]
		if len(rdy) > 1 && in.noFork == 0 {
			i = rdy[in.choose(len(rdy), "select")]
		}
		x := cases[i]
		if x.send {
			in.trySend(g, x.c, x.v)
			result(i, nil, false)
		} else {
			v, ok, _ := in.tryRecv(g, x.c)
			result(i, v, ok)
		}
		return in.syncPoint(g)
	}
	if !t.Blocking {
		result(-1, nil, false)
		return ctlDone
	}
	off := new(bool)
	for i, x := range cases {
		if x.c == nil {
			continue
		}
		i, x := i, x
		w := &waiter{g: g, val: x.v, off: off}
		w.done = func(v Value, ok bool) {
			result(i, v, ok)
			fr.pc++
		}
		if x.send {
			x.c.sendq = append(x.c.sendq, w)
		} else {
			x.c.recvq = append(x.c.recvq, w)
		}
	}
	g.why = "select"
	return ctlBlock
}

func (in *Interp) spawn(parent *Gor, cl *Closure, args []Value) {
	if in.noFork > 0 {
		panic(unsupported("go in init or speculation"))
	}
	g := &Gor{id: len(in.gors)}
	in.gors = append(in.gors, g)
	if in.race != nil {
		g.vc = append([]int64(nil), parent.vc...)
		for len(g.vc) <= g.id {
			g.vc = append(g.vc, 0)
		}
		g.vc[g.id] = 1
		in.vcTick(parent)
	}
	_, ct := in.pushCall(g, nil, cl, args, -1, nil)
	if ct == ctlDone {
		g.st = gDead
	}
	if len(in.gors) > 400 {
		panic(pathEnd{"stack", "more than 400 goroutines at once"})
	}
}

// syncPoint is called after a synchronisation operation completed.
func (in *Interp) syncPoint(g *Gor) ctl {
	if in.inter && in.noFork == 0 {
		return ctlYield
	}
	return ctlDone
}

// schedule runs goroutines until main (gors[0]) has finished.
func (in *Interp) schedule() {
	cur := in.gors[0]
	for {
		if in.gors[0].st == gDead {
			return
		}
		if cur.st != gRun {
			var rs []*Gor
			n := len(in.gors)
			for i := 1; i <= n; i++ {
				x := in.gors[(cur.id+i)%n]
				if x.st == gRun {
					rs = append(rs, x)
				}
			}
			if len(rs) == 0 {
				// wake a quiescing goroutine
				var q *Gor
				for _, x := range in.gors {
					if x.st == gBlocked && x.quie {
						q = x
						break
					}
				}
				if q == nil {
					panic(pathEnd{"deadlock", in.blockedText()})
				}
				q.quie = false
				q.st = gRun
				if in.race != nil {
					for _, x := range in.gors {
						in.vcJoin(q, x.vc)
					}
				}
				cur = q
				continue
			}
			// delay bounding: not taking the next goroutine in turn costs one
			cur = rs[0]
			if in.inter && len(rs) > 1 && in.preempt > 0 {
				if k := in.choose(len(rs), "sched"); k > 0 {
					in.preempt--
					cur = rs[k]
				}
			}
			continue
		}
		in.cur = cur
		st := in.runSlice(cur, 0)
		if st == gRun && in.inter {
			// voluntary scheduling point
			var rs []*Gor
			for _, x := range in.gors {
				if x.st == gRun && x != cur {
					rs = append(rs, x)
				}
			}
			if len(rs) > 0 && in.preempt > 0 {
				k := in.choose(len(rs)+1, "preempt")
				if k > 0 {
					in.preempt--
					cur = rs[k-1]
				}
			}
		}
	}
}

func (in *Interp) blockedText() string {
	s := ""
	for _, g := range in.gors {
		if g.st == gBlocked {
			fn := "?"
			if len(g.frames) > 0 {
				fn = g.frames[len(g.frames)-1].fn.f.String()
			}
			s += fmt.Sprintf("goroutine %d: %s in %s; ", g.id, g.why, fn)
		}
	}
	return s
}

// ---- mutexes

type mutexSt struct {
	locked  bool
	readers int
	q       []*waiter
	vc      []int64
	rvc     []int64
}

type wgSt struct {
	n  int64
	q  []*Gor
	vc []int64
}

func (in *Interp) mu(p *Value) *mutexSt {
	if p == nil {
		in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	m := in.mutexes[p]
	if m == nil {
		m = &mutexSt{}
		in.mutexes[p] = m
	}
	return m
}

func (in *Interp) wakeMu(m *mutexSt) {
	for _, w := range m.q {
		in.ready(w.g)
	}
	m.q = nil
}

// ---- race detection (happens-before with vector clocks)

type shadow struct {
	wg    int
	wc    int64
	wpos  token.Pos
	reads map[int]int64
	rpos  map[int]token.Pos
}

type raceSt struct {
	sh    map[*Value]*shadow
	found []string
}

func (in *Interp) vcTick(g *Gor) {
	if in.race == nil {
		return
	}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (in *Interp) vcJoin(g *Gor, o []int64) {
	if in.race == nil {
		return
	}
	for len(g.vc) < len(o) {
		g.vc = append(g.vc, 0)
	}
	for i, c := range o {
		if c > g.vc[i] {
			g.vc[i] = c
		}
	}
}

func (in *Interp) vcRelease(g *Gor, dst *[]int64) {
	if in.race == nil {
		return
	}
	for len(*dst) < len(g.vc) {
		*dst = append(*dst, 0)
	}
	for i, c := range g.vc {
		if c > (*dst)[i] {
			(*dst)[i] = c
		}
	}
	in.vcTick(g)
}

func (in *Interp) vcSend(g *Gor, c *Chan)    { in.vcRelease(g, &c.vc) }
func (in *Interp) vcRecvFor(g *Gor, c *Chan) { in.vcJoin(g, c.vc); in.vcRelease(g, &c.vc) }

func clockOf(vc []int64, g int) int64 {
	if g < len(vc) {
		return vc[g]
	}
	return 0
}

// racePkg lists the packages whose memory accesses are checked for races:
// the program itself and the unsynchronised library types it may share
// between goroutines.
var racePkg = map[string]bool{
	userMod: true, "bufio": true, "bytes": true, "strings": true,
	"container/list": true, "container/heap": true, "container/ring": true,
}

// callerPos is where the nearest frame of the program itself stands.
func (in *Interp) callerPos(g *Gor, pos token.Pos) token.Pos {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if fr.fn.pkg == userMod && fr.b != nil && fr.pc > 0 && fr.pc <= len(fr.b.ins) {
			if p := fr.b.ins[fr.pc-1].i.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return pos
}

func (in *Interp) access(g *Gor, fr *Frame, p *Value, write bool, pos token.Pos) {
	if g.id < 0 || len(in.gors) < 2 || !racePkg[fr.fn.pkg] {
		return
	}
	if fr.fn.pkg != userMod {
		pos = in.callerPos(g, pos)
	}
	switch x := (*p).(type) {
	case StructV:
		for i := range x {
			in.access(g, fr, &x[i], write, pos)
		}
		return
	}
	s := in.race.sh[p]
	if s == nil {
		s = &shadow{wg: -1}
		in.race.sh[p] = s
	}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if s.wg >= 0 && s.wg != g.id && clockOf(g.vc, s.wg) < s.wc {
		in.reportRace(s.wpos, pos, "write", write)
	}
	if write {
		for rg, c := range s.reads {
			if rg != g.id && clockOf(g.vc, rg) < c {
				in.reportRace(s.rpos[rg], pos, "read", write)
			}
		}
		s.wg = g.id
		s.wc = g.vc[g.id]
		s.wpos = pos
		s.reads = nil
		s.rpos = nil
	} else {
		if s.reads == nil {
			s.reads = map[int]int64{}
			s.rpos = map[int]token.Pos{}
		}
		s.reads[g.id] = g.vc[g.id]
		s.rpos[g.id] = pos
	}
}

func (in *Interp) reportRace(a, b token.Pos, what string, write bool) {
	w := "read"
	if write {
		w = "write"
	}
	panic(pathEnd{"race", fmt.Sprintf("data race: %s at %s and %s at %s", what, in.P.pos(a), w, in.P.pos(b))})
}
