package main

// If-conversion: a side-effect free acyclic region hanging off a symbolic
// branch is evaluated on both sides and merged with ite terms, so that it does
// not multiply paths.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) postdoms(fn *Fn) []int {
	if fn.ipdom != nil {
		return fn.ipdom
	}
	n := len(fn.blocks)
	exit := n
	// dataflow on sets as bool slices; functions are small
	pd := make([][]bool, n+1)
	full := func() []bool {
		s := make([]bool, n+1)
		for i := range s {
			s[i] = true
		}
		return s
	}
	for i := 0; i < n; i++ {
		pd[i] = full()
	}
	pd[exit] = make([]bool, n+1)
	pd[exit][exit] = true
	succ := func(i int) []int {
		if len(fn.blocks[i].succs) == 0 {
			return []int{exit}
		}
		return fn.blocks[i].succs
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			ns := full()
			for _, s := range succ(i) {
				for j := range ns {
					ns[j] = ns[j] && pd[s][j]
				}
			}
			ns[i] = true
			for j := range ns {
				if ns[j] != pd[i][j] {
					pd[i] = ns
					ch = true
					break
				}
			}
		}
	}
	ip := make([]int, n)
	for i := 0; i < n; i++ {
		ip[i] = -1
		best := -1
		for j := 0; j <= n; j++ {
			if j == i || !pd[i][j] {
				continue
			}
			// immediate: the one post-dominated by all other strict post-dominators
			cnt := 0
			for k := 0; k <= n; k++ {
				if pd[j][k] {
					cnt++
				}
			}
			if cnt > best {
				best = cnt
				ip[i] = j
			}
		}
	}
	fn.ipdom = ip
	return ip
}

func pureInstr(ci *Instr) bool {
	switch t := ci.i.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Index, *ssa.IndexAddr,
		*ssa.FieldAddr, *ssa.Field, *ssa.Lookup, *ssa.Slice, *ssa.Extract, *ssa.MakeInterface,
		*ssa.ChangeInterface, *ssa.If, *ssa.Jump, *ssa.Return:
		return true
	case *ssa.TypeAssert:
		return t.CommaOk
	case *ssa.UnOp:
		return t.Op != token.ARROW
	case *ssa.Call:
		if ci.pur {
			return true
		}
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		return false
	}
	return false
}

func (in *Interp) regionOf(fn *Fn, b *Block) *Region {
	if b.regOK == 1 {
		return b.region
	}
	if b.regOK == 2 {
		return nil
	}
	b.regOK = 2
	n := len(fn.blocks)
	if n > 400 {
		return nil
	}
	j := in.postdoms(fn)[b.idx]
	if j < 0 {
		return nil
	}
	if j == n && fn.hasDef {
		return nil
	}
	// collect region
	seen := map[int]int{} // 0 unseen 1 active 2 done
	var post []int
	var dfs func(x int) bool
	dfs = func(x int) bool {
		if x == j {
			return true
		}
		switch seen[x] {
		case 1:
			return false // cycle
		case 2:
			return true
		}
		if x == b.idx {
			return false
		}
		if len(seen) > 40 {
			return false
		}
		seen[x] = 1
		blk := fn.blocks[x]
		for i := range blk.ins {
			if !pureInstr(&blk.ins[i]) {
				return false
			}
			if _, ok := blk.ins[i].i.(*ssa.Return); ok && j != n {
				return false
			}
		}
		for _, s := range blk.succs {
			if !dfs(s) {
				return false
			}
		}
		seen[x] = 2
		post = append(post, x)
		return true
	}
	for _, s := range b.succs {
		if !dfs(s) {
			return nil
		}
	}
	for _, x := range post {
		for _, p := range fn.blocks[x].preds {
			if p != b.idx && seen[p] != 2 {
				return nil
			}
		}
	}
	r := &Region{join: j}
	if j == n {
		r.join = -1
	}
	for i := len(post) - 1; i >= 0; i-- {
		r.order = append(r.order, post[i])
	}
	b.region = r
	b.regOK = 1
	return r
}

type edgeKey struct{ from, to int }

// merge tries to execute the region after the If of fr.b with condition c.
func (in *Interp) merge(g *Gor, fr *Frame, c *Term) (ok bool) {
	if in.P.noMerge {
		return false
	}
	r := in.regionOf(fr.fn, fr.b)
	if r == nil {
		return false
	}
	savedSteps := in.steps
	defer func() {
		if x := recover(); x != nil {
			in.noFork--
			if _, is := x.(specAbort); is {
				in.steps = savedSteps
				ok = false
				return
			}
			if pe, is := x.(pathEnd); is && pe.kind == "unsupported" {
				ok = false
				return
			}
			panic(x)
		}
	}()
	in.noFork++
	guards := map[edgeKey]*Term{}
	addG := func(from, to int, t *Term) {
		k := edgeKey{from, to}
		if o := guards[k]; o != nil {
			t = in.tt.Or(o, t)
		}
		guards[k] = t
	}
	addG(fr.b.idx, fr.b.succs[0], c)
	addG(fr.b.idx, fr.b.succs[1], in.tt.Not(c))
	type ret struct {
		g *Term
		v []Value
	}
	var rets []ret
	phiMerge := func(blk *Block) {
		vals := make([]Value, blk.nphi)
		for k := 0; k < blk.nphi; k++ {
			var cur Value
			have := false
			ci := &blk.ins[k]
			for ei, p := range blk.preds {
				gd := guards[edgeKey{p, blk.idx}]
				if gd == nil || gd == in.tt.fls {
					continue
				}
				v := in.get(fr, &ci.a[ei])
				if !have {
					cur, have = v, true
					continue
				}
				m, ok := in.tryMerge(gd, v, cur, ci.i.(*ssa.Phi).Type())
				if !ok {
					panic(specAbort{})
				}
				cur = m
			}
			vals[k] = cur
		}
		for k := range vals {
			fr.regs[blk.ins[k].dst] = vals[k]
		}
	}
	for _, bi := range r.order {
		blk := fr.fn.blocks[bi]
		gd := in.tt.fls
		for _, p := range blk.preds {
			if e := guards[edgeKey{p, bi}]; e != nil {
				gd = in.tt.Or(gd, e)
			}
		}
		if gd == in.tt.fls {
			continue
		}
		phiMerge(blk)
		for i := blk.nphi; i < len(blk.ins); i++ {
			ins := &blk.ins[i]
			in.steps++
			switch ins.i.(type) {
			case *ssa.If:
				cv := in.get(fr, &ins.a[0])
				ct := in.boolTerm(cv)
				addG(bi, blk.succs[0], in.tt.And(gd, ct))
				addG(bi, blk.succs[1], in.tt.And(gd, in.tt.Not(ct)))
			case *ssa.Jump:
				addG(bi, blk.succs[0], gd)
			case *ssa.Return:
				vs := make([]Value, len(ins.a))
				for k := range ins.a {
					vs[k] = in.get(fr, &ins.a[k])
				}
				rets = append(rets, ret{gd, vs})
			default:
				if in.exec(g, fr, ins) != ctlDone {
					panic(specAbort{})
				}
			}
		}
	}
	if r.join < 0 {
		if len(rets) == 0 {
			panic(specAbort{})
		}
		cur := rets[0].v
		res := fr.fn.f.Signature.Results()
		for _, x := range rets[1:] {
			nv := make([]Value, len(cur))
			for k := range cur {
				m, ok := in.tryMerge(x.g, x.v[k], cur[k], res.At(k).Type())
				if !ok {
					panic(specAbort{})
				}
				nv[k] = m
			}
			cur = nv
		}
		in.noFork--
		in.W.merges++
		var v Value
		switch len(cur) {
		case 0:
		case 1:
			v = cur[0]
		default:
			v = TupleV(cur)
		}
		in.doReturn(g, fr, v)
		return true
	}
	jb := fr.fn.blocks[r.join]
	// the join may be entered from outside the region too, which is fine:
	// only edges with guards are live here
	phiMerge(jb)
	in.noFork--
	in.W.merges++
	fr.prev = -1
	fr.b = jb
	fr.pc = jb.nphi
	return true
}

var _ = types.Typ
