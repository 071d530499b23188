package main

// The verif package as seen by the interpreter.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) symBytes(label string, n int, alpha string) []*Term {
	p := in.path
	l := p.label(label)
	ts := make([]*Term, n)
	for i := range ts {
		def := uint64('a')
		if alpha != "" {
			def = uint64(alpha[0])
		}
		ts[i] = in.newVar(l+"."+itoa(i), 8, def)
	}
	p.inputs = append(p.inputs, InputRec{label: label, kind: "str", terms: ts})
	if alpha != "" {
		for _, t := range ts {
			c := in.tt.fls
			// ranges keep the constraint small
			for i := 0; i < len(alpha); {
				j := i
				for j+1 < len(alpha) && alpha[j+1] == alpha[j]+1 {
					j++
				}
				lo, hi := in.tt.Const(uint64(alpha[i]), 8), in.tt.Const(uint64(alpha[j]), 8)
				var r *Term
				if i == j {
					r = in.tt.Eq(t, lo)
				} else {
					r = in.tt.And(in.tt.Cmp(opUle, lo, t), in.tt.Cmp(opUle, t, hi))
				}
				c = in.tt.Or(c, r)
				i = j + 1
			}
			in.assume(in.normB(c))
		}
	}
	return ts
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func registerVerif() {
	v := func(n string) string { return "user:/zz/verif." + n }
	reg(v("Symbolic"), true, pure1(func(in *Interp, a []Value) Value { return true }))
	reg(v("Deep"), true, pure1(func(in *Interp, a []Value) Value { return in.P.deep }))
	reg(v("Bool"), false, pure1(func(in *Interp, a []Value) Value {
		l := labelOf(a[0])
		t := in.newVar(in.path.label(l), 1, 0)
		in.path.inputs = append(in.path.inputs, InputRec{label: l, kind: "int", terms: []*Term{t}})
		return in.normB(in.tt.Eq(t, in.tt.Const(1, 1)))
	}))
	reg(v("Byte"), false, pure1(func(in *Interp, a []Value) Value {
		l := labelOf(a[0])
		t := in.newVar(in.path.label(l), 8, 'a')
		in.path.inputs = append(in.path.inputs, InputRec{label: l, kind: "int", terms: []*Term{t}})
		return t
	}))
	reg(v("Int"), false, pure1(func(in *Interp, a []Value) Value {
		l := labelOf(a[0])
		lo, hi := sext(a[1].(uint64), 64), sext(a[2].(uint64), 64)
		if lo >= hi {
			in.path.inputs = append(in.path.inputs, InputRec{label: l, kind: "choose", val: uint64(lo)})
			return uint64(lo)
		}
		w := uint8(bitLen(uint64(hi - lo)))
		t := in.newVar(in.path.label(l), w, 0)
		in.path.inputs = append(in.path.inputs, InputRec{label: l, kind: "int", terms: []*Term{t}, off: lo})
		if uint64(hi-lo) != mask(w) {
			in.assume(in.normB(in.tt.Cmp(opUle, t, in.tt.Const(uint64(hi-lo), w))))
		}
		return in.norm(in.tt.Bin(opAdd, in.tt.Resize(t, 64, false), in.tt.Const(uint64(lo), 64)))
	}))
	reg(v("Choose"), false, pure1(func(in *Interp, a []Value) Value {
		l := labelOf(a[0])
		n := int(in.concInt(a[1], types.Typ[types.Int]))
		k := in.choose(n, l)
		in.path.inputs = append(in.path.inputs, InputRec{label: l, kind: "choose", val: uint64(k)})
		return uint64(k)
	}))
	reg(v("StringN"), false, pure1(func(in *Interp, a []Value) Value {
		return mkStr(in.symBytes(labelOf(a[0]), int(in.concInt(a[1], types.Typ[types.Int])), ""))
	}))
	reg(v("StringIn"), false, pure1(func(in *Interp, a []Value) Value {
		return mkStr(in.symBytes(labelOf(a[0]), int(in.concInt(a[1], types.Typ[types.Int])), labelOf(a[2])))
	}))
	reg(v("Assume"), false, pure1(func(in *Interp, a []Value) Value { in.assume(a[0]); return nil }))
	reg(v("Assert"), false, pure1(func(in *Interp, a []Value) Value { in.assertCond(a[0], labelOf(a[1])); return nil }))
	reg(v("And"), true, pure1(func(in *Interp, a []Value) Value {
		var r Value = true
		for _, x := range variadic(a[0]) {
			r = in.andV(r, x)
		}
		return r
	}))
	reg(v("Or"), true, pure1(func(in *Interp, a []Value) Value {
		r := in.tt.fls
		for _, x := range variadic(a[0]) {
			r = in.tt.Or(r, in.boolTerm(x))
		}
		return in.normB(r)
	}))
	reg(v("Implies"), true, pure1(func(in *Interp, a []Value) Value {
		return in.normB(in.tt.Or(in.tt.Not(in.boolTerm(a[0])), in.boolTerm(a[1])))
	}))
	reg(v("Iff"), true, pure1(func(in *Interp, a []Value) Value {
		return in.normB(in.tt.Eq(in.boolTerm(a[0]), in.boolTerm(a[1])))
	}))
	reg(v("IteInt"), true, pure1(func(in *Interp, a []Value) Value {
		return in.iteScalar(in.boolTerm(a[0]), a[1], a[2], types.Typ[types.Int])
	}))
	reg(v("EqStr"), true, pure1(func(in *Interp, a []Value) Value { return in.strEq(a[0], a[1]) }))
	reg(v("Lower"), true, pure1(func(in *Interp, a []Value) Value {
		ts := in.strTerms(a[0])
		r := make([]*Term, len(ts))
		for i, t := range ts {
			r[i] = in.lowerByte(t, false)
		}
		return mkStr(r)
	}))
	reg(v("Concrete"), false, pure1(func(in *Interp, a []Value) Value { return in.concretizeV(a[0]) }))
	reg(v("ConcreteInt"), false, pure1(func(in *Interp, a []Value) Value { return in.concretizeV(a[0]) }))
	reg(v("IsConcrete"), false, pure1(func(in *Interp, a []Value) Value { _, ok := a[0].(string); return ok }))
	reg(v("Observe"), false, pure1(func(in *Interp, a []Value) Value {
		for _, x := range variadic(a[1]) {
			in.path.obs = append(in.path.obs, obsRec{labelOf(a[0]), x})
		}
		return nil
	}))
	reg(v("Cover"), false, pure1(func(in *Interp, a []Value) Value {
		ex := in.W.ex
		ex.mu.Lock()
		ex.covers[labelOf(a[0])]++
		ex.mu.Unlock()
		return nil
	}))
	reg(v("Races"), false, pure1(func(in *Interp, a []Value) Value {
		in.race = &raceSt{sh: map[*Value]*shadow{}}
		for _, g := range in.gors {
			in.vcTick(g)
		}
		return nil
	}))
	reg(v("Interleave"), false, pure1(func(in *Interp, a []Value) Value {
		in.inter = true
		in.preempt = int(in.concInt(a[0], types.Typ[types.Int]))
		return nil
	}))
	reg(v("MapOrder"), false, pure1(func(in *Interp, a []Value) Value { in.mapOrd = a[0].(bool); return nil }))
	reg(v("Reject"), false, pure1(func(in *Interp, a []Value) Value { panic(pathEnd{"assume", ""}) }))
	reg(v("Unsupported"), false, pure1(func(in *Interp, a []Value) Value { panic(unsupported(labelOf(a[0]))) }))
	reg(v("Quiesce"), false, func(in *Interp, g *Gor, a []Value, f *ssa.Function) (Value, ctl) {
		if g.op == "quiesced" {
			g.op = ""
			return nil, ctlDone
		}
		g.op = "quiesced"
		g.quie = true
		g.why = "quiesce"
		return nil, ctlBlock
	})
	reg(v("Goroutines"), false, pure1(func(in *Interp, a []Value) Value { return in.numGor() }))
	nop := pure1(func(in *Interp, a []Value) Value { return nil })
	reg(v("RunNative"), false, nop)
	reg(v("Touch"), true, nop)
	reg(v("Jitter"), true, nop)
}
