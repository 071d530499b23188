package main

import (
	"math/rand"
	"testing"
)

// Simplifications of sums and comparisons keep their value.
func TestLinear(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for n := 0; n < 200000; n++ {
		tt := newTermTable()
		var vs []*Term
		vals := map[*Term]uint64{}
		for i := 0; i < 3; i++ {
			w := uint8(1 + r.Intn(50))
			v := tt.Var(string(rune('a'+i)), w)
			vs = append(vs, v)
			vals[v] = r.Uint64() & mask(w)
		}
		type pair struct {
			t *Term
			v uint64
		}
		var gen func(d int) pair
		gen = func(d int) pair {
			if d == 0 || r.Intn(4) == 0 {
				if r.Intn(3) == 0 {
					k := r.Uint64() >> uint(r.Intn(60))
					if r.Intn(2) == 0 {
						k = -k
					}
					return pair{tt.Const(k, 64), k}
				}
				v := vs[r.Intn(3)]
				return pair{tt.Resize(v, 64, false), vals[v]}
			}
			x, y := gen(d-1), gen(d-1)
			if r.Intn(2) == 0 {
				return pair{tt.Bin(opAdd, x.t, y.t), x.v + y.v}
			}
			return pair{tt.Bin(opSub, x.t, y.t), x.v - y.v}
		}
		x, y := gen(3), gen(3)
		tt.setModel(vals)
		if g := tt.Eval(x.t); g != x.v {
			t.Fatalf("sum %d: %x want %x", n, g, x.v)
		}
		for _, op := range []Op{opSlt, opSle, opUlt, opUle} {
			want := evalCmp(op, x.v, y.v, 64)
			if g := tt.Eval(tt.Cmp(op, x.t, y.t)) == 1; g != want {
				t.Fatalf("cmp %d %v", n, op)
			}
		}
	}
}
