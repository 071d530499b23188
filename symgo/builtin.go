package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var goSizes = types.SizesFor("gc", "amd64")

// size classes of the Go allocator (runtime/sizeclasses.go)
var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int64) int64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen int, et types.Type) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for {
			nc += (nc + 3*256) >> 2
			if uint(nc) >= uint(newLen) {
				break
			}
		}
	}
	sz := goSizes.Sizeof(et)
	if sz == 0 {
		return newLen
	}
	return int(roundupsize(int64(nc)*sz) / sz)
}

func (in *Interp) appendVals(s []Value, add []Value, et types.Type) []Value {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		return r
	}
	nc := growCap(cap(s), n, et)
	r := make([]Value, n, nc)
	copy(r, s)
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	fillZero(r[n:nc], et)
	return r
}

// raceSlice notes accesses to the elements of a slice for the race detector.
func (in *Interp) raceSlice(g *Gor, s []Value, write bool, cc *ssa.CallCommon) {
	if in.race == nil || in.noFork != 0 || len(g.frames) == 0 || cc == nil {
		return
	}
	fr := g.frames[len(g.frames)-1]
	if !racePkg[fr.fn.pkg] {
		return
	}
	for i := range s {
		in.access(g, fr, &s[i], write, cc.Pos())
	}
}

func (in *Interp) raceAppend(g *Gor, s []Value, n int, cc *ssa.CallCommon) {
	if in.race == nil {
		return
	}
	if len(s)+n <= cap(s) {
		in.raceSlice(g, s[len(s):len(s)+n], true, cc)
	} else {
		in.raceSlice(g, s, false, cc)
	}
}

func (in *Interp) builtin(g *Gor, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case []Value:
			return uint64(len(x))
		case ArrayV:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(ArrayV)))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			if in.race != nil && in.noFork == 0 && len(g.frames) > 0 {
				in.access(g, g.frames[len(g.frames)-1], &x.cell, false, cc.Pos())
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
		panic(unsupportedV("len", args[0]))
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case ArrayV:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(ArrayV)))
		case *Chan:
			return uint64(x.cap)
		}
		panic(unsupportedV("cap", args[0]))
	case "append":
		s, ok := args[0].([]Value)
		if !ok {
			panic(unsupportedV("append", args[0]))
		}
		et := b.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case []Value:
			if len(y) == 0 {
				return s
			}
			in.raceSlice(g, y, false, cc)
			in.raceAppend(g, s, len(y), cc)
			// the source may alias the destination
			cp := append([]Value(nil), y...)
			return in.appendVals(s, cp, et)
		case string, *SymStr:
			if strLen(y) == 0 {
				return s
			}
			in.raceAppend(g, s, strLen(y), cc)
			return in.appendVals(s, in.bytesOfStr(y), et)
		}
		panic(unsupportedV("append", args[1]))
	case "copy":
		d := args[0].([]Value)
		switch y := args[1].(type) {
		case []Value:
			n := len(d)
			if len(y) < n {
				n = len(y)
			}
			in.raceSlice(g, y[:n], false, cc)
			in.raceSlice(g, d[:n], true, cc)
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(y[i])
			}
			copy(d, tmp)
			return uint64(n)
		case string, *SymStr:
			n := strLen(y)
			if len(d) < n {
				n = len(d)
			}
			for i := 0; i < n; i++ {
				d[i] = in.strAtV(y, i)
			}
			return uint64(n)
		}
		panic(unsupportedV("copy", args[1]))
	case "delete":
		m := args[0].(*MapV)
		if in.race != nil && m != nil && len(g.frames) > 0 {
			in.access(g, g.frames[len(g.frames)-1], &m.cell, true, cc.Pos())
		}
		in.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				x.ents = nil
				x.idx = map[interface{}]int{}
				x.n, x.sym = 0, 0
			}
		case []Value:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			fillZero(x, et)
		}
		return nil
	case "close":
		in.closeChan(g, args[0].(*Chan))
		return nil
	case "panic":
		in.goPanic(args[0].(Iface))
	case "recover":
		// valid only when called by a deferred function of a panicking frame
		n := len(g.frames)
		if n >= 2 && g.frames[n-1].isDefer && g.frames[n-2].unwinding && len(g.panics) > 0 {
			p := g.panics[len(g.panics)-1]
			if !p.recovered {
				p.recovered = true
				return p.val
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Results().At(0).Type()
		res := args[0]
		for _, a := range args[1:] {
			var lt Value
			if b.Name() == "min" {
				lt = in.binop(tokLSS, t, t, a, res)
			} else {
				lt = in.binop(tokLSS, t, t, res, a)
			}
			switch c := lt.(type) {
			case bool:
				if c {
					res = a
				}
			case *Term:
				if m, ok := in.tryMerge(c, a, res, t); ok {
					res = m
				} else if in.branch(c) {
					res = a
				}
			}
		}
		return res
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "SliceData":
		return DataPtr{s: args[0].([]Value)}
	case "StringData":
		return DataPtr{v: args[0]}
	case "String":
		n := int(in.concInt(args[1], types.Typ[types.Int]))
		switch d := args[0].(type) {
		case DataPtr:
			if d.v != nil {
				return strSub(d.v, 0, n)
			}
			return in.strOfBytes(d.s[:n])
		case *Value:
			if d == nil && n == 0 {
				return ""
			}
		}
		panic(unsupportedV("unsafe.String", args[0]))
	case "Slice":
		n := int(in.concInt(args[1], types.Typ[types.Int]))
		switch d := args[0].(type) {
		case DataPtr:
			if d.v != nil {
				return in.bytesOfStr(d.v)[:n]
			}
			return d.s[:n]
		}
		panic(unsupportedV("unsafe.Slice", args[0]))
	}
	panic(unsupported(fmt.Sprintf("builtin %s", b.Name())))
}
