package main

// Hash-consed bit-vector / Boolean terms, one table per worker.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	opConst Op = iota
	opVar
	opNot
	opAnd
	opOr
	opEq
	opUlt
	opUle
	opSlt
	opSle
	opAdd
	opSub
	opMul
	opUDiv
	opURem
	opSDiv
	opSRem
	opBAnd
	opBOr
	opBXor
	opBNot
	opNeg
	opShl
	opLShr
	opAShr
	opZExt
	opSExt
	opExtract // low bits only: extract [w-1:0]
	opIte
)

var opName = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "zero_extend", "sign_extend", "extract", "ite"}

// Term: w == 0 means Bool.
type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	k       uint64 // constant value (also for Bool: 0/1)
	name    string
	// evaluation cache
	evGen int64
	evVal uint64
	// solver naming
	defGen int64
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermTable struct {
	tab    map[termKey]*Term
	vars   map[string]*Term
	varLst []*Term
	n      int32
	tru    *Term
	fls    *Term
	model  map[*Term]uint64
	gen    int64
}

func newTermTable() *TermTable {
	t := &TermTable{tab: make(map[termKey]*Term), vars: make(map[string]*Term), model: map[*Term]uint64{}, gen: 1}
	t.tru = t.mk(opConst, 0, nil, nil, nil, 1)
	t.fls = t.mk(opConst, 0, nil, nil, nil, 0)
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tt *TermTable) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: tt.n}
	tt.n++
	tt.tab[key] = t
	return t
}

func (tt *TermTable) Var(name string, w uint8) *Term {
	if t, ok := tt.vars[name]; ok {
		if t.w != w {
			panic("variable width clash " + name)
		}
		return t
	}
	t := &Term{op: opVar, w: w, name: name, id: tt.n}
	tt.n++
	tt.vars[name] = t
	tt.varLst = append(tt.varLst, t)
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTable) Const(v uint64, w uint8) *Term {
	return tt.mk(opConst, w, nil, nil, nil, v&mask(w))
}
func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}

func (t *Term) isConst() bool { return t.op == opConst }

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case opConst:
		return tt.Bool(a.k == 0)
	case opNot:
		return a.a
	}
	return tt.mk(opNot, 0, a, nil, nil, 0)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == opNot && a.a == b) || (b.op == opNot && b.a == a) {
		return tt.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(opAnd, 0, a, b, nil, 0)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == opNot && a.a == b) || (b.op == opNot && b.a == a) {
		return tt.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(opOr, 0, a, b, nil, 0)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k != 0 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if c.op == opNot {
		return tt.mk(opIte, a.w, c.a, b, a, 0)
	}
	return tt.mk(opIte, a.w, c, a, b, 0)
}

// iteDepth reports whether t is a chain of ites whose leaves are (mostly)
// constants, which makes pushing operations into it profitable.
func constLeaves(t *Term, depth int) bool {
	if t.op == opConst {
		return true
	}
	if t.op != opIte || depth > 40 {
		return false
	}
	return constLeaves(t.b, depth+1) && constLeaves(t.c, depth+1)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return tt.Not(a)
		}
		if (a.op == opNot && a.a == b) || (b.op == opNot && b.a == a) {
			return tt.fls
		}
	} else {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case opIte:
				if a.b.isConst() || a.c.isConst() {
					return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
				}
			case opZExt:
				if b.k > mask(a.a.w) {
					return tt.fls
				}
				return tt.Eq(a.a, tt.Const(b.k, a.a.w))
			case opSExt:
				tr := b.k & mask(a.a.w)
				if uint64(sext(tr, a.a.w))&mask(a.w) != b.k {
					return tt.fls
				}
				return tt.Eq(a.a, tt.Const(tr, a.a.w))
			case opAdd:
				if a.b.isConst() {
					return tt.Eq(a.a, tt.Const(b.k-a.b.k, a.w))
				}
			case opSub:
				if a.a.isConst() {
					return tt.Eq(a.b, tt.Const(a.a.k-b.k, a.w))
				}
			case opBXor:
				if a.b.isConst() {
					return tt.Eq(a.a, tt.Const(b.k^a.b.k, a.w))
				}
			}
		}
		if a.op == opZExt && b.op == opZExt && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == opIte && b.op == opIte && constLeaves(a, 0) && constLeaves(b, 0) {
			return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(opEq, 0, a, b, nil, 0)
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(evalCmp(op, a.k, b.k, a.w))
	}
	if a == b {
		return tt.Bool(op == opUle || op == opSle)
	}
	if b.isConst() && a.op == opIte && (a.b.isConst() || a.c.isConst()) {
		return tt.Ite(a.a, tt.Cmp(op, a.b, b), tt.Cmp(op, a.c, b))
	}
	if a.isConst() && b.op == opIte && (b.b.isConst() || b.c.isConst()) {
		return tt.Ite(b.a, tt.Cmp(op, a, b.b), tt.Cmp(op, a, b.c))
	}
	// zero-extended operands: compare in the narrow width
	if a.op == opZExt && b.isConst() {
		nw := a.a.w
		switch op {
		case opUlt, opUle:
			if b.k > mask(nw) {
				return tt.tru
			}
			return tt.Cmp(op, a.a, tt.Const(b.k, nw))
		case opSlt, opSle:
			sb := sext(b.k, b.w)
			if sb < 0 {
				return tt.fls
			}
			if uint64(sb) > mask(nw) {
				return tt.tru
			}
			u := opUlt
			if op == opSle {
				u = opUle
			}
			return tt.Cmp(u, a.a, tt.Const(uint64(sb), nw))
		}
	}
	if b.op == opZExt && a.isConst() {
		nw := b.a.w
		switch op {
		case opUlt, opUle:
			if a.k > mask(nw) {
				return tt.fls
			}
			return tt.Cmp(op, tt.Const(a.k, nw), b.a)
		case opSlt, opSle:
			sa := sext(a.k, a.w)
			if sa < 0 {
				return tt.tru
			}
			if uint64(sa) > mask(nw) {
				return tt.fls
			}
			u := opUlt
			if op == opSle {
				u = opUle
			}
			return tt.Cmp(u, tt.Const(uint64(sa), nw), b.a)
		}
	}
	if a.op == opZExt && b.op == opZExt && a.a.w == b.a.w {
		u := op
		if op == opSlt {
			u = opUlt
		} else if op == opSle {
			u = opUle
		}
		return tt.Cmp(u, a.a, b.a)
	}
	if (op == opSlt || op == opSle) && a.w == 64 {
		if r := tt.linCmp(op, a, b); r != nil {
			return r
		}
	}
	switch op {
	case opUlt:
		if b.isConst() && b.k == 0 {
			return tt.fls
		}
		if a.isConst() && a.k == mask(a.w) {
			return tt.fls
		}
	case opUle:
		if a.isConst() && a.k == 0 {
			return tt.tru
		}
		if b.isConst() && b.k == mask(b.w) {
			return tt.tru
		}
	}
	return tt.mk(op, 0, a, b, nil, 0)
}

func evalCmp(op Op, x, y uint64, w uint8) bool {
	switch op {
	case opUlt:
		return x < y
	case opUle:
		return x <= y
	case opSlt:
		return sext(x, w) < sext(y, w)
	case opSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case opAdd:
		return (x + y) & m
	case opSub:
		return (x - y) & m
	case opMul:
		return (x * y) & m
	case opUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case opURem:
		if y == 0 {
			return x
		}
		return x % y
	case opSDiv:
		if y == 0 {
			if sext(x, w) >= 0 {
				return m
			}
			return 1
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case opSRem:
		if y == 0 {
			return x
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case opBAnd:
		return x & y
	case opBOr:
		return x | y
	case opBXor:
		return x ^ y
	case opShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case opLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case opAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("evalBin")
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %s width mismatch %d %d", opName[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return tt.Const(evalBin(op, a.k, b.k, w), w)
	}
	// canonicalise: constant on the right for commutative operations
	switch op {
	case opAdd, opMul, opBAnd, opBOr, opBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case opAdd, opSub, opBOr, opBXor, opShl, opLShr, opAShr:
			if b.k == 0 {
				return a
			}
		}
		switch op {
		case opMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case opBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == opZExt && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		case opUDiv, opSDiv:
			if b.k == 1 {
				return a
			}
		case opSub:
			return tt.Bin(opAdd, a, tt.Const(-b.k, w))
		case opAdd:
			if a.op == opAdd && a.b.isConst() {
				return tt.Bin(opAdd, a.a, tt.Const(a.b.k+b.k, w))
			}
		}
		if a.op == opIte && constLeaves(a, 0) {
			return tt.Ite(a.a, tt.Bin(op, a.b, b), tt.Bin(op, a.c, b))
		}
	} else if a.isConst() && b.op == opIte && constLeaves(b, 0) {
		return tt.Ite(b.a, tt.Bin(op, a, b.b), tt.Bin(op, a, b.c))
	}
	if w == 64 && (op == opAdd || op == opSub) {
		if r := tt.linBin(op, a, b); r != nil {
			return r
		}
	}
	if a == b {
		switch op {
		case opSub, opBXor:
			return tt.Const(0, w)
		case opBAnd, opBOr:
			return a
		}
	}
	return tt.mk(op, w, a, b, nil, 0)
}

func (tt *TermTable) Un(op Op, a *Term) *Term {
	if a.isConst() {
		switch op {
		case opBNot:
			return tt.Const(^a.k, a.w)
		case opNeg:
			return tt.Const(-a.k, a.w)
		}
	}
	if a.op == opIte && constLeaves(a, 0) {
		return tt.Ite(a.a, tt.Un(op, a.b), tt.Un(op, a.c))
	}
	return tt.mk(op, a.w, a, nil, nil, 0)
}

// Resize converts a term to width w; signed says how to widen.
func (tt *TermTable) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w < a.w || !signed {
			return tt.Const(a.k, w)
		}
		return tt.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.op == opIte && constLeaves(a, 0) {
		return tt.Ite(a.a, tt.Resize(a.b, w, signed), tt.Resize(a.c, w, signed))
	}
	if w < a.w {
		if a.op == opZExt || a.op == opSExt {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return tt.Resize(a.a, w, false)
			}
			return tt.Resize(a.a, w, a.op == opSExt)
		}
		return tt.mk(opExtract, w, a, nil, nil, 0)
	}
	if a.op == opZExt {
		return tt.Resize(a.a, w, false)
	}
	if signed {
		return tt.mk(opSExt, w, a, nil, nil, 0)
	}
	return tt.mk(opZExt, w, a, nil, nil, 0)
}

// ---- evaluation under the current model

func (tt *TermTable) setModel(m map[*Term]uint64) {
	tt.model = m
	tt.gen++
}

func (tt *TermTable) Eval(t *Term) uint64 {
	switch t.op {
	case opConst:
		return t.k
	case opVar:
		return tt.model[t]
	}
	if t.evGen == tt.gen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case opNot:
		v = 1 - tt.Eval(t.a)
	case opAnd:
		v = tt.Eval(t.a)
		if v != 0 {
			v = tt.Eval(t.b)
		}
	case opOr:
		v = tt.Eval(t.a)
		if v == 0 {
			v = tt.Eval(t.b)
		}
	case opEq:
		if tt.Eval(t.a) == tt.Eval(t.b) {
			v = 1
		}
	case opUlt, opUle, opSlt, opSle:
		if evalCmp(t.op, tt.Eval(t.a), tt.Eval(t.b), t.a.w) {
			v = 1
		}
	case opBNot:
		v = ^tt.Eval(t.a) & mask(t.w)
	case opNeg:
		v = -tt.Eval(t.a) & mask(t.w)
	case opZExt, opExtract:
		v = tt.Eval(t.a) & mask(t.w)
	case opSExt:
		v = uint64(sext(tt.Eval(t.a), t.a.w)) & mask(t.w)
	case opIte:
		if tt.Eval(t.a) != 0 {
			v = tt.Eval(t.b)
		} else {
			v = tt.Eval(t.c)
		}
	default:
		v = evalBin(t.op, tt.Eval(t.a), tt.Eval(t.b), t.w)
	}
	t.evGen = tt.gen
	t.evVal = v
	return v
}

// ---- SMT-LIB printing

func (t *Term) ref() string {
	switch t.op {
	case opConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.k)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.k)
	case opVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) sortName() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (t *Term) body() string {
	switch t.op {
	case opZExt, opSExt:
		return fmt.Sprintf("((_ %s %d) %s)", opName[t.op], t.w-t.a.w, t.a.ref())
	case opExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func bitLen(n uint64) int { return bits.Len64(n) }

// ---- linear sums of 64-bit terms

type linForm struct {
	atoms []*Term
	coef  []int // +1 or -1 times a count
	k     uint64
}

func (l *linForm) add(t *Term, n int) bool {
	switch {
	case t.isConst():
		l.k += t.k * uint64(n)
		return true
	case t.op == opAdd:
		return l.add(t.a, n) && l.add(t.b, n)
	case t.op == opSub:
		return l.add(t.a, n) && l.add(t.b, -n)
	}
	for i, a := range l.atoms {
		if a == t {
			l.coef[i] += n
			if l.coef[i] == 0 {
				l.atoms = append(l.atoms[:i], l.atoms[i+1:]...)
				l.coef = append(l.coef[:i], l.coef[i+1:]...)
			}
			return true
		}
	}
	if len(l.atoms) >= 16 {
		return false
	}
	l.atoms = append(l.atoms, t)
	l.coef = append(l.coef, n)
	return true
}

func linSize(t *Term) int {
	switch t.op {
	case opConst:
		return 0
	case opAdd, opSub:
		return linSize(t.a) + linSize(t.b)
	}
	return 1
}

// linBin cancels equal summands of a sum or difference; nil if there are none.
func (tt *TermTable) linBin(op Op, a, b *Term) *Term {
	sum := func(t *Term) bool { return t.op == opAdd || t.op == opSub }
	if !sum(a) && !sum(b) {
		return nil
	}
	n := linSize(a) + linSize(b)
	if n > 16 {
		return nil
	}
	var l linForm
	l.add(a, 1)
	if op == opAdd {
		l.add(b, 1)
	} else {
		l.add(b, -1)
	}
	m := 0
	for _, c := range l.coef {
		if c < 0 {
			c = -c
		}
		m += c
	}
	if m >= n {
		return nil
	}
	var r *Term
	for pass := 0; pass < 2; pass++ {
		for i, t := range l.atoms {
			for c := l.coef[i]; c > 0 && pass == 0; c-- {
				if r == nil {
					r = t
				} else {
					r = tt.mk(opAdd, 64, r, t, nil, 0)
				}
			}
			for c := l.coef[i]; c < 0 && pass == 1; c++ {
				if r == nil {
					r = tt.Const(0, 64)
				}
				r = tt.mk(opSub, 64, r, t, nil, 0)
			}
		}
	}
	if r == nil {
		return tt.Const(l.k, 64)
	}
	if l.k != 0 {
		r = tt.mk(opAdd, 64, r, tt.Const(l.k, 64), nil, 0)
	}
	return r
}

// linCmp decides or shrinks a signed comparison of sums that are known not
// to overflow, because their summands are zero-extended narrow terms; nil
// if it cannot do anything.
func (tt *TermTable) linCmp(op Op, a, b *Term) *Term {
	const lim = int64(1) << 58
	fits := func(t *Term) bool {
		// every intermediate sum is in range if the sum of all
		// magnitudes is
		var mag int64
		var walk func(t *Term) bool
		walk = func(t *Term) bool {
			switch t.op {
			case opConst:
				v := int64(t.k)
				if v < 0 {
					v = -v
				}
				if v < 0 || v >= lim {
					return false
				}
				mag += v
			case opAdd, opSub:
				return walk(t.a) && walk(t.b)
			case opZExt:
				if t.a.w >= 58 {
					return false
				}
				mag += int64(mask(t.a.w))
			default:
				return false
			}
			return mag < lim
		}
		return walk(t)
	}
	if a.op != opAdd && a.op != opSub && b.op != opAdd && b.op != opSub {
		return nil
	}
	if linSize(a)+linSize(b) > 16 || !fits(a) || !fits(b) {
		return nil
	}
	var l linForm
	l.add(a, 1)
	l.add(b, -1)
	// left: positive summands, right: negative ones
	k := int64(l.k)
	var lmax, rmax int64
	for i, t := range l.atoms {
		m := int64(mask(t.a.w)) * int64(l.coef[i])
		if m > 0 {
			lmax += m
		} else {
			rmax -= m
		}
	}
	if k > 0 {
		lmax += k
	} else {
		rmax -= k
	}
	max := lmax
	if rmax > max {
		max = rmax
	}
	if max <= 0 {
		return tt.Bool(op == opSle)
	}
	w := uint8(bitLen(uint64(max)))
	left, right := tt.Const(0, w), tt.Const(0, w)
	for i, t := range l.atoms {
		x := tt.Resize(t.a, w, false)
		for c := l.coef[i]; c > 0; c-- {
			left = tt.Bin(opAdd, left, x)
		}
		for c := l.coef[i]; c < 0; c++ {
			right = tt.Bin(opAdd, right, x)
		}
	}
	if k > 0 {
		left = tt.Bin(opAdd, left, tt.Const(uint64(k), w))
	} else {
		right = tt.Bin(opAdd, right, tt.Const(uint64(-k), w))
	}
	u := opUlt
	if op == opSle {
		u = opUle
	}
	return tt.Cmp(u, left, right)
}
