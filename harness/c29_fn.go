package main

import (
	"time"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// A reference table: what it means to do the operations one at a time.
type zzEnt struct {
	has bool
	cnt int
	old bool // expired
}

type zzTab struct{ a, b zzEnt }

type zzTOp struct {
	kind int // 0 add, 1 set, 2 delete, 3 look up, 4 statistics, 5 add for no IP, 6 delete for no IP, 7 set for no IP
	b    bool
	n    int // new count of set
}

func (t *zzTab) do(o zzTOp) (int, bool) {
	e := &t.a
	if o.b {
		e = &t.b
	}
	switch o.kind {
	case 0, 1:
		if !e.has || e.old {
			*e = zzEnt{has: true}
		}
		old := e.cnt
		if o.kind == 1 {
			e.cnt = o.n
			return old, false
		}
		e.cnt++
		return e.cnt, false
	case 2:
		*e = zzEnt{}
	case 3:
		if e.has && !e.old {
			return e.cnt, true
		}
		*e = zzEnt{}
		return 0, false
	}
	return 0, false
}

const zzTTL = time.Duration(1000)

func zzTDo(m *ipMap, o zzTOp) (int, bool) {
	ip := "a"
	if o.b {
		ip = "b"
	}
	switch o.kind {
	case 0:
		return m.Add(ip, zzTTL), false
	case 1:
		return m.Set(ip, zzTTL, o.n), false
	case 2:
		m.Del(ip)
	case 3:
		h, n := m.Lookup(ip, zzTTL)
		return n, h
	case 4:
		m.Stats()
	case 5:
		return m.Add("", zzTTL), false
	case 6:
		m.Del("")
	case 7:
		return m.Set("", zzTTL, 3), false
	}
	return 0, false
}

func zzTPick(label string) zzTOp {
	o := zzTOp{kind: verif.Choose(label, 8)}
	if o.kind < 4 {
		o.b = verif.Choose(label+".ip", 2) == 1
	}
	if o.kind == 1 {
		o.n = 7
	}
	return o
}

type zzTRes struct {
	n int
	h bool
}

// zzTabRun lets two goroutines perform ops concurrently on a table with any
// prior state, and compares with every way to do them one at a time.
func zzTabRun(na, nb, k int) {
	env.NowNS = 1000000
	m := &ipMap{ips: make(map[string]*ipEnt)}
	var t zzTab
	switch verif.Choose("prior", 3) {
	case 1:
		c := verif.Int("count", 1, 6)
		m.Set("a", zzTTL, c)
		t.a = zzEnt{has: true, cnt: c}
		env.NowNS += 999
	case 2:
		c := verif.Int("count", 1, 6)
		m.Set("a", zzTTL, c)
		t.a = zzEnt{has: true, cnt: c, old: true}
		env.NowNS += 1000
	}
	var oa, ob []zzTOp
	for i := 0; i < na; i++ {
		oa = append(oa, zzTPick("opA"))
	}
	for i := 0; i < nb; i++ {
		ob = append(ob, zzTPick("opB"))
	}
	ra := make([]zzTRes, na)
	rb := make([]zzTRes, nb)
	done := make(chan bool, 2)
	verif.Races()
	verif.Interleave(k)
	go func() {
		for i, o := range oa {
			ra[i].n, ra[i].h = zzTDo(m, o)
		}
		done <- true
	}()
	go func() {
		for i, o := range ob {
			rb[i].n, rb[i].h = zzTDo(m, o)
		}
		done <- true
	}()
	<-done
	<-done
	// what everybody sees afterwards
	var fin [2]zzTRes
	fin[0].h, fin[0].n = m.Lookup("a", zzTTL)
	fin[1].h, fin[1].n = m.Lookup("b", zzTTL)
	ok := false
	// every merge of the two sequences
	var try func(t zzTab, i, j int, good bool)
	try = func(t zzTab, i, j int, good bool) {
		if i == len(oa) && j == len(ob) {
			n, h := t.do(zzTOp{kind: 3})
			good = verif.And(good, n == fin[0].n, h == fin[0].h)
			n, h = t.do(zzTOp{kind: 3, b: true})
			good = verif.And(good, n == fin[1].n, h == fin[1].h)
			ok = verif.Or(ok, good)
			return
		}
		if i < len(oa) {
			u := t
			n, h := u.do(oa[i])
			try(u, i+1, j, verif.And(good, n == ra[i].n, h == ra[i].h))
		}
		if j < len(ob) {
			u := t
			n, h := u.do(ob[j])
			try(u, i, j+1, verif.And(good, n == rb[j].n, h == rb[j].h))
		}
	}
	try(t, 0, 0, true)
	verif.Assert(ok, "concurrent operations on a client table are not as if done one at a time")
}

// two operations (add, set, delete, look up, statistics, operations without an
// IP address) on one of two IPs at the same time, table empty or with a fresh or
// expired entry of any count 1-6; every interleaving at lock operations; no race
func VerifC29_tables() { zzTabRun(1, 1, 3) }

// two operations against one, at most 2 preemptions
func VerifC29_tables2_deep() { zzTabRun(2, 1, 2) }

// two operations against two, at most 2 preemptions
func VerifC29_tables3_deep() { zzTabRun(2, 2, 2) }

// zzRender goes through counters.
func zzRender(m map[string]uint64) (n uint64) {
	for _, v := range m {
		n += v
	}
	return n
}

// blocklist counters: two or three goroutines adding lists of names, and one
// reading; every interleaving at lock operations with at most 3 preemptions;
// the counts are the sum
func VerifC29_counts() {
	dc := &dnsblCounts{dbls: make(map[string]uint64)}
	lists := [][]string{nil, {"x"}, {"x", "y"}, {"y", "y"}}
	a := lists[verif.Choose("A", 4)]
	b := lists[verif.Choose("B", 4)]
	c := lists[verif.Choose("C", 2)]
	done := make(chan bool, 4)
	verif.Races()
	verif.Interleave(3)
	for _, l := range [][]string{a, b} {
		go func(l []string) {
			dc.Add(l)
			done <- true
		}(l)
	}
	if verif.Bool("read") {
		// as a statistics page renders it
		if m, ok := dc.Stats().(map[string]uint64); ok {
			n := zzRender(m)
			verif.Assert(n <= uint64(len(a)+len(b)), "a blocklist hit is counted twice")
		}
	}
	dc.Add(c)
	<-done
	<-done
	for _, n := range []string{"x", "y"} {
		want := uint64(0)
		for _, l := range [][]string{a, b, c} {
			for _, e := range l {
				if e == n {
					want++
				}
			}
		}
		m, _ := dc.Stats().(map[string]uint64)
		verif.Assert(m[n] == want, "a blocklist hit is lost")
	}
}
