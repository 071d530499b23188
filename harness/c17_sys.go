package main

import (
	"fmt"

	"github.com/siebenmann/sinksmtp/zz/crypto/sha1"
	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC17Msg is one delivery.
type zzC17Msg struct {
	data, from, rcpt, helo string
	two                    bool // a second recipient
	remote                 string
	sec                    int64
	tls                    bool
	state                  int // which TLS parameter is different
	rdns                   int
}

func zzC17State(k int) tls.ConnectionState {
	st := tls.ConnectionState{Version: 0x0303, CipherSuite: 0xc02f}
	switch k {
	case 1:
		st.Version = 0x0304
	case 2:
		st.CipherSuite = 0xc030
	case 3:
		st.CipherSuite = 0xfff1
	case 4:
		st.ServerName = "sni.example"
	}
	return st
}

func zzC17Steps(m zzC17Msg) []env.Step {
	steps := []env.Step{zzEhlo("first." + "h")}
	if m.tls {
		steps = append(steps, env.Step{Kind: "starttls", TLS: zzC17State(m.state)})
	}
	steps = append(steps, zzEhlo(m.helo), zzMail(m.from), zzRcpt(m.rcpt))
	if m.two {
		steps = append(steps, zzRcpt("second@x"))
	}
	return append(steps, zzData(m.data))
}

func zzC17Boot(hash string, save bool) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	if save {
		env.FlagStr["d"] = "/save"
	} else {
		env.FlagBool["force-receive"] = true
	}
	env.FlagStr["save-hash"] = hash
	env.FlagStr["l"] = "/log/msg"
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	zzMustBoot()
}

var zzC17RDNS = 0

func zzC17Send(m zzC17Msg) env.Reply {
	env.NowNS = 1000000000000000 + m.sec
	env.LookupAddr = func(ip string) ([]string, error) {
		if m.rdns == 0 {
			return nil, env.NoHost
		}
		return []string{[]string{"", "a.x.", "b.x."}[m.rdns]}, nil
	}
	s := zzRun(m.remote, zzC17Steps(m)...)
	zzObs(s)
	return zzReply(s, "msg", 0)
}

// zzC17Pair: two deliveries with arbitrary message, sender, recipient and HELO
// name (2, 1, 1 and 1 bytes), with or without a second recipient, TLS and
// reverse DNS, and differing (or not) in one of: second recipient, client port,
// client address, TLS, TLS parameters, reverse DNS, time
func zzC17Pair(hash int) {
	zzC17Boot(zzHashes[hash], true)
	mk := func() zzC17Msg {
		return zzC17Msg{data: "x\n\n" + verif.StringN("data", 2), from: verif.StringIn("from", 1, "abc<>@ ") + "@f", rcpt: verif.StringIn("rcpt", 1, "abc<>@ ") + "@t",
			helo: verif.StringIn("helo", 1, "abc' ") + ".h", remote: zzCl}
	}
	a, b := mk(), mk()
	// what both have in common
	base := verif.Choose("base", 8)
	a.two, a.tls, a.rdns = base&1 != 0, base&2 != 0, base>>2
	b.two, b.tls, b.rdns = a.two, a.tls, a.rdns
	same := true // the rest of the metadata
	dt := int64(0)
	switch verif.Choose("differ", 9) {
	case 1:
		b.two = !a.two
		same = false
	case 2:
		b.remote = "192.0.2.1:1001"
		if verif.Choose("v6", 2) == 1 {
			a.remote, b.remote = "[2001:db8::1]:1000", "[2001:db8::1]:1001"
		}
	case 3:
		b.remote = "192.0.2.7:1000"
		same = false
	case 4:
		b.tls = !a.tls
		same = false
	case 5:
		b.rdns = 1 - a.rdns
		same = false
	case 6:
		a.rdns, b.rdns = 1, 2
		same = false
	case 8:
		b.state = 1 + verif.Choose("param", 4)
		same = !a.tls
	case 7:
		dt = 5
		b.sec = dt * 1000000000
	}
	ra, rb := zzC17Send(a), zzC17Send(b)
	verif.Assert(ra.Class == 2 && rb.Class == 2, "a message was not accepted")
	ia, ib := zzIDOf(ra.Msg), zzIDOf(rb.Msg)
	_, oka := env.Get("/save/" + ia)
	_, okb := env.Get("/save/" + ib)
	verif.Assert(oka && okb, "the ID reported is not the name of the saved file")
	deq := verif.EqStr(a.data, b.data)
	meq := verif.And(same, verif.EqStr(a.from, b.from), verif.EqStr(a.rcpt, b.rcpt), verif.EqStr(a.helo, b.helo))
	switch hash {
	case 2:
		verif.Assert(verif.Iff(ia == ib, deq), "-save-hash msg: the name does not depend on exactly the message")
	case 1:
		verif.Assert(verif.Iff(ia == ib, verif.And(deq, meq)), "-save-hash full: the name does not depend on exactly message and metadata")
	case 0:
		// two connections never have the same id
		verif.Assert(ia != ib, "-save-hash all: two connections share a name")
	}
}

// -save-hash msg
func VerifC17_msg() { zzC17Pair(2) }

// -save-hash full
func VerifC17_full() { zzC17Pair(1) }

// -save-hash all
func VerifC17_all() { zzC17Pair(0) }

// two messages in one connection, the second 0, 0.3, 1 or 1000 seconds after
// the first, arbitrary message (2 bytes), sender and recipient; all hashes
func VerifC17_session() {
	h := verif.Choose("hash", 3)
	zzC17Boot(zzHashes[h], true)
	d1, d2 := verif.StringN("data", 2), verif.StringN("data", 2)
	f1, f2 := verif.StringIn("from", 1, "ab")+"@f", verif.StringIn("from", 1, "ab")+"@f"
	r1, r2 := verif.StringIn("rcpt", 1, "ab")+"@t", verif.StringIn("rcpt", 1, "ab")+"@t"
	k := verif.Choose("time", 4)
	dt := []int64{0, 300000000, 1000000000, 1000000000000}[k]
	n := 0
	in := zzScript(zzEhlo("h"), zzMail(f1), zzRcpt(r1), zzData(d1), zzMail(f2), zzRcpt(r2), zzData(d2))
	s := env.NewSession(zzCl, zzAddr, func(s *env.Session) env.Step {
		n++
		if n == 5 {
			env.NowNS += dt
		}
		return in(s)
	})
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	a, b := zzReply(s, "msg", 0), zzReply(s, "msg", 1)
	verif.Assert(a.Class == 2 && b.Class == 2, "a message was not accepted")
	eq := zzIDOf(a.Msg) == zzIDOf(b.Msg)
	deq := verif.EqStr(d1, d2)
	meq := verif.And(verif.EqStr(f1, f2), verif.EqStr(r1, r2))
	switch h {
	case 2:
		verif.Assert(verif.Iff(eq, deq), "-save-hash msg: the name does not depend on exactly the message")
	case 1:
		verif.Assert(verif.Iff(eq, verif.And(deq, meq)), "-save-hash full: the name does not depend on exactly message and metadata")
	case 0:
		verif.Assert(verif.Iff(eq, verif.And(deq, meq, k < 2)), "-save-hash all: the name does not depend on exactly everything")
	}
}

// nothing saved: the ID is the message's hash, which is the same exactly for
// equal messages, whatever -save-hash and the metadata
func VerifC17_nosave() {
	h := verif.Choose("hash", 3)
	zzC17Boot(zzHashes[h], false)
	a := zzC17Msg{data: verif.StringN("data", 2), from: "a@f", rcpt: "u@t", helo: "h", remote: zzCl}
	b := zzC17Msg{data: verif.StringN("data", 2), from: verif.StringIn("from", 1, "ab") + "@f", rcpt: "u@t", helo: "h", remote: "192.0.2.9:4"}
	ra, rb := zzC17Send(a), zzC17Send(b)
	verif.Assert(ra.Class == 2 && rb.Class == 2, "a message was not accepted")
	ia, ib := zzIDOf(ra.Msg), zzIDOf(rb.Msg)
	verif.Assert(verif.Iff(ia == ib, verif.EqStr(a.data, b.data)), "the ID without saving is not the message's hash")
	verif.Assert(ia == fmt.Sprintf("%x", sha1.Sum([]byte(a.data))), "the ID without saving is not the message's hash")
}
