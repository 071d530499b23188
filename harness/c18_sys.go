package main

import (
	"strconv"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

var zzC18Phases = []string{"helo", "from", "to", "data", "message", "accepted"}

const zzC18D = int64(3600) * 1000000000

// zzC18Ref is the record of one client address.
type zzC18Ref struct {
	cnt  int
	last int64
}

func (r *zzC18Ref) stalled(n int) bool {
	if n == 0 || r.cnt == 0 {
		return false
	}
	if env.NowNS-r.last >= zzC18D {
		return false
	}
	return r.cnt >= n
}

func (r *zzC18Ref) fail() {
	if r.cnt > 0 && env.NowNS-r.last >= zzC18D {
		r.cnt = 0
	}
	r.cnt++
	r.last = env.NowNS
}

// zzC18Boot: rules accept everything but refuse a message containing nothing
func zzC18Boot(n int, phase string) {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.FlagStr["smtplog"] = "/log/smtp"
	if n > 0 {
		env.FlagStr["dnlog"] = "/log/dn"
	}
	env.FlagStr["minphase"] = phase
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	env.FlagBool["nostdrules"] = true
	env.FlagInt["dncount"] = n
	env.FlagDur["dndur"] = zzC18D
	env.Put("/rules", zzC18Rules)
	env.NowNS = 1000000000000000
	zzMustBoot()
}

const zzC18Rules = "@helo reject helo refused\n@message reject to rej@\n"

// zzC18Steps: a session that gets depth steps far (0 nothing, 1 EHLO, 2 MAIL
// FROM, 3 RCPT TO, 4 DATA but the connection breaks, 5 message rejected,
// 6 message accepted)
func zzC18Steps(depth int) []env.Step {
	all := []env.Step{zzEhlo("h"), zzMail("f@x"), zzRcpt("u@x"), {Kind: "data", Data: "hi", Cut: true}}
	switch depth {
	case 5:
		return []env.Step{zzEhlo("h"), zzMail("f@x"), zzRcpt("rej@x"), zzData("hi")}
	case 6:
		return []env.Step{zzEhlo("h"), zzMail("f@x"), zzRcpt("u@x"), zzData("hi")}
	}
	return all[:depth]
}

// zzC18Sess runs a session and checks whether it is stalled.
func zzC18Sess(remote string, want bool, steps ...env.Step) *env.Session {
	before := len(zzLog("/log/smtp"))
	s := zzRun(remote, steps...)
	zzObs(s)
	verif.Observe("stalled", want)
	if want {
		for _, r := range s.Replies {
			if r.Own {
				continue // out of sequence
			}
			switch r.Kind {
			case "ehlo", "helo", "mail", "rcpt", "data", "msg":
				verif.Assert(r.Class == 4, "a do-nothing client is not stalled")
			}
		}
		verif.Assert(!s.HasLog, "the session of a stalled client is logged")
		verif.Assert(len(zzLog("/log/smtp")) == before, "the session of a stalled client is logged")
		verif.Cover("stalled")
	} else {
		verif.Assert(s.HasLog, "the session of a client that is not stalled is not logged")
		if len(steps) > 0 && steps[0].Kind == "ehlo" && steps[0].Arg != "refused" {
			verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "a client is stalled that should not be")
		}
	}
	return s
}

func zzC18Wait() {
	env.NowNS += int64(verif.Int("gap", 0, 2*int(zzC18D)))
}

// zzC18Seq: k sessions of one client, each failing or just reaching the
// minimum phase, arbitrary times between them
func zzC18Seq(maxn, k int, phases []string) {
	n := verif.Choose("dncount", maxn+1)
	p := verif.Choose("minphase", len(phases))
	zzC18Boot(n, phases[p])
	need := 0
	for i, ph := range zzC18Phases {
		if ph == phases[p] {
			need = i + 1
		}
	}
	ref := &zzC18Ref{}
	for i := 0; i < k; i++ {
		zzC18Wait()
		reach := verif.Bool("reach")
		want := ref.stalled(n)
		d := need
		if !reach {
			d = need - 1
		}
		steps := zzC18Steps(d)
		port := strconv.Itoa(1000 + i)
		zzC18Sess("192.0.2.1:"+port, want, steps...)
		if want {
			continue
		}
		if reach {
			ref.cnt = 0
		} else {
			ref.fail()
		}
	}
	zzC18Wait()
	zzC18Sess(zzCl, ref.stalled(n), zzEhlo("h"))
}

// -dncount 0..2, every -minphase, 3 sessions each failing or just reaching
// the phase and then a probe, arbitrary times (0..2 windows, ns resolution)
// between them
func VerifC18_seq() { zzC18Seq(2, 3, zzC18Phases) }

// -dncount 0..4, 6 sessions, -minphase helo and accepted
func VerifC18_seq_deep() { zzC18Seq(4, 6, []string{"helo", "accepted"}) }

// zzC18Kinds: sessions of every kind from two addresses
func zzC18Kinds(n, k int) {
	zzC18Boot(n, "from")
	var refs [2]zzC18Ref
	ips := []string{"192.0.2.1", "192.0.2.2"}
	for i := 0; i < k; i++ {
		zzC18Wait()
		kind := verif.Choose("kind", 10)
		who := 0
		if kind == 8 {
			kind, who = 1, 1
		}
		ref := &refs[who]
		want := ref.stalled(n)
		remote := ips[who] + ":" + strconv.Itoa(1000+i)
		var steps []env.Step
		counts, reach, broken := true, false, false
		switch kind {
		case 0: // nothing at all
		case 1:
			steps = []env.Step{zzEhlo("h")}
		case 2: // refused
			steps = []env.Step{zzEhlo("refused")}
		case 3: // breaks off
			steps = []env.Step{zzEhlo("h"), {Kind: "abort"}}
		case 4: // a TLS error
			steps = []env.Step{zzEhlo("h"), {Kind: "badtls"}}
			counts = false
		case 5: // while the rules are broken
			steps = []env.Step{zzEhlo("h")}
			counts = false
			broken = true
		case 6:
			steps = []env.Step{zzEhlo("h"), zzMail("f@x")}
			reach = true
		case 7:
			steps = []env.Step{zzEhlo("h"), zzMail("f@x"), zzRcpt("u@x"), zzData("hi")}
			reach = true
		case 9: // a TLS error after the phase was reached
			steps = []env.Step{zzEhlo("h"), zzMail("f@x"), zzRset, {Kind: "badtls"}}
			reach = true
		}
		if broken {
			env.Put("/rules", "accept bogus\n")
			s := zzRun(remote, steps...)
			zzObs(s)
			verif.Assert(zzReply(s, "ehlo", 0).Class == 4, "broken rules do not stall")
			verif.Assert(s.HasLog == !want, "stalled clients, and only they, go unlogged")
			env.Put("/rules", zzC18Rules)
		} else {
			zzC18Sess(remote, want, steps...)
		}
		switch {
		case want || !counts:
		case reach:
			ref.cnt = 0
		default:
			ref.fail()
		}
	}
	zzC18Wait()
	w := verif.Choose("probe", 2)
	zzC18Sess(ips[w]+":9", refs[w].stalled(n), zzEhlo("h"))
}

// sessions of 10 kinds (nothing, EHLO only, EHLO refused, connection broken,
// TLS error, broken rules, minimum phase just reached, message accepted,
// another client, a TLS error after the phase was reached), two of them and a probe, -dncount 1, -minphase from
func VerifC18_kinds1() { zzC18Kinds(1, 2) }

// the same with three sessions and -dncount 2
func VerifC18_kinds2() { zzC18Kinds(2, 3) }

// the same with four sessions and -dncount 3
func VerifC18_kinds3_deep() { zzC18Kinds(3, 4) }

// a client is never stalled for sessions dropped at connect time, nor by
// those of others; -dncount 1
func VerifC18_connect() {
	zzTruths(1)
	zzC18Boot(1, "helo")
	env.Put("/rules", "@connect reject "+zzOp(0)+"\n")
	drop := zzT[0]
	s := zzRun(zzCl)
	zzObs(s)
	zzT[0] = false
	s = zzRun("192.0.2.1:1001", zzEhlo("h"))
	zzObs(s)
	r := zzReply(s, "ehlo", 0)
	if drop {
		verif.Assert(r.Class == 2, "a connection dropped by a rule counts as a failure")
	} else {
		verif.Assert(r.Class == 4, "a do-nothing client is not stalled")
	}
	s = zzRun("192.0.2.11:1001", zzEhlo("h"))
	verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "another client is stalled")
}

// several transactions in a session without reaching the phase: after too
// many the session ends with 4xx and the client is stalled; -dncount 1..2
func VerifC18_rset() {
	n := 1 + verif.Choose("dncount", 2)
	zzC18Boot(n, "to")
	m := 1 + verif.Choose("mails", 4)
	steps := []env.Step{zzEhlo("h")}
	for i := 0; i < m; i++ {
		steps = append(steps, zzMail("f@x"), zzRset)
	}
	reach := verif.Bool("reach")
	if reach {
		steps = append(steps, zzMail("f@x"), zzRcpt("u@x"))
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	total := m
	if reach {
		total++
	}
	// each MAIL FROM after the first adds one failure; more than n of
	// them end the session
	for i := 0; i < total && i <= n; i++ {
		verif.Assert(zzReply(s, "mail", i).Class == 2, "a transaction is refused too early")
	}
	if total-1 > n {
		verif.Assert(zzReply(s, "mail", n+1).Class == 4, "endless failing transactions are not stopped")
	}
	fails := total
	stalled := fails >= n
	if reach && total-1 <= n {
		verif.Assert(zzReply(s, "rcpt", 0).Class == 2, "the session does not reach the phase")
		stalled = false
	}
	s = zzRun("192.0.2.1:1001", zzEhlo("h"))
	zzObs(s)
	verif.Assert(verif.Iff(zzReply(s, "ehlo", 0).Class == 4, stalled), "repeated transactions are not counted as failures")
}
