package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

var zzActs4 = []string{"accept", "stall", "reject", "set-with"}

// three rules with any actions, each with or without a message, and any truth
// values, checked at MAIL FROM, RCPT TO and DATA; the verdict is that of the
// first matching rule that is not a set-with and the message that of the last
// match up to it
func VerifC07_first() {
	zzTruths(3)
	ph := []string{"@from ", "@to ", "@data "}[verif.Choose("phase", 3)]
	var text string
	var act [3]int
	var msg [3]bool
	for i := 0; i < 3; i++ {
		act[i] = verif.Choose("act", 4)
		msg[i] = act[i] == 3 || verif.Choose("msg", 2) == 1
		text += ph + zzActs4[act[i]] + " " + zzOp(i)
		if msg[i] {
			text += " with message msg" + string(rune('0'+i))
		}
		text += "\n"
	}
	zzServeBare(text)
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzData("hi\r\n"))
	zzObs(s)
	kind := map[string]string{"@from ": "mail", "@to ": "rcpt", "@data ": "data"}[ph]
	r := zzReply(s, kind, 0)
	verdict, m := 0, -1
	done := false
	for i := 0; i < 3; i++ {
		hit := verif.And(!done, zzT[i])
		if msg[i] {
			m = verif.IteInt(hit, i, m)
		}
		if act[i] != 3 {
			verdict = verif.IteInt(hit, act[i]+1, verdict)
			done = verif.Or(done, hit)
		}
	}
	want := 2
	if kind == "data" {
		want = 3
	}
	want = verif.IteInt(verdict == 2, 4, verif.IteInt(verdict == 3, 5, want))
	verif.Assert(r.Class == want, "the verdict is not that of the first matching rule")
	for i := 0; i < 3; i++ {
		verif.Assert(verif.Iff(strings.Contains(r.Msg, "msg"+string(rune('0'+i))), m == i), "the message in force is not that of the last match up to the deciding rule")
	}
}

// two options (message and savedir) set by two set-with rules and a deciding
// rule in any combination: each option has the value of the last matching
// rule that sets it, not touched by rules that do not set it
func VerifC07_options() {
	zzTruths(3)
	var sm, ss [3]bool
	var text string
	for i := 0; i < 3; i++ {
		k := verif.Choose("sets", 4)
		sm[i], ss[i] = k&1 == 1, k&2 == 2
		w := ""
		if sm[i] {
			w += " message msg" + string(rune('0'+i))
		}
		if ss[i] {
			w += " savedir /sd" + string(rune('0'+i))
		}
		if i < 2 && w == "" {
			verif.Reject()
		}
		act := "set-with"
		if i == 2 {
			act = "accept"
		}
		if w != "" {
			w = " with" + w
		}
		text += "@data " + act + " " + zzOp(i) + w + "\n"
		env.Mkdir("/sd" + string(rune('0'+i)))
	}
	zzServeBare(text)
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzData("hi\r\n"))
	zzObs(s)
	r := zzReply(s, "data", 0)
	m, sd := -1, -1
	for i := 0; i < 3; i++ {
		if sm[i] {
			m = verif.IteInt(zzT[i], i, m)
		}
		if ss[i] {
			sd = verif.IteInt(zzT[i], i, sd)
		}
	}
	for i := 0; i < 3; i++ {
		d := string(rune('0' + i))
		verif.Assert(verif.Iff(strings.Contains(r.Msg, "msg"+d), m == i), "wrong message in force")
		verif.Assert(verif.Iff(len(env.Paths("/sd"+d)) == 1, sd == i), "wrong savedir in force")
	}
	verif.Assert(verif.Iff(len(env.Paths("/save")) == 1, sd == -1), "wrong savedir in force")
}

// compact rules: three clauses with any truth values and messages, as a
// set-with before an accepting rule or as a deciding rule: only the first
// matching clause contributes
func VerifC07_compact() {
	zzTruths(4)
	set := verif.Choose("set", 2) == 1
	act := "reject"
	if set {
		act = "set-with"
	}
	var has [3]bool
	text := "@from " + act + " "
	for i := 0; i < 3; i++ {
		has[i] = set || verif.Choose("msg", 2) == 1
		if i > 0 {
			text += ";\n  "
		}
		text += zzOp(i)
		if has[i] {
			text += " with message msg" + string(rune('0'+i))
		}
	}
	text += "\n@from stall " + zzOp(3) + "\n"
	zzServeBare(text)
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"))
	zzObs(s)
	r := zzReply(s, "mail", 0)
	first := verif.IteInt(zzT[0], 0, verif.IteInt(zzT[1], 1, verif.IteInt(zzT[2], 2, -1)))
	for i := 0; i < 3; i++ {
		if !has[i] {
			verif.Assert(!strings.Contains(r.Msg, "msg"+string(rune('0'+i))), "message of a clause without one")
			continue
		}
		verif.Assert(verif.Iff(strings.Contains(r.Msg, "msg"+string(rune('0'+i))), first == i), "a clause other than the first matching one contributes")
	}
	want := verif.IteInt(zzT[3], 4, 2)
	if !set {
		want = verif.IteInt(first >= 0, 5, want)
	}
	verif.Assert(r.Class == want, "wrong verdict with a compact rule")
}

// options and verdicts do not leak from one decision to the next: three MAIL
// FROMs with different senders (arbitrary choice of two), set-with, stall and
// reject rules for one of them only
func VerifC07_leak() {
	rules := []string{
		"@from set-with from a@b with message msg0 note n0\n",
		"@from set-with from a@b with message msg0\n@from stall from a@b\n",
		"@from reject from a@b with message msg0\n",
		"@from set-with from a@b with message msg0\n@from reject from c@d with note n1\n",
	}
	k := verif.Choose("rules", len(rules))
	zzServeBare(rules[k])
	var is [3]bool
	var steps []env.Step
	steps = append(steps, zzEhlo("x.y"))
	for i := range is {
		a := verif.StringIn("who", 1, "ac")
		is[i] = a[0] == 'a'
		d := "@b"
		if verif.Choose("dom", 2) == 1 {
			d = "@d"
			is[i] = false
		}
		steps = append(steps, zzMail(a+d), zzRset)
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	for i := range is {
		r := zzReply(s, "mail", i)
		verif.Assert(verif.Iff(strings.Contains(r.Msg, "msg0"), is[i]), "an option leaks from one decision to the next")
		switch k {
		case 0:
			verif.Assert(r.Class == 2, "set-with gives no verdict")
		case 1:
			verif.Assert(verif.Iff(r.Class == 4, is[i]), "a verdict leaks")
		case 2:
			verif.Assert(verif.Iff(r.Class == 5, is[i]), "a verdict leaks")
		}
	}
}

// zzC07Phases: at every phase from HELO on a set-with rule of any truth value
// with its own message; n transactions in one session.
func zzC07Phases(n int) {
	zzTruths(5)
	ph := []string{"@helo", "@from", "@to", "@data", "@message"}
	text := ""
	for i, p := range ph {
		text += p + " set-with " + zzOp(i) + " with message msg" + string(rune('0'+i)) + "\n"
	}
	zzServeBare(text)
	steps := []env.Step{zzEhlo("x.y")}
	for k := 0; k < n; k++ {
		steps = append(steps, zzMail("q@r.s"), zzRcpt("u@v.w"), zzRcpt("u2@v.w"), zzData("hi\r\n"))
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	at := map[string]int{"ehlo": 0, "mail": 1, "rcpt": 2, "data": 3, "msg": 4}
	m := 0
	for _, r := range s.Replies {
		p, ok := at[r.Kind]
		if !ok {
			continue
		}
		m++
		for i := range ph {
			if i != p {
				verif.Assert(!strings.Contains(r.Msg, "msg"+string(rune('0'+i))), "the message of one decision is used in another")
			} else if r.Kind != "ehlo" {
				verif.Assert(verif.Iff(strings.Contains(r.Msg, "msg"+string(rune('0'+i))), zzT[i]), "a matching set-with rule's message is not used in its decision")
			}
		}
	}
	verif.Assert(m == 1+5*n, "the transactions do not run as expected")
}

// a set-with rule of any truth value at each of HELO, MAIL FROM, RCPT TO,
// DATA and message, with a message of its own; two transactions with two
// recipients each: every reply has the message of its own decision only
func VerifC07_phases() {
	zzC07Phases(2)
}

// an option set in one phase does not reach the deciding rule of a later
// phase: set-with at one of helo, from, to, data and a refusing rule without
// options at a later one of from, to, data, message, any truth values
func VerifC07_later() {
	zzTruths(2)
	ph := []string{"@helo", "@from", "@to", "@data", "@message"}
	kind := []string{"ehlo", "mail", "rcpt", "data", "msg"}
	a := verif.Choose("set", 4)
	b := a + 1 + verif.Choose("decide", 4-a)
	act := []string{"stall", "reject", "accept"}[verif.Choose("act", 3)]
	text := ph[a] + " set-with " + zzOp(0) + " with message msg0 note n0 savedir /sd0\n"
	text += ph[b] + " " + act + " " + zzOp(1) + "\n"
	env.Mkdir("/sd0")
	zzServeBare(text)
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzData("hi\r\n"))
	zzObs(s)
	r := zzReply(s, kind[b], 0)
	verif.Assert(!strings.Contains(r.Msg, "msg0"), "a message set in one decision is used in a later one")
	want := 2
	if kind[b] == "data" {
		want = 3
	}
	if act != "accept" {
		c := 4
		if act == "reject" {
			c = 5
		}
		want = verif.IteInt(zzT[1], c, want)
	}
	verif.Assert(r.Class == want, "an option set in one decision changes the verdict of a later one")
}

// options set by an earlier set-with rule and a compact rule of three clauses
// after it (set-with, stall or reject; any truth values; each clause with a
// message, an empty message, only a savedir or, in deciding rules, nothing),
// then another set-with rule: the clause that matches first overrides exactly
// the options it sets, whichever clause it is
func VerifC07_override() {
	zzTruths(5)
	act := []string{"set-with", "stall", "reject"}[verif.Choose("act", 3)]
	text := "@data set-with " + zzOp(0) + " with message msg0\n@data " + act + " "
	m := verif.IteInt(zzT[0], 0, 9)
	done, first := false, false
	n := [3]int{}
	for i := range n {
		k := verif.Choose("sets", 4)
		if act == "set-with" && k == 3 {
			verif.Reject()
		}
		if i > 0 {
			text += "; "
		}
		text += zzOp(1+i) + []string{" with message msg" + string(rune('1'+i)), " with message \"\"", " with savedir /sd", ""}[k]
		hit := verif.And(!first, zzT[1+i])
		if k < 2 {
			m = verif.IteInt(hit, []int{1 + i, 9}[k], m)
		}
		first = verif.Or(first, zzT[1+i])
	}
	env.Mkdir("/sd")
	text += "\n@data set-with " + zzOp(4) + " with message msg4\n"
	if act != "set-with" {
		done = first
	}
	m = verif.IteInt(verif.And(!done, zzT[4]), 4, m)
	zzServeBare(text)
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzData("hi\r\n"))
	zzObs(s)
	r := zzReply(s, "data", 0)
	want := verif.IteInt(done, map[string]int{"set-with": 3, "stall": 4, "reject": 5}[act], 3)
	verif.Assert(r.Class == want, "wrong verdict with a compact rule")
	for i := 0; i < 5; i++ {
		verif.Assert(verif.Iff(strings.Contains(r.Msg, "msg"+string(rune('0'+i))), m == i), "the message in force is not that of the last match that sets one")
	}
}
