package main

import (
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// rules looking at recipients, with their value for one recipient (a: is
// a@x, b: is b@x, t: an operation of any truth value)
var zzC10 = []struct {
	text string
	val  func(a, b, t bool) bool
}{
	{"to a@x", func(a, b, t bool) bool { return a }},
	{"not to a@x", func(a, b, t bool) bool { return !a }},
	{"to a@x to b@x", func(a, b, t bool) bool { return false }},
	{"not to a@x not to b@x", func(a, b, t bool) bool { return verif.And(!a, !b) }},
	{"to a@x or to b@x", func(a, b, t bool) bool { return verif.Or(a, b) }},
	{"to a@x " + zzOp(0), func(a, b, t bool) bool { return verif.And(a, t) }},
	{zzOp(0) + " or not to b@x", func(a, b, t bool) bool { return verif.Or(t, !b) }},
	{"not (to a@x or " + zzOp(0) + ")", func(a, b, t bool) bool { return verif.And(!a, !t) }},
	{"from q@r to a@x ; from z@z ; to b@x " + zzOp(0), func(a, b, t bool) bool { return verif.Or(a, verif.And(b, t)) }},
	{"to-has unqualified not to b@x", func(a, b, t bool) bool { return !b }},
	{"all", func(a, b, t bool) bool { return true }},
	{zzOp(0), func(a, b, t bool) bool { return t }},
}

func zzC10Run(n1, n2 int, end env.Step, shape, e, act int) {
	zzTruths(1)
	r := zzC10[e]
	A := []string{"reject ", "stall "}[act]
	kind := verif.Choose("kind", 2)
	pre := "@to stall to c@x" + []string{"", " with message m note n"}[kind] + "\n@to accept all\n"
	ph := "data"
	switch shape {
	case 0:
		pre += "@data " + A + r.text + "\n"
	case 1:
		pre += "@message " + A + r.text + "\n"
		ph = "msg"
	case 2: // without a phase: masked up to RCPT TO
		pre = "@connect accept all\n@helo accept all\n@from accept all\n" + pre + A + r.text + "\n"
	case 3: // masked up to DATA
		pre = "@connect accept all\n@helo accept all\n@from accept all\n@data accept all\n" + pre + A + r.text + "\n"
		ph = "msg"
	}
	zzServeBare(pre)
	steps := []env.Step{zzEhlo("x.y"), zzMail("q@r")}
	var who []string
	for i := 0; i < n1+n2; i++ {
		if i == n1 {
			if end.Kind != "" {
				steps = append(steps, end, zzRsetIf)
			}
			from := "q@r"
			if e != 8 && kind == 1 {
				from = ""
			}
			steps = append(steps, zzMail(from))
		}
		a := verif.StringIn("rcpt", 1, "abcd")
		who = append(who, a)
		steps = append(steps, zzRcpt(a+"@x"))
	}
	steps = append(steps, zzData("hi\r\n"))
	s := zzRun(zzCl, steps...)
	zzObs(s)
	want, any := false, false
	for i := n1; i < n1+n2; i++ {
		ok := !verif.EqStr(who[i], "c")
		any = verif.Or(any, ok)
		want = verif.Or(want, verif.And(ok, r.val(verif.EqStr(who[i], "a"), verif.EqStr(who[i], "b"), zzT[0])))
	}
	// the last transaction's DATA and message replies
	var d, m env.Reply
	for _, x := range s.Replies {
		if x.Kind == "data" {
			d, m = x, env.Reply{}
		}
		if x.Kind == "msg" {
			m = x
		}
	}
	if d.Own {
		verif.Assert(!any, "DATA not reached though a recipient was accepted")
		return
	}
	cls := []int{5, 4}[act]
	got := d.Class
	if ph == "msg" {
		verif.Assert(d.Class == 3, "DATA is refused by a rule for another phase")
		got = m.Class
	}
	verif.Assert(verif.Iff(got == cls, want), "a rule on recipients does not see exactly the accepted recipients of this transaction")
	verif.Assert(verif.Or(got == cls, got == 2, got == 3), "wrong reply class")
}

// 12 rules on recipients at DATA or message time, with an explicit phase or
// not, two actions; 1-3 recipients a@x, b@x, c@x (refused, with
// or without options) or d@x
func VerifC10_one() {
	zzC10Run(0, 1+verif.Choose("n", 3), env.Step{}, verif.Choose("shape", 4), verif.Choose("rule", len(zzC10)), verif.Choose("act", 2))
}

// as above, after an earlier transaction with 2 recipients ended by RSET or
// EHLO, or completed with a message, (1-2 recipients; with options,
// from the null sender)
func VerifC10_two() {
	n := 2
	if verif.Deep() {
		n = 3
	}
	zzC10Run(2, 1+verif.Choose("n", n), []env.Step{zzRset, zzData("first\r\n")}[verif.Choose("end", 2)], verif.Choose("shape", 4), verif.Choose("rule", len(zzC10)), 0)
}

// six recipients, each arbitrary, and a rule at DATA or message time that
// looks for two of them
func VerifC10_many() {
	ph := 4 + verif.Choose("phase", 2)
	zzServeBare("@" + zzPh[ph] + " reject to a@x\n@" + zzPh[ph] + " stall to b@x\n")
	steps := []env.Step{zzEhlo("h"), zzMail("f@x")}
	a, b := false, false
	for i := 0; i < 6; i++ {
		r := verif.StringIn("to", 1, "abc")
		a, b = verif.Or(a, r[0] == 'a'), verif.Or(b, r[0] == 'b')
		steps = append(steps, zzRcpt(r+"@x"))
	}
	s := zzRun(zzCl, append(steps, zzData("hi\r\n"))...)
	zzObs(s)
	ok := 3
	if ph == 5 {
		ok = 2
	}
	verif.Assert(zzReply(s, zzKind[ph], 0).Class == verif.IteInt(a, 5, verif.IteInt(b, 4, ok)), "not every accepted recipient is looked at")
}
