package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC09 plays n steps (MAIL FROM:<>, MAIL FROM:<a@b>, RCPT TO, RSET, EHLO with
// another name, DATA) against rules whose operations have any truth value and
// compares every reply with the documented handling of the null sender.
func zzC09(n int) {
	zzTruths(4)
	l := env.LookupIP
	// one operation may differ between the two HELO names
	hp, hq := verif.Bool("helo p"), verif.Bool("helo q")
	env.LookupIP = func(name string) (zzIPs, error) {
		switch name {
		case "p.x.h.bl.":
			if hp {
				return zzIPs{{127, 0, 0, 2}}, nil
			}
			return nil, env.NoHost
		case "q.x.h.bl.":
			if hq {
				return zzIPs{{127, 0, 0, 2}}, nil
			}
			return nil, env.NoHost
		}
		return l(name)
	}
	// who the first two rules apply to: everyone, the null sender only
	only := []string{"", "from <> ", "not from a@b "}[verif.Choose("only", 3)]
	act := []string{"reject ", "stall "}
	k := verif.Choose("acts", 2)
	zzServeBare("@from set-with " + zzOp(0) + " with note snote message smsg\n" +
		"@from " + act[k] + only + "dbl ehlo h.bl with message m0 note n0\n" +
		"@from " + act[1-k] + only + zzOp(1) + "\n" +
		"@from accept all\n" +
		"@to reject " + zzOp(2) + " with message m2\n" +
		"@to stall to z@z " + zzOp(3) + " with message m3\n" +
		"accept all with note late\n")
	steps := []env.Step{zzEhlo("p.x")}
	for i := 0; i < n; i++ {
		var st env.Step
		switch verif.Choose("step", 6) {
		case 0:
			st = zzMail("")
		case 1:
			st = zzMail("a@b")
		case 2:
			st = zzRcpt("u@v")
		case 3:
			st = zzRset
		case 4:
			st = zzEhlo("q.x")
		case 5:
			st = zzData("hi\r\n")
		}
		steps = append(steps, st)
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	// the model
	state := 0 // 0 helo done, 1 mail accepted, 2 rcpt accepted
	h := hp
	def := 0     // deferred verdict class or 0
	defmsg := -1 // its message
	cls := []int{5, 4}
	pos := 1 // reply 0 is the greeting
	next := func() env.Reply {
		var r env.Reply
		if pos < len(s.Replies) {
			r = s.Replies[pos]
		}
		pos++
		return r
	}
	next() // EHLO
	notes := 0
	for _, st := range steps[1:] {
		r := next()
		verif.Assert(r.Kind == st.Kind, "a command was not answered")
		switch st.Kind {
		case "ehlo":
			if state != 0 {
				continue
			}
			h = hq
			def = 0
		case "rset":
			state = 0
		case "mail":
			if state != 0 {
				verif.Assert(r.Own, "model")
				continue
			}
			def, defmsg = 0, -1
			applies := only == "" || st.Arg == ""
			v := 2
			m := verif.IteInt(zzT[0], 9, -1)
			if applies {
				v = verif.IteInt(h, cls[k], verif.IteInt(zzT[1], cls[1-k], 2))
				m = verif.IteInt(h, 0, m)
			}
			vv := verif.ConcreteInt(v)
			if st.Arg == "" {
				verif.Assert(r.Class == 2, "MAIL FROM:<> was refused")
				if vv != 2 {
					def, defmsg = vv, verif.ConcreteInt(m)
				}
				state = 1
			} else {
				verif.Assert(r.Class == vv, "a non-null sender is not answered as the rules say")
				if vv == 2 {
					state = 1
				}
			}
		case "rcpt":
			if state == 0 {
				verif.Assert(r.Own, "model")
				continue
			}
			if def != 0 {
				verif.Assert(r.Class == def, "RCPT TO after MAIL FROM:<> does not get the deferred verdict")
				verif.Assert(strings.Contains(r.Msg, "m0") == (defmsg == 0), "RCPT TO after MAIL FROM:<> does not get the deferred message")
				verif.Assert(strings.Contains(r.Msg, "smsg") == (defmsg == 9), "RCPT TO after MAIL FROM:<> does not get the deferred message")
				if defmsg == 0 {
					notes++
				}
			} else {
				verif.Assert(verif.Iff(r.Class == 5, zzT[2]), "a recipient is refused though nothing was deferred")
				verif.Assert(r.Class != 4, "a recipient is stalled though nothing was deferred")
				if r.Class == 2 {
					state = 2
				}
			}
		case "data":
			if state != 2 {
				verif.Assert(r.Own, "model")
				continue
			}
			verif.Assert(r.Class == 3, "DATA is refused after recipients were accepted")
			if r.Class == 3 {
				next()
			}
			state = 0
		}
	}
	// a deferred verdict's note is logged where it takes effect
	own := strings.Count(zzLog("/log/smtp"), "rule note: n0")
	n0 := 0
	for _, r := range s.Replies {
		if r.Kind == "mail" && !r.Own && r.Arg != "" && r.Class != 2 && strings.Contains(r.Msg, "m0") {
			n0++
		}
	}
	verif.Assert(own == notes+n0, "the options of a deferred verdict do not apply at each RCPT TO")
}

// 4 steps of MAIL FROM:<>, MAIL FROM:<a@b>, RCPT TO, RSET, EHLO with another
// name, DATA; 7 rules with any truth values, one differing between the two
// HELO names
func VerifC09_seq() { zzC09(4) }

// as above, 5 steps
func VerifC09_seq_deep() { zzC09(5) }

// any sender of up to 2 characters (thorough: 3) of blank, '<', '.', '@' and a
// letter, refused by a rule for everyone: only the empty one is accepted with
// the refusal at each of two RCPT TOs, all others are refused at once
func VerifC09_who() {
	n := 2
	if verif.Deep() {
		n = 3
	}
	f := verif.StringIn("from", verif.Choose("len", n+1), " .<@a")
	k := verif.Choose("act", 2)
	zzServeBare("@from " + []string{"reject", "stall"}[k] + " all with message m0\n")
	s := zzRun(zzCl, zzEhlo("p.x"), zzMail(f), zzRcpt("u@v"), zzRcpt("u@w"), zzRset, zzMail("b@c"))
	zzObs(s)
	m := zzReply(s, "mail", 0)
	if len(f) == 0 {
		verif.Assert(m.Class == 2, "MAIL FROM:<> was refused")
		for i := 0; i < 2; i++ {
			r := zzReply(s, "rcpt", i)
			verif.Assert(r.Class == 5-k && r.Msg == "m0", "the refusal of the null sender does not fall on RCPT TO")
		}
		m = zzReply(s, "mail", 1)
	}
	verif.Assert(m.Class == 5-k && m.Msg == "m0", "a sender other than the null one is not refused at once")
}
