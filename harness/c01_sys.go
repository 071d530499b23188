package main

import (
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// the whole server: 'reject from/to file:/pats' with any pattern of up to 5
// (thorough: 7) characters of '.', '<', '>', '@', 'A', 'a', 'b' in the file
// and any sender or recipient of up to 7 (9) of these characters
func VerifC01_file() {
	np, na := 5, 7
	if verif.Deep() {
		np, na = 7, 9
	}
	pat := zzStr("pat", 1, np, ".<>@Aab")
	addr := zzStr("addr", 0, na, ".<>@Aab")
	to := verif.Choose("what", 2) == 1
	if to && len(addr) == 0 {
		verif.Reject()
	}
	env.Put("/pats", pat+"\n")
	var s *env.Session
	if to {
		zzServeBare("reject to file:/pats\n")
		s = zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r"), zzRcpt(addr))
	} else {
		zzServeBare("reject from file:/pats\n")
		s = zzRun(zzCl, zzEhlo("x.y"), zzMail(addr), zzRcpt("u@v"))
	}
	zzObs(s)
	var got bool
	if to || len(addr) == 0 {
		got = zzReply(s, "rcpt", 0).Class == 5
	} else {
		got = zzReply(s, "mail", 0).Class == 5
	}
	verif.Assert(verif.Iff(got, specAddrMatch(addr, verif.Lower(pat))), "rule with the address pattern in a file does not match exactly the documented addresses")
}

var zzPats = []string{"a@b.c", "A@B.C", "ab@", "@b", "@.b.c", "@B.c", "@", "<>", "@.c", "\"a\"@b", "@b.c."}

// the whole server: 'from PAT' and 'to PAT' with 11 patterns written in the
// rule, every address of up to 7 (thorough: 10) characters of '.', '@', 'B',
// 'a', 'b', 'c'
func VerifC01_inline() {
	na := 7
	if verif.Deep() {
		na = 10
	}
	pat := zzPats[verif.Choose("pat", len(zzPats))]
	addr := zzStr("addr", 1, na, ".@Babc")
	to := verif.Choose("what", 2) == 1
	op := "from "
	if to {
		op = "to "
	}
	text := "reject " + op + pat + "\n"
	if pat[0] == '"' {
		text = "reject " + op + "\"\\\"a\\\"@b\"\n"
	}
	zzServeBare(text)
	var s *env.Session
	k := "mail"
	if to {
		k = "rcpt"
		s = zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r"), zzRcpt(addr))
	} else {
		s = zzRun(zzCl, zzEhlo("x.y"), zzMail(addr))
	}
	zzObs(s)
	got := zzReply(s, k, 0).Class == 5
	verif.Assert(verif.Iff(got, specAddrMatch(addr, verif.Lower(pat))), "rule with an address pattern does not match exactly the documented addresses")
}

// three recipients (or senders) of one session, of the form x@yzz with
// arbitrary characters, against one of 6 patterns: each is judged on its own
func VerifC01_session() {
	pats := []string{"a@b.c", "a@", "@.c", "@b.c", "@", "b@bbc"}
	pat := pats[verif.Choose("pat", len(pats))]
	to := verif.Choose("what", 2) == 1
	steps := []env.Step{zzEhlo("x.y")}
	k := "mail"
	if to {
		k = "rcpt"
		zzServeBare("reject to " + pat + "\n")
		steps = append(steps, zzMail("q@r"))
	} else {
		zzServeBare("reject from " + pat + "\n")
	}
	var a [3]string
	for i := range a {
		a[i] = verif.StringIn("local", 1, "Bab") + "@" + verif.StringIn("domain", 3, ".bc")
		if to {
			steps = append(steps, zzRcpt(a[i]))
		} else {
			steps = append(steps, zzMail(a[i]), zzRset)
		}
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	for i := range a {
		verif.Assert(verif.Iff(zzReply(s, k, i).Class == 5, specAddrMatch(a[i], pat)), "an address is not judged on its own")
	}
}
