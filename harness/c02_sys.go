package main

import (
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// the whole server: 'reject helo file:/pats' and 'ehlo' with any pattern of
// 1 to 5 (thorough: 7) characters of '.', 'B', 'a', 'b' and any HELO name of
// up to 6 (9) of these, including none
func VerifC02_helo() {
	np, nh := 5, 6
	if verif.Deep() {
		np, nh = 7, 9
	}
	pat := zzStr("pat", 1, np, ".Bab")
	name := zzStr("name", 0, nh, ".Bab")
	env.Put("/pats", pat+"\n")
	op := "helo"
	if verif.Choose("op", 2) == 1 {
		op = "ehlo"
	}
	zzServeBare("reject " + op + " file:/pats\n")
	step := zzEhlo(name)
	if verif.Choose("cmd", 2) == 1 {
		step = zzHelo(name)
	}
	s := zzRun(zzCl, step)
	zzObs(s)
	got := zzReply(s, step.Kind, 0).Class
	verif.Assert(got == 2 || got == 5, "HELO is answered by the rules")
	verif.Assert(verif.Iff(got == 5, specHostMatch(name, verif.Lower(pat))), "helo pattern does not match exactly the documented names")
}

// the whole server: 'reject host PAT' with 7 patterns, two reverse names of
// up to 4 (thorough: 5) characters plus the final dot, each verified or not
func VerifC02_host() {
	n := 4
	if verif.Deep() {
		n = 5
	}
	pats := []string{"a.b", ".b", "B", ".a.b", "a.", ".a.", "."}
	pat := pats[verif.Choose("pat", len(pats))]
	n1 := zzStr("n1", 1, n, ".Bab") + "."
	n2 := zzStr("n2", 1, n, ".Bab") + "."
	if len(n1) == len(n2) {
		verif.Assume(!verif.EqStr(n1, n2))
	}
	ok := []bool{verif.Bool("ok1"), verif.Bool("ok2")}
	zzRDNS([]string{n1, n2}, ok)
	zzServeBare("@helo reject host " + pat + "\n")
	s := zzRun(zzCl, zzEhlo("x.y"))
	zzObs(s)
	got := zzReply(s, "ehlo", 0).Class == 5
	p := verif.Lower(pat)
	want := verif.Or(verif.And(ok[0], specHostMatch(n1, p)), verif.And(ok[1], specHostMatch(n2, p)))
	verif.Assert(verif.Iff(got, want), "host does not consult exactly the verified names")
}

// the whole server: 'reject source PAT' (pattern of 1 to 3 characters in a
// file), HELO name of up to 3, verified or unverified reverse name of up to
// 3 characters plus dot, sender of up to 4, all over '.', '@', 'B', 'a', 'b'
func VerifC02_source() {
	pat := zzStr("pat", 1, 3, ".Bab")
	helo := zzStr("helo", 1, 3, ".Bab")
	rd := zzStr("rdns", 1, 3, ".Bab") + "."
	from := zzStr("from", 0, 4, ".@Bab")
	ok := verif.Bool("ok")
	zzRDNS([]string{rd}, []bool{ok})
	env.Put("/pats", pat+"\n")
	zzServeBare("reject source file:/pats\n")
	s := zzRun(zzCl, zzEhlo(helo), zzMail(from), zzRcpt("u@v"))
	zzObs(s)
	k := "mail"
	if from == "" {
		k = "rcpt"
	}
	got := zzReply(s, k, 0).Class == 5
	p := verif.Lower(pat)
	want := verif.Or(verif.And(ok, specHostMatch(rd, p)), specHostMatch(helo, p), specAddrMatch(from, "@"+p))
	verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "source is not checked before MAIL FROM")
	verif.Assert(verif.Iff(got, want), "source is not exactly host or ehlo or from @")
}

// three HELO names of one session, each of 3 arbitrary characters, against one
// of 4 patterns, also after a refusal: each is judged on its own
func VerifC02_session() {
	pats := []string{"a.b", ".b", "aab", ".a.b"}
	pat := pats[verif.Choose("pat", len(pats))]
	zzServeBare("@helo reject helo " + pat + "\n")
	var n [3]string
	var steps []env.Step
	for i := range n {
		n[i] = verif.StringIn("name", 3, ".Bab")
		steps = append(steps, zzEhlo(n[i]))
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	for i := range n {
		verif.Assert(verif.Iff(zzReply(s, "ehlo", i).Class == 5, specHostMatch(n[i], pat)), "a HELO name is not judged on its own")
	}
}
