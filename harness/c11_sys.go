package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// one phase at a time has a rule with any action, with or without a message;
// a full session
func VerifC11_onephase() {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	ph := verif.Choose("phase", 6)
	act := verif.Choose("act", 3) + 1
	withmsg := verif.Choose("msg", 2) == 1
	r := "@" + zzPh[ph] + " " + zzAct[act] + " all"
	if withmsg {
		r += " with message \"hello there\""
	}
	env.Put("/rules", r+"\n")
	zzMustBoot()
	s := zzRun("192.0.2.1:1000", zzEhlo("a.example.com"), zzMail("a@b.example.com"), zzRcpt("c@d.example.com"), zzData("hi\r\n"))
	zzObs(s)
	verif.Cover("ran")
	if ph == 0 {
		verif.Assert((len(s.Replies) == 0) == (act == 3), "connect-time reject closes at once, others go on")
		if act == 3 {
			return
		}
	}
	for p := 1; p < 6; p++ {
		want := 2
		if zzKind[p] == "data" {
			want = 3
		}
		if p == ph {
			want = zzClass(act, zzKind[p])
		}
		rep := zzReply(s, zzKind[p], 0)
		verif.Assert(rep.Class == want, "reply class differs from the verdict of the rules")
		if p == ph && act > 1 {
			return
		}
	}
}

// every phase has an accept, a stall and a reject rule of any truth value in
// one of 6 orders, all with or all without messages; a full session, each
// refused command being tried again
func VerifC11_allphases() {
	perm := [][3]int{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}[verif.Choose("order", 6)]
	withmsg := verif.Choose("msg", 2) == 1
	n := 0
	text := ""
	var tr [6][4]bool
	for p := 0; p < 6; p++ {
		for _, a := range perm {
			tr[p][a] = verif.Bool("truth")
			n++
			text += "@" + zzPh[p] + " " + zzAct[a] + " dnsbl a" + zzAct[a] + "." + zzPh[p] + ".bl"
			if withmsg {
				text += " with message m-" + zzPh[p] + "-" + zzAct[a]
			}
			text += "\n"
		}
	}
	env.LookupIP = func(name string) (zzIPs, error) {
		for p := 0; p < 6; p++ {
			for a := 1; a < 4; a++ {
				if strings.HasSuffix(name, ".a"+zzAct[a]+"."+zzPh[p]+".bl.") && tr[p][a] {
					return zzIPs{{127, 0, 0, 2}}, nil
				}
			}
		}
		return nil, env.NoHost
	}
	verdict := func(p int) int {
		v := 0
		for i := 2; i >= 0; i-- {
			v = verif.IteInt(tr[p][perm[i]], perm[i], v)
		}
		return v
	}
	zzServe(text)
	s := zzRun(zzCl, zzEhlo("a.example.com"), zzHelo("b.example.com"), zzMail("a@b.example.com"), zzMail("a@b.example.com"), zzRcpt("c@d.example.com"), zzRcpt("c@d.example.com"), zzData("hi\r\n"), zzRsetIf)
	zzObs(s)
	cv := verdict(0)
	verif.Assert(verif.Iff(len(s.Replies) == 0, cv == 3), "a connection is dropped at connect time exactly on reject")
	if len(s.Replies) == 0 {
		return
	}
	verif.Assert(s.Closed, "the connection is not closed in the end")
	kinds := map[string]int{"ehlo": 1, "helo": 1, "mail": 2, "rcpt": 3, "data": 4, "msg": 5}
	for _, r := range s.Replies {
		p := kinds[r.Kind]
		if p == 0 || r.Own {
			continue
		}
		v := verdict(p)
		want := verif.IteInt(v == 3, 5, verif.IteInt(v == 2, 4, zzClass(1, r.Kind)))
		verif.Assert(r.Class == want, "reply class differs from the verdict of the rules")
		if !withmsg || (p == 1 && r.Class == 2) {
			continue
		}
		m := r.Msg
		if i := strings.IndexByte(m, '\n'); i >= 0 {
			m = m[:i]
		}
		for a := 1; a < 4; a++ {
			verif.Assert(verif.Iff(m == "m-"+zzPh[p]+"-"+zzAct[a], v == a), "the reply does not carry the message of the deciding rule")
		}
	}
	if zzReply(s, "ehlo", 0).Class == 2 {
		verif.Assert(!zzReply(s, "mail", 0).Own, "an accepted EHLO is not followed by MAIL FROM processing")
	}
}

// the message text is passed on literally: 3 characters including blanks, %,
// newlines, upper case, quotes and backslashes in any place, any action at MAIL FROM, RCPT TO, DATA
// and message time
func VerifC11_text() {
	m := verif.StringIn("text", 3, "\n !\"%A\\ads")
	ph := 2 + verif.Choose("phase", 4)
	act := 1 + verif.Choose("act", 3)
	q := ""
	for i := 0; i < len(m); i++ {
		c := m[i : i+1]
		if c[0] == '"' || c[0] == '\\' {
			q += "\\"
		}
		q += c
	}
	zzServeBare("@" + zzPh[ph] + " " + zzAct[act] + " all with message \"" + q + "\"\n")
	s := zzRun(zzCl, zzEhlo("a.example.com"), zzMail("a@b.example.com"), zzRcpt("c@d.example.com"), zzData("hi\r\n"))
	zzObs(s)
	r := zzReply(s, zzKind[ph], 0)
	verif.Assert(r.Class == zzClass(act, zzKind[ph]), "wrong reply class")
	want := m
	verif.Assert(len(r.Msg) >= len(want), "the message text is not in the reply")
	verif.Assert(verif.EqStr(r.Msg[:len(want)], want), "the message text is changed in the reply")
	if ph != 5 || act == 2 {
		verif.Assert(len(r.Msg) == len(want), "the reply has more than the message text")
	}
}
