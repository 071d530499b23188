package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// rule files that try to let everything through or to stall
var zzC12Rules = []string{
	"",
	"accept all\n",
	"@connect accept all\n@helo accept all\n@from accept all\n@to accept all\n@data accept all\n@message accept all\n",
	"@message stall all with message later\n",
	"set-with all with message ok\n@from accept from-has noat,quoted,garbage,route,unqualified\n@to accept to-has bad,route\n@helo accept helo-has none\n",
	"stall to never@never.example\naccept ip 192.0.2.1\n",
}

// zzListFile puts a list in one of 5 states: has the entry, has another
// entry, empty, missing, unreadable.
func zzListFile(st int, name, entry string) (active, has bool) {
	switch st {
	case 0:
		env.Put(name, "# list\n"+entry+"\n")
		return true, true
	case 1:
		env.Put(name, "nobody@else.example\n")
		return true, false
	case 2:
		env.Put(name, "#\n")
	case 4:
		env.Put(name, entry+"\n")
	}
	return false, false
}

func zzC12Fault(bad map[string]bool) {
	env.Fault = func(op, path string) error {
		if bad[path] {
			return env.ErrPermission
		}
		return nil
	}
}

// zzC12 runs a session with the filters in the given states (-1: option not
// given) and checks who is refused where
func zzC12(fst, hst, tst, rules int, M, std, log bool) {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagBool["M"] = M
	env.FlagBool["nostdrules"] = !std
	if log {
		env.FlagStr["l"] = "/log/msg"
		env.FlagStr["smtplog"] = "/log/smtp"
	}
	if zzC12Rules[rules] != "" {
		env.FlagStr["r"] = "/rules"
		env.Put("/rules", zzC12Rules[rules])
	}
	bad := map[string]bool{}
	set := func(st int, flag, file, entry string) (bool, bool) {
		if st < 0 {
			return false, false
		}
		env.FlagStr[flag] = file
		if st == 4 {
			bad[file] = true
		}
		return zzListFile(st, file, entry)
	}
	_, fhas := set(fst, "fromreject", "/lists/from", "a@r.s")
	_, hhas := set(hst, "heloreject", "/lists/helo", ".a.x")
	tact, thas := set(tst, "toaccept", "/lists/to", "@.a.w")
	zzC12Fault(bad)
	zzMustBoot()
	f := verif.StringIn("from", 1, "ab")
	null := verif.Choose("null", 2) == 1
	from := f + "@r.s"
	if null {
		from = ""
	}
	h := verif.StringIn("helo", 1, "ab")
	helo := h + ".x"
	if verif.Choose("sub", 2) == 1 {
		helo = "q." + helo
	}
	t := verif.StringIn("to", 1, "ab")
	rcpt := "u@" + t + ".w"
	steps := []env.Step{zzHelo(helo), zzMail(from), zzRcpt(rcpt), zzData("Subject: x\r\n\r\nhi\r\n")}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	fbad := verif.And(!null, fhas, verif.EqStr(f, "a"))
	hbad := verif.And(hhas, verif.EqStr(h, "a"))
	tbad := verif.And(tact, !verif.And(thas, verif.EqStr(t, "a")))
	verif.Assert(zzReply(s, "helo", 0).Class == 2, "HELO is refused by -heloreject, or accepted names are refused")
	m := zzReply(s, "mail", 0)
	if null {
		verif.Assert(m.Class == 2, "MAIL FROM:<> refused")
	} else {
		verif.Assert(verif.Iff(m.Class == 5, verif.Or(fbad, hbad)), "MAIL FROM is not refused exactly for -fromreject senders and -heloreject names")
		verif.Assert(verif.Or(m.Class == 2, m.Class == 5), "wrong class at MAIL FROM")
	}
	if m.Class != 2 {
		return
	}
	r := zzReply(s, "rcpt", 0)
	verif.Assert(verif.Iff(r.Class == 5, verif.Or(tbad, verif.And(null, hbad))), "RCPT TO is not refused exactly for recipients not in -toaccept")
	verif.Assert(verif.Or(r.Class == 2, r.Class == 5), "wrong class at RCPT TO")
	if r.Class != 2 {
		return
	}
	verif.Assert(zzReply(s, "data", 0).Class == 3, "DATA refused though the sender and recipient were not")
	x := zzReply(s, "msg", 0)
	want := 2
	if rules == 3 {
		want = 4
	}
	if M {
		want = 5
	}
	verif.Assert(x.Class == want, "the message is not refused exactly with -M")
	verif.Assert(len(env.Paths("/save")) == 1, "the message is not saved")
	if log {
		verif.Assert(strings.Contains(zzLog("/log/msg"), "<"+rcpt+">: message 18 bytes"), "the message is not logged")
	}
}

// all combinations of -fromreject and -heloreject files (with the entry,
// another entry, empty, missing, unreadable, or option not given), -M, 6 rule
// files, any of 2 senders or the null sender, HELO names and recipients
func VerifC12_senders() {
	zzC12(verif.Choose("from", 6)-1, verif.Choose("helo", 6)-1, -1, verif.Choose("rules", 6), verif.Choose("M", 2) == 1, false, true)
}

// all combinations of -toaccept files and -fromreject files, -M, 6 rule files,
// with the standard rules off or on (the domains have dots)
func VerifC12_recipients() {
	zzC12(verif.Choose("from", 3)-1, -1, verif.Choose("to", 6)-1, verif.Choose("rules", 6), verif.Choose("M", 2) == 1, verif.Choose("std", 2) == 1, false)
}

// the standard rules: senders and recipients of up to 5 (thorough: 7)
// characters of '"', '.', '<', '@', ']', 'a', empty and other HELO names, 6
// rule files, with and without -nostdrules
func VerifC12_std() {
	n := 5
	if verif.Deep() {
		n = 7
	}
	std := verif.Choose("std", 2) == 1
	rules := verif.Choose("rules", 6)
	what := verif.Choose("what", 3)
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagBool["nostdrules"] = !std
	if zzC12Rules[rules] != "" {
		env.FlagStr["r"] = "/rules"
		env.Put("/rules", zzC12Rules[rules])
	}
	zzMustBoot()
	switch what {
	case 0:
		helo := zzStr("helo", 0, 2, " .a")
		k := verif.Choose("cmd", 2)
		st := []env.Step{zzHelo(helo), zzEhlo(helo)}[k]
		s := zzRun(zzCl, st)
		zzObs(s)
		want := 2
		if helo == "" && std {
			want = 5
		}
		verif.Assert(s.Replies[1].Class == want, "an empty HELO name is not refused exactly with the standard rules")
	case 1:
		a := zzStr("from", 0, n, "\".<@]a")
		s := zzRun(zzCl, zzEhlo("x.y"), zzMail(a), zzRcpt("u@v.w"))
		zzObs(s)
		w := specAddrAttrs(a)
		bad := verif.And(std, verif.Or(w.noat, w.quoted, w.unqual, w.garbage, w.route))
		verif.Assert(verif.Iff(zzReply(s, "mail", 0).Class == 5, bad), "bad senders are not refused exactly with the standard rules")
		if a == "" {
			verif.Assert(zzReply(s, "rcpt", 0).Class == 2, "the null sender is treated as bad")
		}
	case 2:
		a := zzStr("to", 1, n, "\".<@]a")
		from := []string{"q@r.s", ""}[verif.Choose("sender", 2)]
		s := zzRun(zzCl, zzEhlo("x.y"), zzMail(from), zzRcpt(a), zzData("hi\r\n"))
		zzObs(s)
		w := specAddrAttrs(a)
		bad := verif.And(std, verif.Or(w.noat, w.quoted, w.unqual, w.garbage, w.route))
		verif.Assert(verif.Iff(zzReply(s, "rcpt", 0).Class == 5, bad), "bad recipients are not refused exactly with the standard rules")
	}
}

// -M without the standard rules: any sender and recipient of up to 3 (thorough:
// 5) characters of '"', '<', '@', 'a', with or without TLS, 6 rule files
func VerifC12_M() {
	n := 3
	if verif.Deep() {
		n = 5
	}
	rules := verif.Choose("rules", 6)
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagBool["M"] = true
	env.FlagBool["nostdrules"] = true
	if zzC12Rules[rules] != "" {
		env.FlagStr["r"] = "/rules"
		env.Put("/rules", zzC12Rules[rules])
	}
	zzMustBoot()
	from, to := "q@r.s", "u@v.w"
	if verif.Choose("which", 2) == 0 {
		from = zzStr("from", 0, n, "\"<@a")
	} else {
		to = zzStr("to", 1, n, "\"<@a")
	}
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail(from), zzRcpt(to), zzRcpt("x@y.z"), zzData("hi\r\n"))
	zzObs(s)
	verif.Assert(zzCount(s, "msg") == 1, "the message is not received")
	verif.Assert(zzReply(s, "msg", 0).Class == 5, "a message is accepted in spite of -M")
	verif.Assert(len(env.Paths("/save")) == 1, "a message refused by -M is not saved")
}

// the filters look only at what they are documented to: -heloreject names,
// -fromreject and -toaccept addresses that are listed but occur as something
// else (the client's verified reverse name, the sender, the HELO name, a
// recipient)
func VerifC12_other() {
	which := verif.Choose("filter", 3)
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagBool["nostdrules"] = verif.Choose("std", 2) == 1
	entry := []string{"@a.x\na@a.x\n", "a.x\n.a.x\n", "@a.x\na.x\n.a.x\nu@a.x\n"}[which]
	env.FlagStr[[]string{"fromreject", "heloreject", "toaccept"}[which]] = "/list"
	env.Put("/list", entry)
	zzMustBoot()
	d := func(l string) string { return verif.StringIn(l, 1, "ab") }
	name, helo, from, to := d("name"), d("helo"), d("from"), d("to")
	zzRDNS([]string{name + ".x."}, []bool{true})
	s := zzRun(zzCl, zzEhlo(helo+".x"), zzMail("a@"+from+".x"), zzRcpt("u@"+to+".x"))
	zzObs(s)
	fb, hb, tb := verif.And(which == 0, verif.EqStr(from, "a")), verif.And(which == 1, verif.EqStr(helo, "a")), verif.And(which == 2, !verif.EqStr(to, "a"))
	m := zzReply(s, "mail", 0)
	verif.Assert(verif.Iff(m.Class == 5, verif.Or(fb, hb)), "MAIL FROM is refused for what the filter does not look at")
	if m.Class == 2 {
		verif.Assert(verif.Iff(zzReply(s, "rcpt", 0).Class == 5, tb), "RCPT TO is refused for what the filter does not look at")
	}
}
