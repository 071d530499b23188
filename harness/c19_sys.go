package main

import (
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC19Boot starts the server with the given rules, -dncount n and -minphase.
func zzC19Boot(n int, phase, rules string) {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["minphase"] = phase
	env.FlagBool["nostdrules"] = true
	env.FlagInt["dncount"] = n
	env.FlagDur["dndur"] = zzC19D
	env.Put("/rules", rules)
	env.NowNS = 1000000000000000
	zzMustBoot()
}

const zzC19D = int64(3600) * 1000000000

// zzC19Probe checks whether the client is treated as a do-nothing client.
func zzC19Probe(want bool) {
	s := zzRun("192.0.2.1:2000", zzEhlo("probe"))
	zzObs(s)
	verif.Observe("forced", want)
	c := zzReply(s, "ehlo", 0).Class
	if want {
		verif.Assert(c == 4 && !s.HasLog, "a client that matched make-yakker is not treated as a do-nothing client")
	} else {
		verif.Assert(c == 2 && s.HasLog, "a client is treated as a do-nothing client without reason")
	}
	s = zzRun("192.0.2.2:2000", zzEhlo("probe"))
	verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "another client is treated as a do-nothing client")
}

// zzC19Rules: make-yakker in each phase for arguments starting with y
// (accepted) or z (refused)
var zzC19Rules = []string{
	"@helo set-with helo .y with make-yakker\n@helo reject helo .z with make-yakker\n",
	"@from set-with from y@ with make-yakker\n@from stall from z@ with make-yakker\n",
	"@to set-with to y@ with make-yakker\n@to reject to z@ with make-yakker message \"go away\"\n",
	"@data set-with to d@ with make-yakker\n@data reject to e@ with make-yakker\n",
	"@message accept to m@ with make-yakker\n@message stall to n@ with make-yakker\n",
}

// zzC19Walk: a session of n commands, each with or without the argument that
// makes a make-yakker rule match; others accepted by a rule or by none
func zzC19Walk(n int) {
	dn := verif.Choose("dncount", 3)
	rules := ""
	for _, r := range zzC19Rules {
		rules += r
	}
	if verif.Bool("accept") { // accepted by a rule, not for want of one
		rules += "@helo accept helo .x\n@from accept from x@\n@to accept to x@\n@data accept to x@\n@message accept to x@\n"
	}
	zzC19Boot(dn, "helo", rules+"@message reject to refused@\n")
	force := false
	state := 0
	i := 0
	var pend env.Step
	var rc string
	client := func(s *env.Session) env.Step {
		if i > 0 {
			ok := s.Last().Class < 4
			switch pend.Kind {
			case "ehlo":
				if ok {
					state = 1
				}
			case "mail":
				if ok {
					state = 2
				}
			case "rcpt":
				if ok {
					state = 3
					rc = pend.Arg
				}
			case "data":
				state = 1
			case "rset":
				state = 1
			}
		}
		if i >= n {
			if verif.Bool("abort") {
				return env.Step{Kind: "abort"}
			}
			return zzQuit
		}
		i++
		m := verif.Choose("match", 3) // no, accepted, refused
		p := []string{"x", "y", "z"}[m]
		adv := true
		if i > 1 {
			adv = verif.Choose("advance", 2) == 1
		}
		switch {
		case state == 0 || (!adv && state == 1):
			pend = zzEhlo("h." + p)
			force = force || m > 0
		case state == 1:
			pend = zzMail(p + "@f")
			force = force || m > 0
		case !adv:
			verif.Assume(m == 0)
			pend = zzRset
		case state == 2:
			k := []string{"x", "y", "z", "d", "e", "m", "n"}
			if m == 2 {
				m = 2 + verif.Choose("rcpt", 5)
			}
			pend = zzRcpt(k[m] + "@t")
			force = force || m == 1 || m == 2
		default:
			verif.Assume(m == 0)
			pend = zzData("hi")
			if rc[0] == 'd' || rc[0] == 'e' || rc[0] == 'm' || rc[0] == 'n' {
				force = true
			}
		}
		return pend
	}
	s := env.NewSession(zzCl, zzAddr, client)
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	// a session without any accepted EHLO fails anyway
	reached := false
	for _, r := range s.Replies {
		if r.Kind == "ehlo" && r.Class == 2 {
			reached = true
		}
	}
	if dn == 1 && !reached {
		force = true
	}
	zzC19Probe(force && dn > 0)
}

// sessions of 4 commands, with or without RSET and repeated EHLO, any of them
// matching a make-yakker rule while accepted or refused; -dncount 0..2
func VerifC19_walk() { zzC19Walk(4) }

// sessions of 7 commands
func VerifC19_walk_deep() { zzC19Walk(7) }

// a rule without phase: set-with, matching for the whole session or not, and
// one that a later rule's verdict does not reach; symbolic truth values
func VerifC19_rule() {
	zzTruths(3)
	zzC19Boot(2, []string{"helo", "accepted"}[verif.Choose("minphase", 2)],
		"accept "+zzOp(0)+"\nset-with "+zzOp(1)+" with make-yakker\n@from reject "+zzOp(2)+" with make-yakker\n")
	s := zzRun(zzCl, zzEhlo("h"), zzMail("f@x"), zzRcpt("u@x"), zzData("hi"))
	zzObs(s)
	zzC19Probe(!zzT[0] && (zzT[1] || zzT[2]))
}

// at connect time
func VerifC19_connect() {
	zzTruths(2)
	zzC19Boot(2, "helo", "@connect set-with "+zzOp(0)+" with make-yakker\n@connect stall "+zzOp(1)+" with make-yakker\n")
	s := zzRun(zzCl, zzEhlo("h"))
	zzObs(s)
	zzC19Probe(zzT[0] || zzT[1])
}

// the null sender: the options come with the refusal of RCPT TO
func VerifC19_null() {
	zzTruths(1)
	zzC19Boot(2, "helo", "@from reject from <> "+zzOp(0)+" with make-yakker\n")
	s := zzRun(zzCl, zzEhlo("h"), zzMail(""), zzRcpt("u@x"), zzRset, zzMail("a@x"), zzRcpt("u@x"), zzData("hi"))
	zzObs(s)
	zzC19Probe(zzT[0])
}

// how long it lasts: exactly the -dndur window, arbitrary time between the
// sessions; failures before it do not matter
func VerifC19_window() {
	zzC19Boot(3, "helo", "@helo reject helo bad with make-yakker\n")
	if verif.Bool("before") {
		zzRun(zzCl)
		env.NowNS += int64(verif.Int("gap", 0, 2*int(zzC19D)))
	}
	s := zzRun(zzCl, zzEhlo("bad"), zzEhlo("good"))
	zzObs(s)
	gap := int64(verif.Int("gap", 0, 2*int(zzC19D)))
	env.NowNS += gap
	zzC19Probe(gap < zzC19D)
}

// after the rule matched (at HELO or MAIL FROM, accepted or refused) the client
// fails or succeeds to set up TLS, its messages cannot be saved, or are
// accepted; -dncount 1 or 2
func VerifC19_tls() {
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	zzC19Boot(1+verif.Choose("dncount", 2), []string{"helo", "accepted"}[verif.Choose("minphase", 2)], zzC19Rules[0]+zzC19Rules[1])
	m := verif.Choose("match", 3)
	p := []string{"x", "y", "z"}[m]
	steps := []env.Step{zzEhlo("h.x"), zzEhlo("h." + p)}
	if verif.Bool("mail") {
		steps = []env.Step{zzEhlo("h.x"), zzMail(p + "@f"), zzRset}
	}
	tx := []env.Step{zzEhlo("h"), zzMail("a@f"), zzRcpt("u@t"), zzData("hi")}
	switch verif.Choose("then", 4) {
	case 0:
		steps = append(steps, env.Step{Kind: "badtls"})
		// a session with a TLS error does not count, unless forced
	case 1:
		steps = append(append(steps, env.Step{Kind: "starttls"}), tx...)
	case 2:
		steps = append(steps, tx[1:]...)
		env.WriteFault = func(path string, n int) (int, error) {
			if len(path) > 6 && path[:6] == "/save/" {
				return 0, env.ErrNoSpace
			}
			return n, nil
		}
	case 3:
		steps = append(steps, tx[1:]...)
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	zzC19Probe(m > 0)
}
