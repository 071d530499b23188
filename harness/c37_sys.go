package main

import (
	rnet "net"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

const zzC37Msg = "a published counter is not what happened"

// zzC37Cmds compares the counters of commands with the replies given to those
// that were not answered by the SMTP layer itself.
func zzC37Cmds(ss []*env.Session) {
	n, ok := map[string]int{}, map[string]int{}
	tls := 0
	for _, s := range ss {
		on, seen := false, false
		for _, r := range s.Replies {
			k := r.Kind
			if k == "helo" {
				k = "ehlo"
			}
			if k == "starttls" && r.Class == 2 {
				on = true
			}
			if r.Own {
				continue
			}
			n[k]++
			if r.Class <= 3 {
				ok[k]++
				if k == "ehlo" && on && !seen {
					seen = true
					tls++
				}
			}
		}
	}
	for _, x := range [][2]string{{"ehlo", "ehlo"}, {"mailfrom", "mail"}, {"rcptto", "rcpt"}, {"data", "data"}} {
		a, b := zzNum("smtpcounts", "commands", x[0]), zzNum("smtpcounts", "accepted", x[0])
		verif.Observe(x[0], a)
		verif.Observe(x[0]+" ok", b)
		verif.Assert(a == n[x[1]], zzC37Msg)
		verif.Assert(b == ok[x[1]], zzC37Msg)
	}
	verif.Assert(zzNum("smtpcounts", "accepted", "messages") == n["msg"], zzC37Msg)
	verif.Assert(zzNum("smtpcounts", "ehlo_tlson") == tls, zzC37Msg)
}

func zzC37Boot(rules string) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["pprof"] = "localhost:8080"
	env.FlagStr["r"] = "/rules"
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	env.Put("/rules", rules)
}

func zzC37From() string {
	if verif.Bool("null") {
		return ""
	}
	return verif.StringIn("from", 1, "dgmr") + "@x"
}

func zzC37Run(n int) {
	zzC37Boot("@helo reject helo r\n@from stall from r@x\n@to reject to r@x\n@data stall from d@x\n@message reject from m@x\n")
	zzMustBoot()
	steps := []env.Step{zzEhlo("g")}
	end, tlserr := 0, 0
	for i := 0; i < n && end == 0; i++ {
		switch verif.Choose("command", 9) {
		case 0:
			steps = append(steps, zzEhlo(verif.StringIn("helo", 1, "gr")))
		case 1:
			steps = append(steps, zzHelo("g"))
		case 2:
			steps = append(steps, zzMail(zzC37From()))
		case 3:
			steps = append(steps, zzRcpt(verif.StringIn("to", 1, "gr")+"@x"))
		case 4:
			steps = append(steps, zzData("text\n"))
		case 5:
			steps = append(steps, zzRset)
		case 6:
			steps = append(steps, env.Step{Kind: "starttls"})
		case 7:
			steps = append(steps, env.Step{Kind: "abort"})
			end = 1
		case 8:
			steps = append(steps, env.Step{Kind: "badtls"})
		}
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	zzC37Cmds([]*env.Session{s})
	for _, r := range s.Replies {
		if r.Kind == "badtls" && r.Class == 2 {
			tlserr = 1
		}
	}
	if tlserr == 1 {
		end = 1
	}
	verif.Assert(zzNum("events", "connections") == 1, zzC37Msg)
	verif.Assert(zzNum("events", "tls_errors") == tlserr, zzC37Msg)
	verif.Assert(zzNum("smtpcounts", "aborts") == end && zzNum("smtpcounts", "quits") == 1-end, zzC37Msg)
	verif.Assert(zzNum("events", "yakkers") == 0 && zzNum("events", "rules_errors") == 0 && zzNum("events", "yakker_adds") == 0, zzC37Msg)
}

// EHLO and any 4 commands out of EHLO, HELO, MAIL FROM, RCPT TO, DATA with a
// message (each accepted or refused), RSET, STARTTLS and a failing one, or the
// connection breaking, in and out of order
func VerifC37_commands() { zzC37Run(4) }

// any 6 commands
func VerifC37_commands_deep() { zzC37Run(6) }

func zzC37Sess(n int) {
	zzC37Boot("")
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagInt["dncount"] = 2
	env.FlagDur["dndur"] = int64(3600) * 1000000000
	env.FlagArgs = []string{zzAddr}
	per := verif.Bool("statsperip")
	env.FlagBool["statsperip"] = per
	if verif.Bool("two") {
		env.FlagArgs = append(env.FlagArgs, "127.0.0.2:25")
		per = true
	}
	good := "@connect reject ip 192.0.2.3\n@helo set-with dnsbl bl.x with note listed\n@helo reject helo r\n@helo set-with helo m with make-yakker\n"
	env.Put("/rules", good)
	env.NowNS = 1000000000000000
	zzMustBoot()
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name == "1.2.0.192.bl.x." || name == "1.2.0.192.bl.x" {
			return []rnet.IP{rnet.IPv4(127, 0, 0, 2)}, nil
		}
		return nil, env.NoHost
	}
	bad := [3]int{}
	tlsf := [3]int{}
	var ss []*env.Session
	var stalled, marks, forced, broken, tlserr, notls, quits, aborts, hits int
	to := map[string]int{}
	for k := 0; k < n; k++ {
		c := 0
		if k > 0 {
			c = verif.Choose("client", 3)
		}
		kind := 0
		if c < 2 {
			kind = verif.Choose("kind", 6)
		}
		rules := good
		if kind == 5 {
			rules = "broken\n"
		}
		env.Put("/rules", rules)
		a := env.FlagArgs[k%len(env.FlagArgs)]
		to[a]++
		name := []string{"g", "r", "m", "g", "g", "g"}[kind]
		steps := []env.Step{zzEhlo(name)}
		if c == 0 && verif.Bool("again") {
			steps = append(steps, zzEhlo(name), zzMail("a@x"))
		}
		switch kind {
		case 3:
			steps = append(steps, env.Step{Kind: "badtls"})
		case 4:
			steps = append(steps, env.Step{Kind: "abort"})
		}
		s := env.NewSession([]string{zzCl, "192.0.2.2:1000", "192.0.2.3:1000"}[c], a, zzScript(steps...))
		env.Dial(a, s)
		s.Wait()
		verif.Quiesce()
		zzObs(s)
		ss = append(ss, s)
		st := bad[c] >= 2
		if kind == 5 {
			broken++
		}
		if st {
			stalled++
		}
		if tlsf[c] >= 2 {
			notls++
		}
		if c == 2 {
			continue // dropped at once
		}
		if c == 0 && !st && kind != 5 {
			hits++
		}
		failed := false
		for _, r := range s.Replies {
			failed = failed || r.Kind == "badtls" && r.Class == 2
		}
		switch {
		case failed:
			tlserr++
			tlsf[c]++
			aborts++
		case kind == 4:
			aborts++
		default:
			quits++
		}
		switch {
		case st || kind == 5:
		case kind == 1:
			bad[c]++
			if bad[c] == 2 {
				marks++
			}
		case kind == 2:
			bad[c] = 2
			marks++
			forced++
		default:
			bad[c] = 0
		}
	}
	zzC37Cmds(ss)
	verif.Assert(zzNum("events", "connections") == n, zzC37Msg)
	verif.Assert(zzNum("events", "yakkers") == stalled, zzC37Msg)
	verif.Assert(zzNum("events", "yakker_adds") == marks && zzNum("events", "yakker_forces") == forced, zzC37Msg)
	verif.Assert(zzNum("events", "rules_errors") == broken, zzC37Msg)
	verif.Assert(zzNum("events", "tls_errors") == tlserr, zzC37Msg)
	verif.Assert(zzNum("events", "notls_conns") == notls, zzC37Msg)
	verif.Assert(zzNum("smtpcounts", "quits") == quits && zzNum("smtpcounts", "aborts") == aborts, zzC37Msg)
	verif.Assert(zzHits("dnsbl_hits", "bl.x")+zzHits("dnsbl_hits", "bl.x.") == hits, "the published blocklist hits are not what happened")
	for _, a := range env.FlagArgs {
		h := zzHits("connects_to", a)
		verif.Assert(per && h == to[a] || !per && h == -1, "the published connections per address are not what happened")
	}
}

// 3 sessions of three clients (one dropped at connect time, one listed in a
// blocklist) with -dncount 2: accepted, refused, marked by a rule, failing TLS,
// breaking off, or at a time when the rules are broken; one or two addresses,
// with and without -statsperip
func VerifC37_sessions() { zzC37Sess(3) }

// 5 sessions
func VerifC37_sessions_deep() { zzC37Sess(5) }

// two connections at the same time: every interleaving with one preemption
// (thorough: two); every count is complete and there is no data race
func VerifC37_parallel() {
	zzC37Boot("@helo reject helo r\n")
	env.FlagBool["statsperip"] = true
	zzMustBoot()
	k := 1
	if verif.Deep() {
		k = 2
	}
	verif.Races()
	verif.Interleave(k)
	var ss []*env.Session
	for i := 0; i < 2; i++ {
		n := []string{"g", "r"}[verif.Choose("name", 2)]
		s := env.NewSession("192.0.2."+string(rune('1'+i))+":77", zzAddr, zzScript(zzEhlo(n), zzMail("a@x"), zzRcpt("b@x")))
		ss = append(ss, s)
		env.Dial(zzAddr, s)
	}
	verif.Quiesce()
	zzC37Cmds(ss)
	verif.Assert(zzNum("events", "connections") == 2 && zzNum("smtpcounts", "quits") == 2, zzC37Msg)
	verif.Assert(zzHits("connects_to", zzAddr) == 2, "the published connections per address are not what happened")
}

// two connections of one client at the same time, both marked by make-yakker:
// every interleaving with two preemptions; the client counts once
func VerifC37_forced() {
	zzC37Boot("@helo set-with helo m with make-yakker\n")
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagInt["dncount"] = 2
	env.FlagDur["dndur"] = int64(3600) * 1000000000
	env.NowNS = 1000000000000000
	zzMustBoot()
	verif.Races()
	verif.Interleave(2)
	for i := 0; i < 2; i++ {
		env.Dial(zzAddr, env.NewSession(zzCl, zzAddr, zzScript(zzEhlo("m"))))
	}
	verif.Quiesce()
	verif.Assert(zzNum("events", "connections") == 2, zzC37Msg)
	verif.Assert(zzNum("events", "yakker_adds") == 1 && zzNum("events", "yakker_forces") == 1, zzC37Msg)
}

// one or two sessions of a client with 1 to 4 transactions each, abandoned
// before RCPT TO or not, -minphase to and -dncount 1 to 3, and another one:
// it counts as stalled, and as marked once, exactly if it is stalled
func VerifC37_rset() {
	zzC37Boot("")
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["minphase"] = "to"
	env.FlagInt["dncount"] = 1 + verif.Choose("dncount", 3)
	zzMustBoot()
	ns := 1 + verif.Choose("sessions", 2)
	want := 0
	for k := 0; k < ns+1; k++ {
		steps := []env.Step{zzEhlo("h")}
		if k < ns {
			for i, m := 0, 1+verif.Choose("mails", 4); i < m; i++ {
				steps = append(steps, zzMail("f@x"), zzRset)
			}
			if verif.Bool("reach") {
				steps = append(steps, zzMail("f@x"), zzRcpt("u@x"))
			}
		}
		s := zzRun(zzCl, steps...)
		zzObs(s)
		if zzReply(s, "ehlo", 0).Class == 4 {
			want++
		}
	}
	verif.Assert(zzNum("events", "yakkers") == want, zzC37Msg)
	if want == 0 {
		return
	}
	// once marked, the client is stalled for good; the last session
	// itself may have been the one that marks it
	verif.Assert(zzNum("events", "yakker_adds") == 1, zzC37Msg)
}
