package main

import (
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// the name the server gives itself: -helo given or not, -conncfg absent, not
// matching, matching without and with a hostname, two local addresses, reverse
// DNS of the local address failing, empty or 1-2 names with and without a final
// dot, all names with arbitrary letters
func VerifC34_name() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	helo := ""
	if verif.Choose("-helo", 2) == 1 {
		helo = "h" + verif.StringIn("helo", 1, ".Abc") + "x"
	}
	env.FlagStr["helo"] = helo
	addrs := []string{"127.0.0.1:25", "[::1]:2525"}
	env.FlagArgs = addrs
	cfg := ""
	cn := "c" + verif.StringIn("cfg", 1, ".Abc") + "y"
	k := verif.Choose("-conncfg", 5)
	switch k {
	case 1:
		cfg = "192.0.2.77 hostname=other\n"
	case 2:
		cfg = "* cert=/c2 key=/k2\n* hostname=later\n"
		env.Put("/c2", "cert B")
		env.Put("/k2", "key B")
	case 3:
		cfg = "127.0.0.1 hostname=" + cn + "\n::1 hostname=other\n"
	case 4:
		cfg = "127.0.0.2 hostname=other\n* hostname=" + cn + "\n"
	}
	if cfg != "" {
		env.FlagStr["conncfg"] = "/cfg"
		env.Put("/cfg", cfg)
	}
	zzMustBoot()
	second := verif.StringIn("second", 1, "az") + "second.name."
	dn := "d" + verif.StringIn("dns", 1, "Abc") + "z"
	d := verif.Choose("rdns", 6)
	at := verif.Choose("address", 2)
	ips := []string{"127.0.0.1", "::1"}
	env.LookupAddr = func(ip string) ([]string, error) {
		if ip != ips[at] {
			return []string{"client.example."}, nil
		}
		switch d {
		case 0:
			return nil, env.NoHost
		case 1:
			return []string{}, nil
		case 2:
			return []string{dn + "."}, nil
		case 3:
			return []string{dn}, nil
		case 4:
			return []string{dn + ".", second}, nil
		}
		return []string{"second." + dn + "."}, env.NoHost
	}
	s := env.NewSession(zzCl, addrs[at], zzScript(zzEhlo("x.y")))
	env.Dial(addrs[at], s)
	s.Wait()
	verif.Quiesce()
	verif.Observe("name", s.LocalName)
	want := addrs[at]
	if d >= 2 && d <= 4 {
		want = dn
	}
	if helo != "" {
		want = helo
	}
	switch {
	case k == 3 && at == 0, k == 4:
		want = cn
	case k == 3:
		want = "other"
	}
	verif.Assert(verif.EqStr(s.LocalName, want), "the server does not use the name it should")
	verif.Assert(verif.EqStr(zzReply(s, "connect", 0).Msg, want), "the greeting does not have the server's name")
}

// zzC34Slow: n sessions of two clients
func zzC34Slow(n int) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	S := verif.Bool("-S")
	env.FlagBool["S"] = S
	log := verif.Bool("smtplog")
	if log {
		env.FlagStr["smtplog"] = "/log/smtp"
		env.FlagInt["dncount"] = 1
	}
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "@helo reject helo r\n@from stall from s@\n")
	zzMustBoot()
	bad := [2]bool{}
	for k := 0; k < n; k++ {
		c := verif.Choose("client", 2)
		name := verif.StringIn("helo", 1, "gr")
		s := zzRun([]string{zzCl, "[2001:db8::1]:99"}[c], zzEhlo(name), zzMail("s@b.c"))
		zzObs(s)
		st := verif.And(log, bad[c])
		verif.Assert(verif.Iff(s.Slow, verif.Or(S, st)), "output is not slow exactly with -S or for stalled clients")
		if !st {
			bad[c] = verif.And(log, name == "r")
		}
	}
}

// 3 sessions of two clients with -dncount 1, any of them refused: output is slow
// exactly with -S or for a stalled client
func VerifC34_slow() { zzC34Slow(3) }

// 5 sessions
func VerifC34_slow_deep() { zzC34Slow(5) }

// an ordinary client, one that is stalled as a do-nothing client and one that
// meets broken rules, with and without -S, -helo, -conncfg (with hostname) and
// reverse DNS: the name is the same for all, and only -S and being stalled as
// a do-nothing client make output slow
func VerifC34_state() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	S := verif.Bool("-S")
	env.FlagBool["S"] = S
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagInt["dncount"] = 1
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "@helo reject helo r\n")
	helo, cfg, dns := verif.Choose("-helo", 2) == 1, verif.Choose("-conncfg", 2) == 1, verif.Choose("rdns", 2) == 1
	want := zzAddr
	env.FlagStr["helo"] = ""
	if dns {
		want = "d.example"
		env.LookupAddr = func(ip string) ([]string, error) {
			if ip == "127.0.0.1" {
				return []string{"d.example."}, nil
			}
			return nil, env.NoHost
		}
	}
	if helo {
		want = "h.example"
		env.FlagStr["helo"] = want
	}
	if cfg {
		want = "c.example"
		env.FlagStr["conncfg"] = "/cfg"
		env.Put("/cfg", "127.0.0.1 hostname=c.example\n")
	}
	zzMustBoot()
	st := verif.Choose("state", 3)
	switch st {
	case 1:
		zzRun(zzCl, zzEhlo("r"))
	case 2:
		env.Put("/rules", "broken\n")
	}
	s := zzRun(zzCl, zzEhlo("x.y"))
	verif.Assert(s.LocalName == want && zzReply(s, "connect", 0).Msg == want, "the server does not use the name it should")
	verif.Assert(verif.Iff(s.Slow, verif.Or(S, st == 1)), "output is not slow exactly with -S or for stalled clients")
}
