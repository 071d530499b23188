package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC36: n arbitrary commands of a client that can start TLS at any point;
// rules for 'tls on' and 'tls off' without a phase
func zzC36(n int) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	form := verif.Choose("form", 3)
	env.Put("/rules", []string{
		"@helo stall helo r\nset-with tls on with message tls-on\nset-with tls off with message tls-off\n",
		"@helo stall helo r\nset-with not tls off with message tls-on\nset-with not tls on with message tls-off\n",
		"@helo stall helo r\nset-with tls on with message tls-on; tls off with message tls-off\n",
	}[form])
	zzMustBoot()
	i := 0
	on := false
	var ons []bool
	s := env.NewSession(zzCl, zzAddr, func(s *env.Session) env.Step {
		if i > 0 && s.Last().Kind == "starttls" && s.Last().Class == 2 {
			on = true
		}
		for len(ons) < len(s.Replies) {
			ons = append(ons, on)
		}
		if i >= n {
			return zzQuit
		}
		i++
		switch verif.Choose("cmd", 6) {
		case 0:
			return zzEhlo(verif.StringIn("helo", 1, "gr"))
		case 1:
			return zzMail(verif.StringIn("from", 1, "ab") + "@b.c")
		case 2:
			return zzRcpt("u@v.w")
		case 3:
			return zzData("hi")
		case 4:
			return env.Step{Kind: "starttls", TLS: tls.ConnectionState{Version: 0x0303, CipherSuite: 0xc02f}}
		}
		return zzRset
	})
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	for j, r := range s.Replies {
		if r.Own || j >= len(ons) {
			continue
		}
		a, b := strings.Contains(r.Msg, "tls-on"), strings.Contains(r.Msg, "tls-off")
		switch r.Kind {
		case "ehlo":
			verif.Assert(!a && !b, "'tls' is checked before MAIL FROM")
		case "mail", "rcpt", "data", "msg":
			verif.Assert(a == ons[j] && b == !ons[j], "'tls on|off' does not match exactly according to the connection")
		}
	}
}

// any 5 commands out of EHLO (accepted or not), MAIL FROM, RCPT TO, DATA,
// STARTTLS and RSET, in and out of order; 'tls on' and 'tls off' plain, negated
// and as clauses
func VerifC36_commands() { zzC36(5) }

// any 7 commands
func VerifC36_commands_deep() { zzC36(7) }

// a full transaction before and after STARTTLS, with a failed one in between
func VerifC36_both() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	k := verif.Choose("phase", 4)
	env.Put("/rules", "@"+zzPh[k+2]+" reject tls on from a@\n@"+zzPh[k+2]+" stall tls off from a@\n")
	zzMustBoot()
	st := verif.Choose("tls", 3)
	steps := []env.Step{zzEhlo("x.y")}
	if st == 1 {
		steps = append(steps, env.Step{Kind: "starttls", TLS: tls.ConnectionState{Version: 0x0303}}, zzEhlo("x.y"))
	}
	tx := func() {
		steps = append(steps, zzMail(verif.StringIn("from", 1, "ab")+"@b.c"), zzRcpt("u@v.w"), zzData("hi"), zzRset)
	}
	tx()
	if st == 2 {
		steps = append(steps, env.Step{Kind: "starttls", TLS: tls.ConnectionState{Version: 0x0303}}, zzEhlo("x.y"))
	}
	tx()
	s := zzRun(zzCl, steps...)
	zzObs(s)
	kind := zzKind[k+2]
	t, c := 0, 2
	if kind == "data" {
		c = 3
	}
	from := ""
	for _, r := range s.Replies {
		if r.Kind == "mail" {
			t++
			from = r.Arg
		}
		if r.Kind == kind && !r.Own {
			bad := 4
			if st == 1 || st == 2 && t == 2 {
				bad = 5
			}
			verif.Assert(r.Class == verif.IteInt(from[0] == 'a', bad, c), "'tls on|off' does not match exactly according to the connection")
		}
	}
	verif.Assert(t == 2, "the transactions do not run as expected")
}

// HELO or EHLO before and after STARTTLS (or without it), then MAIL FROM, twice:
// a rule with 'tls on' or 'tls off' (plain, negated, with another operation)
// and no phase refuses exactly the MAIL FROMs with that TLS state
func VerifC36_early() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	f := verif.Choose("form", 6)
	env.Put("/rules", []string{"reject tls on", "reject tls off", "reject not tls off", "reject not tls on", "reject helo a tls on", "reject tls off or helo b"}[f]+"\n")
	zzMustBoot()
	st := verif.Choose("tls", 3)
	hello := func() env.Step {
		n := verif.StringIn("helo", 1, "abc")
		if verif.Choose("helo", 2) == 1 {
			return zzHelo(n)
		}
		return zzEhlo(n)
	}
	tls := env.Step{Kind: "starttls", TLS: tls.ConnectionState{Version: 0x0303}}
	h1, h2 := zzEhlo("c"), hello()
	steps := []env.Step{}
	if st == 1 {
		steps = append(steps, h1, tls)
	}
	steps = append(steps, h2, zzMail("a@b.c"))
	h3 := h2
	if st == 2 {
		h3 = hello()
		steps = append(steps, zzRset)
		steps = append(steps, tls, h3)
	}
	steps = append(steps, zzRset, zzMail("a@b.c"))
	s := zzRun(zzCl, steps...)
	zzObs(s)
	for _, r := range s.Replies {
		verif.Assert(r.Kind != "ehlo" && r.Kind != "helo" || r.Own || r.Class == 2, "'tls' is checked before MAIL FROM")
	}
	for k := 0; k < 2; k++ {
		on := st == 1 || st == 2 && k == 1
		n := []env.Step{h2, h3}[k].Arg
		bad := on == (f == 0 || f == 2)
		switch f {
		case 4:
			bad = verif.And(on, n == "a")
		case 5:
			bad = verif.Or(!on, n == "b")
		}
		verif.Assert(zzReply(s, "mail", k).Class == verif.IteInt(bad, 5, 2), "'tls on|off' does not match exactly according to the connection")
	}
}

// two transactions of a session with or without TLS, each with the null sender
// or another, two recipients, a rule at RCPT TO, DATA or message time
func VerifC36_null() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	k := 3 + verif.Choose("phase", 3)
	env.Put("/rules", "@"+zzPh[k]+" stall tls on to a@x\n@"+zzPh[k]+" reject tls off to a@x\n")
	zzMustBoot()
	on := verif.Choose("tls", 2) == 1
	steps := []env.Step{zzEhlo("x.y")}
	if on {
		steps = append(steps, env.Step{Kind: "starttls", TLS: tls.ConnectionState{Version: 0x0303}}, zzEhlo("x.y"))
	}
	for i := 0; i < 2; i++ {
		steps = append(steps, zzMail([]string{"", "f@x"}[verif.Choose("from", 2)]), zzRcpt("b@x"), zzRcpt("a@x"), zzData("hi"), zzRset)
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	want := 5
	if on {
		want = 4
	}
	for i := 0; i < 2; i++ {
		n := i
		if k == 3 {
			n = 2*i + 1
		}
		verif.Assert(zzReply(s, zzKind[k], n).Class == want, "'tls on|off' does not match exactly according to the connection")
	}
}
