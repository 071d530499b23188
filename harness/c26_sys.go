package main

import (
	rnet "net"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC26Boot starts a server with the empty rule file /rules.
func zzC26Boot() {
	zzServeBare("")
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name == "host.x." {
			return []rnet.IP{rnet.IPv4(192, 0, 2, 1)}, nil
		}
		return []rnet.IP{rnet.IPv4(127, 0, 0, 2)}, nil
	}
	env.LookupAddr = func(ip string) ([]string, error) { return []string{"host.x."}, nil }
}

// zzC26Use puts the text into the rules and has a client do everything; text
// that is no rules leads to everything being deferred.
func zzC26Use(text string) {
	env.Put("/rules", text)
	g := verif.Goroutines()
	verif.Observe("text", text)
	s := zzRun(zzCl, zzEhlo("h.x"), zzMail("a@b.x"), zzRcpt("u@x.y"), zzData("m"), zzMail(""), zzRcpt("u@x.y"), zzRcpt("postmaster"))
	zzObs(s)
	verif.Assert(s.Closed, "a session does not end")
	verif.Assert(verif.Goroutines() == g, "loading or evaluating rules leaves a goroutine behind")
	verif.Assert(!env.Exited, "the server exits")
	// the server still serves others, and in the same way
	t := zzRun("192.0.2.1:1001", zzEhlo("h.x"))
	// (a connection may be dropped at once, without an answer)
	verif.Assert((len(t.Replies) > 0) == (len(s.Replies) > 0), "the same client is answered differently")
	if len(t.Replies) > 0 && len(s.Replies) > 0 {
		verif.Assert(t.Replies[0].Class == s.Replies[0].Class, "the same client is answered differently")
	}
	verif.Assert(verif.Goroutines() == g, "loading or evaluating rules leaves a goroutine behind")
}

// every text of up to 3 (thorough: 4) bytes, any byte values, as rules
func VerifC26_any() {
	n := 3
	if verif.Deep() {
		n = 4
	}
	zzC26Boot()
	zzC26Use(verif.String("text", n))
}

// 'reject from a ' followed by every text of up to 2 (thorough: 4) bytes
func VerifC26_tail() {
	n := 2
	if verif.Deep() {
		n = 4
	}
	zzC26Boot()
	zzC26Use("reject from a " + verif.String("text", n))
}

var zzC26Toks = []string{"reject", "accept", "set-with", "@from", "all", "not", "or", "(", ")", ";", "\n", ",", "\"\"", "\"a b\"",
	"from", "helo-has", "none", "dns", "good", "ip", "192.0.2.0/24", "dnsbl", "bl.x", "dbl", "any", "tls", "on",
	"with", "message", "tls-opt", "off", "make-yakker", "include", "/inc", "file:", "\"", "#", "\\\n"}

// every sequence of up to 2 (thorough: 3) of 38 tokens, separated by blanks or
// nothing, on its own or behind 'reject', 'reject all' or 'reject all with'
func VerifC26_tokens() {
	zzC26Boot()
	env.Put("/inc", "accept to x")
	n := 2
	if verif.Deep() {
		n = 3
	}
	sep := []string{" ", ""}[verif.Choose("sep", 2)]
	text := []string{"", "reject ", "reject all ", "reject all with ", "reject not ", "reject (all "}[verif.Choose("start", 6)]
	for i := 0; i < n; i++ {
		text += zzC26Toks[verif.Choose("token", len(zzC26Toks))] + sep
	}
	zzC26Use(text)
}

// every match operation and option with a quoted argument of up to 1 byte
// (thorough: 2), any byte values but the quote and backslash
func VerifC26_args() {
	n := 1
	if verif.Deep() {
		n = 2
	}
	zzC26Boot()
	ops := []string{"from %", "to %", "helo %", "ehlo %", "host %", "source %", "ip %", "dnsbl %", "dbl any %", "dbl host,ehlo,from %", "from-has %", "tls %",
		"all with message %", "all with note %", "all with savedir %", "all with tls-opt %", "to u@x.y or %", "not from %"}
	what := []string{"reject ", "set-with ", "stall ", "accept "}[verif.Choose("what", 4)]
	op := ops[verif.Choose("op", len(ops))]
	if what == "set-with " && !strings.Contains(op, "with") {
		op += " with note x"
	}
	a := verif.String("arg", n)
	verif.Assume(verif.And(zzNo(a, '"'), zzNo(a, '\\')))
	if strings.HasPrefix(op, "dnsbl") || strings.HasPrefix(op, "dbl") {
		if verif.Bool("dot") {
			a += ".x"
		} else {
			a = "x." + a
		}
	}
	zzC26Use(what + strings.Replace(op, "%", "\""+a+"\"", 1) + "\n")
}

// a pattern file with any content of up to 2 bytes (thorough: 3) and any 7-bit byte values,
// in every operation that takes a file; or a directory, or the file itself
// being missing
func VerifC26_files() {
	n := 2
	if verif.Deep() {
		n = 3
	}
	zzC26Boot()
	op := []string{"from", "to", "helo", "host", "source", "ip"}[verif.Choose("op", 6)]
	not := []string{"", "not "}[verif.Choose("not", 2)]
	switch verif.Choose("kind", 3) {
	case 0:
		a := verif.String("file", n)
		verif.Assume(zzASCII(a))
		env.Put("/pat", a)
	case 1:
		env.Mkdir("/pat")
	}
	zzC26Use("reject " + not + op + " /pat\n")
}

// long and deeply nested texts: N (up to 200, thorough: 2000) opening brackets,
// closing brackets, 'not', 'or', terms, lines, clauses, commas or errors
func VerifC26_nesting() {
	ns := []int{1, 10, 200, 2000}
	if !verif.Deep() {
		ns = ns[:3]
	}
	n := ns[verif.Choose("n", len(ns))]
	rep := func(s string) string { return strings.Repeat(s, n) }
	var t string
	switch verif.Choose("form", 12) {
	case 0:
		t = "reject " + rep("(") + "all" + rep(")")
	case 1:
		t = "reject " + rep("(") + "all"
	case 2:
		t = "reject " + rep("not ") + "all"
	case 3:
		t = "reject all" + rep(" or all")
	case 4:
		t = "reject " + rep("all ")
	case 5:
		t = rep("stall from x\n")
	case 6:
		t = "set-with all with note a" + rep("; all with note b")
	case 7:
		t = "reject helo-has none" + rep(",none")
	case 8:
		t = rep("reject \n")
	case 9:
		t = "reject from \"" + rep("a\n") + "\""
	case 10:
		t = "reject bad\n" + rep("stall from x to y\n")
	default:
		t = rep("accept from x\n") + "reject " + rep("(,")
	}
	zzC26Boot()
	zzC26Use(t)
}

// every phase in front of every operation
func VerifC26_phase() {
	zzC26Boot()
	ops := []string{"from a@b.x", "to u@x.y", "helo h.x", "host host.x", "source b.x", "ip 192.0.2.1", "dnsbl a.x", "dbl any x.y", "dbl host x.y", "dbl ehlo x.y", "dbl from x.y",
		"from-has bad,resolves,baddom,unknown", "to-has bad,resolves,baddom,unknown", "helo-has none,ip,bogus", "tls on", "tls off", "dns good,nodns", "all"}
	ph := []string{"", "@connect ", "@helo ", "@from ", "@to ", "@data ", "@message "}[verif.Choose("phase", 7)]
	act := []string{"accept ", "reject ", "stall ", "set-with "}[verif.Choose("act", 4)]
	tail := []string{"", " with message x note y savedir /save tls-opt off make-yakker", " with tls-opt no-client"}[verif.Choose("with", 3)]
	a := ops[verif.Choose("op", len(ops))]
	if verif.Bool("not") {
		a = "not " + a
	}
	zzC26Use(ph + act + a + tail)
}

// rule texts given at start-up: any up to 2 bytes behind 'reject from a', 'reject ' or nothing:
// the server starts or exits with an error
func VerifC26_start() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", []string{"", "reject from a", "reject "}[verif.Choose("pre", 3)]+verif.String("text", 2))
	ok := zzBoot()
	verif.Observe("ok", ok)
	verif.Assert(ok || env.Exited && env.ExitCode != 0, "the server neither starts nor gives up")
}
