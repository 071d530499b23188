package main

import (
	rnet "net"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC24DNS: exactly the given names have an address.
func zzC24DNS(listed func(name string) bool) {
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if listed(name) {
			return []rnet.IP{{127, 0, 0, 2}}, nil
		}
		return nil, env.NoHost
	}
}

// zzC24Hits returns the lines about DNSBL hits in the SMTP log.
func zzC24Hits() []string {
	var r []string
	for _, l := range strings.Split(zzLog("/log/smtp"), "\n") {
		if i := strings.Index(l, "! dnsbl hit: "); i >= 0 {
			r = append(r, l[i+len("! dnsbl hit: "):])
		}
	}
	return r
}

// 'dnsbl D' with an arbitrary client address (1 digit octets) and an arbitrary
// listed address; D with or without a final dot
func VerifC24_dnsbl() {
	c := verif.StringIn("client", 4, "0123456789")
	l := verif.StringIn("listed", 4, "0123456789")
	client := c[0:1] + "." + c[1:2] + "." + c[2:3] + "." + c[3:4]
	listed := l[3:4] + "." + l[2:3] + "." + l[1:2] + "." + l[0:1] + ".bl.x."
	zzC24DNS(func(n string) bool { return verif.EqStr(n, listed) })
	zzServeBare("@helo reject dnsbl bl.x" + []string{"", "."}[verif.Choose("dot", 2)] + "\n")
	s := zzRun(client+":1000", zzEhlo("h"))
	zzObs(s)
	hit := zzReply(s, "ehlo", 0).Class == 5
	verif.Assert(verif.Iff(hit, verif.EqStr(c, l)), "'dnsbl' does not match exactly the listed addresses")
	if hit {
		h := zzC24Hits()
		verif.Assert(len(h) == 1 && h[0] == "bl.x.", "the blocklist hit is not reported")
	} else {
		verif.Assert(len(zzC24Hits()) == 0, "a blocklist hit is reported without a hit")
	}
}

// octets of 2 and 3 digits
func VerifC24_octets() {
	d := verif.StringIn("digits", 4, "0123456789")
	client := "1" + d[0:1] + ".1" + d[1:2] + "2.2" + d[2:3] + ".20" + d[3:4]
	verif.Assume(d[3] <= '5')
	listed := "20" + d[3:4] + ".2" + d[2:3] + ".1" + d[1:2] + "2.1" + d[0:1] + ".bl.x."
	n := 0
	zzC24DNS(func(nm string) bool {
		if zzHasSuffix(nm, ".bl.x.") {
			n++
			verif.Assert(verif.EqStr(nm, listed), "'dnsbl' looks up the wrong name")
			return true
		}
		return false
	})
	zzServeBare("@helo reject dnsbl bl.x\n")
	s := zzRun(client+":1000", zzEhlo("h"))
	zzObs(s)
	verif.Assert(n > 0 && zzReply(s, "ehlo", 0).Class == 5, "'dnsbl' does not match a listed address")
}

// clients that are not IPv4: 'dnsbl' never matches, whatever DNS says
func VerifC24_v6() {
	zzC24DNS(func(nm string) bool { return true })
	zzServeBare("@helo reject dnsbl bl.x\n")
	r := []string{"[2001:db8::1]:1000", "[::1]:1000", "[fe80::1%eth0.100]:1000"}[verif.Choose("client", 3)]
	s := zzRun(r, zzEhlo("h"))
	zzObs(s)
	verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "'dnsbl' matches a client that is not IPv4")
}

// failed or empty lookups never match
func VerifC24_fail() {
	k := verif.Choose("how", 4)
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		switch k {
		case 0:
			return nil, env.NoHost
		case 1:
			return nil, &rnet.DNSError{Err: "server misbehaving", IsTemporary: true}
		case 2:
			return []rnet.IP{{127, 0, 0, 2}}, &rnet.DNSError{Err: "server misbehaving"}
		}
		return []rnet.IP{}, nil
	}
	zzServeBare("@helo reject dnsbl bl.x or dbl helo dbl.x\n@from reject not dnsbl bl.x not dbl any dbl.x\n")
	s := zzRun(zzCl, zzEhlo("h.x"), zzMail("a@b.c"))
	zzObs(s)
	verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "a failed lookup matches")
	verif.Assert(zzReply(s, "mail", 0).Class == 5, "a failed lookup matches")
	verif.Assert(len(zzC24Hits()) == 0, "a blocklist hit is reported without a hit")
}

var zzC24Srcs = []struct {
	text             string
	helo, host, from bool
}{
	{"helo", true, false, false},
	{"ehlo", true, false, false},
	{"host", false, true, false},
	{"from", false, false, true},
	{"any", true, true, true},
	{"helo,from", true, false, true},
	{"from,host", false, true, true},
	{"host,ehlo", true, true, false},
}

// 'dbl SRCS D' for every selection of sources, reverse names of each class
// (and one without a final dot), every combination of listed names
func VerifC24_dbl() {
	src := zzC24Srcs[verif.Choose("srcs", len(zzC24Srcs))]
	names := []string{"helo.name", "v.x", "nf.x", "ic.x", "from.dom"}
	rev := []string{"v.x.", "nf.x.", "ic.x."}
	nodot := verif.Bool("nodot")
	if nodot {
		names[1] = "localhost"
		rev[0] = "localhost"
	}
	listed := make([]bool, len(names))
	for i := range listed {
		listed[i] = verif.Bool("listed")
	}
	env.LookupAddr = func(ip string) ([]string, error) { return append([]string{}, rev...), nil }
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		switch name {
		case rev[0]:
			return []rnet.IP{{192, 0, 2, 1}}, nil
		case rev[2]:
			return []rnet.IP{{192, 0, 2, 2}}, nil
		}
		for i, n := range names {
			if name == n+".dbl.x." && listed[i] {
				return []rnet.IP{{127, 0, 0, 2}}, nil
			}
		}
		return nil, env.NoHost
	}
	zzServeBare("@from reject dbl " + src.text + " dbl.x\n")
	s := zzRun(zzCl, zzEhlo("helo.name"), zzMail("a@from.dom"))
	zzObs(s)
	want := src.helo && listed[0] || src.host && (listed[1] || listed[2] || listed[3]) || src.from && listed[4]
	verif.Assert((zzReply(s, "mail", 0).Class == 5) == want, "'dbl' does not match exactly when a selected name is listed")
	h := zzC24Hits()
	if want {
		verif.Assert(len(h) == 1 && h[0] == "dbl.x.", "the blocklist hit is not reported once")
	} else {
		verif.Assert(len(h) == 0, "a blocklist hit is reported without a hit")
	}
}

// arbitrary HELO name or sender domain (up to 3 bytes from "-.ab")
func VerifC24_names() {
	al := "-.ab"
	n := verif.StringIn("name", 3, al)
	from := verif.Bool("from")
	want := verif.StringIn("listed", 3, al)
	zzC24DNS(func(nm string) bool { return verif.EqStr(nm, want+".dbl.x.") })
	zzServeBare("@from reject dbl " + []string{"helo", "from"}[verif.IteInt(from, 1, 0)] + " dbl.x\n")
	var s *env.Session
	def := true
	if from {
		// only domains that are not unqualified or garbage count
		verif.Assume(n[0] != '.')
		def = verif.And(n[2] != '.', n[1] == '.')
		s = zzRun(zzCl, zzEhlo("h"), zzMail("u@"+n))
	} else {
		s = zzRun(zzCl, zzEhlo(n), zzMail("u@v"))
	}
	zzObs(s)
	verif.Assert(verif.Iff(zzReply(s, "mail", 0).Class == 5, verif.And(def, verif.EqStr(n, want))), "'dbl' does not look up the right name")
}

// addresses whose domain is not defined, and the null sender, are never looked
// up
func VerifC24_noname() {
	zzC24DNS(func(nm string) bool { return true })
	zzServeBare("@from set-with dbl from dbl.x with message hit\n")
	f := []string{"", "noat", "a@unqual", "@r.x:u@y.z", "u@x.y.", "u@x.y>", "@x.y"}[verif.Choose("from", 7)]
	s := zzRun(zzCl, zzEhlo("h"), zzMail(f))
	zzObs(s)
	verif.Assert(zzReply(s, "mail", 0).Msg != "hit", "'dbl from' matches without a proper sender domain")
}

// each blocklist that hits is reported once per decision: two dnsbl and two dbl
// rules over two lists, in every phase, with arbitrary answers
func VerifC24_report() {
	var l [3]bool
	for i := range l {
		l[i] = verif.Bool("listed")
	}
	zzC24DNS(func(nm string) bool {
		switch nm {
		case "1.2.0.192.a.bl.":
			return l[0]
		case "1.2.0.192.b.bl.":
			return l[1]
		case "h.x.b.bl.":
			return l[2]
		}
		return false
	})
	zzServeBare("@from set-with dnsbl b.bl dnsbl a.bl with message x\n@from set-with dnsbl a.bl or dnsbl b.bl with note n\n@from set-with dbl helo b.bl with message z\n@from set-with dbl helo,from b.bl with message y\n")
	s := zzRun(zzCl, zzEhlo("h.x"), zzMail("a@b.c"))
	zzObs(s)
	want := ""
	if l[0] {
		// the second rule looks at a.bl in any case
		want += " a.bl."
	}
	if l[1] || l[2] {
		want += " b.bl."
	}
	h := zzC24Hits()
	if want == "" {
		verif.Assert(len(h) == 0, "a blocklist hit is reported without a hit")
	} else {
		verif.Assert(len(h) == 1 && " "+h[0] == want, "the blocklist hits are not reported once each")
	}
}

// repeated checks agree with the answer obtained, whatever DNS says later;
// other sessions ask again
func VerifC24_repeat() {
	n := 0
	first, later := verif.Bool("first"), verif.Bool("later")
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name != "1.2.0.192.bl.x." && name != "h.x.dbl.x." {
			return nil, env.NoHost
		}
		n++
		a := first
		if n > 1 {
			a = later
		}
		if a {
			return []rnet.IP{{127, 0, 0, 2}}, nil
		}
		return []rnet.IP{}, nil
	}
	op := []string{"dnsbl bl.x", "dbl helo dbl.x"}[verif.Choose("op", 2)]
	zzServeBare("@helo set-with " + op + " with note hit1\n@from reject " + op + "\n")
	s := zzRun(zzCl, zzEhlo("h.x"), zzMail("a@b.c"), zzRset, zzMail("b@b.c"))
	zzObs(s)
	verif.Assert(strings.Contains(zzLog("/log/smtp"), "hit1") == first, "a blocklist rule does not follow the answer")
	verif.Assert((zzReply(s, "mail", 0).Class == 5) == first, "repeated checks of a blocklist disagree")
	verif.Assert((zzReply(s, "mail", 1).Class == 5) == first, "repeated checks of a blocklist disagree")
}

// two blocklists with arbitrary domains (two labels of one letter, a or
// b), of which an arbitrary one lists the client or its HELO name, each used
// by an operation of either kind: neither answer is taken for the other
func VerifC24_two() {
	var d [3]string
	for i := range d {
		d[i] = verif.StringIn("label", 1, "ab") + "." + verif.StringIn("label", 1, "ab")
	}
	what := []string{"1.2.0.192", "h.x"}
	l := verif.Choose("listed", 2)
	zzC24DNS(func(nm string) bool { return verif.EqStr(nm, what[l]+"."+d[2]+".") })
	op := []string{"dnsbl ", "dbl helo "}
	k1, k2 := verif.Choose("op", 2), verif.Choose("op", 2)
	zzServeBare("@from set-with " + op[k1] + d[0] + " with message one\n@from reject " + op[k2] + d[1] + "\n@to reject " + op[k1] + d[0] + "\n")
	s := zzRun(zzCl, zzEhlo("h.x"), zzMail("a@b.c"), zzMail(""), zzRcpt("u@v.w"))
	zzObs(s)
	w1 := verif.And(l == k1, verif.EqStr(d[0], d[2]))
	w2 := verif.And(l == k2, verif.EqStr(d[1], d[2]))
	r := zzReply(s, "mail", 0)
	verif.Assert(verif.Iff(strings.Contains(r.Msg, "one"), w1), "the answer for one blocklist is taken for another")
	verif.Assert(verif.Iff(r.Class == 5, w2), "the answer for one blocklist is taken for another")
	verif.Assert(verif.Iff(zzReply(s, "rcpt", 0).Class == 5, verif.Or(w1, w2)), "the answer for one blocklist is taken for another")
}

// whatever addresses a blocklist answers with (1 or 2, IPv4 with two arbitrary
// bytes or IPv6), they count
func VerifC24_answers() {
	var ips []rnet.IP
	for i := 1 + verif.Choose("n", 2); i > 0; i-- {
		x := verif.Byte("x")
		if verif.Choose("family", 2) == 0 {
			ips = append(ips, rnet.IP{verif.Byte("first"), 0, 0, x})
		} else {
			ips = append(ips, rnet.IP{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, x})
		}
	}
	op := verif.Choose("op", 2)
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name == []string{"1.2.0.192.bl.x.", "h.x.bl.x."}[op] {
			return ips, nil
		}
		return nil, env.NoHost
	}
	zzServeBare("@helo reject " + []string{"dnsbl", "dbl helo"}[op] + " bl.x\n")
	s := zzRun(zzCl, zzEhlo("h.x"))
	zzObs(s)
	verif.Assert(zzReply(s, "ehlo", 0).Class == 5, "an answer of a blocklist does not count")
}

// three senders of one session in any order out of three domains, one below
// another, and the HELO name, each listed in a blocklist or not: every sender is
// judged by its own domain, at MAIL FROM or RCPT TO
func VerifC24_session() {
	doms := []string{"x.y.z", "y.z", "z.y"}
	on := [4]bool{}
	for i := range on {
		on[i] = verif.Bool("listed")
	}
	env.LookupIP = func(name string) (zzIPs, error) {
		for i, d := range append(doms, "h.y.z") {
			if name == d+".h.bl." && on[i] {
				return zzIPs{{127, 0, 0, 2}}, nil
			}
		}
		return nil, env.NoHost
	}
	at := verif.Choose("phase", 2)
	zzServeBare([]string{"@from", "@to"}[at] + " reject dbl from h.bl\n@helo set-with dbl ehlo h.bl with note n\n")
	steps := []env.Step{zzEhlo("h.y.z")}
	var d [3]int
	for i := range d {
		d[i] = verif.Choose("domain", 3)
		steps = append(steps, zzMail("u@"+doms[d[i]]), zzRcpt("v@w.x"), zzRset)
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	for i := range d {
		r := zzReply(s, []string{"mail", "rcpt"}[at], i)
		verif.Assert(verif.Iff(r.Class == 5, on[d[i]]), "a sender is not judged by its own domain")
	}
}
