package main

import (
	rnet "net"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

const zzC22Rules = "@from reject from-has resolves\n@from stall from-has unknown\n@from accept from-has baddom with message bad\n"

// verdicts, from bad to good
const (
	zzDBad = iota
	zzDTemp
	zzDGood
)

// zzC22Err is a lookup error: does not exist, or one of the temporary ones.
func zzC22Err(label string) (error, int) {
	switch verif.Choose(label+".err", 4) {
	case 0:
		return env.NoHost, zzDBad
	case 1:
		return &rnet.DNSError{Err: "server misbehaving", Name: "x", Server: "s"}, zzDTemp
	case 2:
		return &rnet.DNSError{Err: "i/o timeout", Name: "x", IsTimeout: true}, zzDTemp
	}
	return &rnet.DNSError{Err: "cannot talk", Name: "x", IsTemporary: true}, zzDTemp
}

// zzC22Good4 says whether an IPv4 address is global and not private.
func zzC22Good4(a, b, c, d byte) bool {
	return verif.And(
		!verif.And(a == 0, b == 0, c == 0, d == 0),
		!verif.And(a == 255, b == 255, c == 255, d == 255),
		a != 127, a != 10, a>>4 != 14,
		!verif.And(a == 169, b == 254),
		!verif.And(a == 172, b>>4 == 1),
		!verif.And(a == 192, b == 168))
}

// zzC22IP is an arbitrary IPv4 address (4 or 16 bytes long) or an IPv6
// address x:y::z with arbitrary first two and last bytes.
func zzC22IP() (rnet.IP, bool) {
	switch verif.Choose("family", 3) {
	case 0:
		a, b, c, d := verif.Byte("a"), verif.Byte("b"), verif.Byte("c"), verif.Byte("d")
		return rnet.IP{a, b, c, d}, zzC22Good4(a, b, c, d)
	case 1:
		a, b, c, d := verif.Byte("a"), verif.Byte("b"), verif.Byte("c"), verif.Byte("d")
		return rnet.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, a, b, c, d}, zzC22Good4(a, b, c, d)
	}
	a, b, z := verif.Byte("a"), verif.Byte("b"), verif.Byte("z")
	good := verif.And(
		!verif.And(a == 0, b == 0, z < 2),
		a != 0xff, a>>1 != 0x7e,
		!verif.And(a == 0xfe, b >= 0x80))
	return rnet.IP{a, b, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, z}, good
}

var zzC22Good = rnet.IP{198, 51, 100, 1}
var zzC22Private = []rnet.IP{{10, 1, 2, 3}, {172, 31, 255, 255}, {192, 168, 0, 1}, {127, 0, 0, 1}, {0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {0xfe, 0xc0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}

// zzC22Serve checks the verdict for a sender in a.b.
func zzC22Serve(want int) {
	zzServeBare(zzC22Rules)
	s := zzRun(zzCl, zzEhlo("h"), zzMail("u@a.b"))
	zzObs(s)
	r := zzReply(s, "mail", 0)
	got := -1
	switch {
	case r.Class == 5:
		got = zzDGood
	case r.Class == 4:
		got = zzDTemp
	case r.Class == 2 && r.Msg == "bad":
		got = zzDBad
	}
	verif.Observe("verdict", got, want)
	verif.Assert(got == want, "a domain is not judged as documented")
}

// one host with up to 2 arbitrary addresses (IPv4 fully, IPv6 in three bytes),
// as the only MX or as the domain itself
func VerifC22_addresses() {
	mx := verif.Bool("mx")
	host := "a.b."
	if mx {
		host = "m.x."
	}
	n := verif.Choose("n", 3)
	ips := []rnet.IP{}
	good := n > 0
	for i := 0; i < n; i++ {
		ip, g := zzC22IP()
		ips = append(ips, ip)
		good = verif.And(good, g)
	}
	env.LookupMX = func(name string) ([]*rnet.MX, error) {
		if mx && name == "a.b." {
			return []*rnet.MX{{Host: host, Pref: 10}}, nil
		}
		return nil, env.NoHost
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name == host {
			return ips, nil
		}
		return nil, env.NoHost
	}
	zzC22Serve(verif.IteInt(good, zzDGood, zzDBad))
}

// zzC22Host is the answer for one host name.
func zzC22Host() ([]rnet.IP, error, int) {
	switch verif.Choose("host", 5) {
	case 0:
		e, v := zzC22Err("host")
		return nil, e, v
	case 1:
		return []rnet.IP{}, nil, zzDBad
	case 2:
		return []rnet.IP{zzC22Good}, nil, zzDGood
	case 3: // a bad one among good ones
		p := zzC22Private[verif.Choose("private", len(zzC22Private))]
		l := []rnet.IP{zzC22Good, zzC22Good, zzC22Good}
		l[verif.Choose("at", 3)] = p
		return l, nil, zzDBad
	}
	return []rnet.IP{zzC22Good, zzC22Good}, nil, zzDGood
}

// no MX: every outcome of the MX lookup and of the address lookup
func VerifC22_nomx() {
	me, mv := zzC22Err("mx")
	ips, he, hv := zzC22Host()
	env.LookupMX = func(name string) ([]*rnet.MX, error) { return nil, me }
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name == "a.b." {
			return ips, he
		}
		return nil, env.NoHost
	}
	want := hv
	if mv == zzDTemp {
		want = zzDTemp
	}
	zzC22Serve(want)
}

// zzC22MX: n MX entries, each with good, bad or unknown hosts or null or
// localhost, preference 0 or not
func zzC22MX(n int) {
	null := false
	best := zzDBad
	var mxs []*rnet.MX
	var kinds []int
	for i := 0; i < n; i++ {
		k := verif.Choose("kind", 6)
		kinds = append(kinds, k)
		host := "m" + string(rune('0'+i)) + ".x."
		switch k {
		case 1:
			best = zzMax(best, zzDTemp)
		case 2:
			best = zzMax(best, zzDGood)
		case 3:
			host = "."
			null = true
		case 4:
			host = []string{"localhost.", "LOCALhost."}[verif.Choose("case", 2)]
			null = true
		}
		mxs = append(mxs, &rnet.MX{Host: host, Pref: []uint16{0, 20}[verif.Choose("pref", 2)]})
	}
	env.LookupMX = func(name string) ([]*rnet.MX, error) {
		if name == "a.b." {
			return mxs, nil
		}
		return nil, env.NoHost
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if len(name) == 5 && name[0] == 'm' {
			switch kinds[name[1]-'0'] {
			case 0:
				return nil, env.NoHost
			case 1:
				return nil, &rnet.DNSError{Err: "server misbehaving", Name: "x"}
			case 5:
				return []rnet.IP{zzC22Good, {10, 0, 0, 1}}, nil
			}
		}
		// '.', 'localhost.' and the domain itself would do
		return []rnet.IP{zzC22Good}, nil
	}
	want := best
	if null {
		want = zzDBad
	}
	zzC22Serve(want)
}

func zzMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// 1 to 3 MX entries: good, nonexistent, temporarily failing, private
// address, null MX, localhost; preferences 0 or 20
func VerifC22_mx() { zzC22MX(1 + verif.Choose("n", 3)) }

// 4 and 5 MX entries
func VerifC22_mx_deep() { zzC22MX(4 + verif.Choose("n", 2)) }

// repeated use within a session keeps agreeing, and senders of another
// domain are judged by their own domain
func VerifC22_twice() {
	zzServeBare(zzC22Rules)
	good := verif.Bool("good")
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if (name == "a.b.") == good {
			return []rnet.IP{zzC22Good}, nil
		}
		return nil, env.NoHost
	}
	s := zzRun(zzCl, zzEhlo("h"), zzMail("u@a.b"), zzRset, zzMail("u@c.d"), zzRset, zzMail("v@a.b"))
	zzObs(s)
	for i, dom := range []bool{true, false, true} {
		r := zzReply(s, "mail", i)
		if dom == good {
			verif.Assert(r.Class == 5, "a domain is not judged as documented")
		} else {
			verif.Assert(r.Class == 2 && r.Msg == "bad", "a domain is not judged as documented")
		}
	}
}

// three domains, one a subdomain of another, each good, bad or temporarily
// failing, used by three senders and recipients of one session in any order:
// each address is judged by its own domain every time
func VerifC22_session() {
	zzServeBare(zzC22Rules + "@to reject to-has resolves\n@to stall to-has unknown\n@to accept to-has baddom with message bad\n")
	doms := []string{"a.b", "x.a.b", "b.a"}
	v := [3]int{}
	for i := range v {
		v[i] = verif.Choose("verdict", 3)
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		for i, d := range doms {
			if name == d+"." && v[i] == zzDGood {
				return []rnet.IP{zzC22Good}, nil
			}
			if name == d+"." && v[i] == zzDTemp {
				return nil, &rnet.DNSError{Err: "i/o timeout", Name: "x", IsTimeout: true}
			}
		}
		return nil, env.NoHost
	}
	steps := []env.Step{zzEhlo("h")}
	var d [3]int
	var to [3]bool
	for i := range d {
		d[i] = verif.Choose("domain", 3)
		to[i] = i > 0 && verif.Choose("to", 2) == 1
		if to[i] {
			steps = append(steps, zzMail(""), zzRcpt("u@"+doms[d[i]]), zzRset)
		} else {
			steps = append(steps, zzMail("u@"+doms[d[i]]), zzRset)
		}
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	nt := 0
	for i := range d {
		r := zzReply(s, "mail", i)
		if to[i] {
			r = zzReply(s, "rcpt", nt)
			nt++
		}
		switch v[d[i]] {
		case zzDGood:
			verif.Assert(r.Class == 5, "a domain is not judged as documented")
		case zzDTemp:
			verif.Assert(r.Class == 4, "a domain is not judged as documented")
		default:
			verif.Assert(r.Class == 2 && r.Msg == "bad", "a domain is not judged as documented")
		}
	}
}
