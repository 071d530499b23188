package main

import (
	rnet "net"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

var zzAddrAttrs = []string{"noat", "route", "quoted", "unqualified", "garbage", "bad", "resolves", "baddom", "unknown"}

// the whole server: 'from-has X' and 'to-has X' for each attribute, any
// sender (including none) or recipient of up to 5 (thorough: 7) characters of
// '"', '.', '<', '>', '@', ']', 'a' and any DNS verdict about its domain
func VerifC03_rules() {
	n := 5
	if verif.Deep() {
		n = 7
	}
	at := zzAddrAttrs[verif.Choose("attr", len(zzAddrAttrs))]
	to := verif.Choose("what", 2) == 1
	min := 0
	if to {
		min = 1
	}
	a := zzStr("addr", min, n, "\".<>@]a")
	good, temp := verif.Bool("good"), verif.Bool("temp")
	env.LookupMX = func(name string) ([]*rnet.MX, error) {
		if zzIsDomainOf(name, a) {
			if good {
				return []*rnet.MX{{Host: "mx.example.com.", Pref: 10}}, nil
			}
			if temp {
				return nil, &rnet.DNSError{Err: "timeout", Name: name, IsTimeout: true, IsTemporary: true}
			}
		}
		return nil, env.NoHost
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name == "mx.example.com." {
			return []rnet.IP{rnet.IPv4(198, 51, 100, 9)}, nil
		}
		return nil, env.NoHost
	}
	var s *env.Session
	k := "mail"
	if to {
		zzServeBare("reject to-has " + at + "\n")
		s = zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r"), zzRcpt(a))
		k = "rcpt"
	} else {
		zzServeBare("reject from-has " + at + "\n")
		s = zzRun(zzCl, zzEhlo("x.y"), zzMail(a), zzRcpt("c@d"))
		if a == "" {
			k = "rcpt"
		}
	}
	zzObs(s)
	got := zzReply(s, k, 0).Class == 5
	w := specAddrAttrs(a)
	has := verif.And(len(a) > 0, w.hasDomain())
	var want bool
	switch at {
	case "noat":
		want = w.noat
	case "route":
		want = w.route
	case "quoted":
		want = w.quoted
	case "unqualified":
		want = w.unqual
	case "garbage":
		want = w.garbage
	case "bad":
		want = verif.Or(w.noat, w.quoted, w.unqual, w.garbage)
	case "resolves":
		want = verif.And(has, good)
	case "unknown":
		want = verif.And(has, !good, temp)
	case "baddom":
		want = verif.And(has, !good, !temp)
	}
	verif.Assert(verif.Iff(got, want), at+" does not hold exactly when documented")
}

// three recipients or senders of one session with arbitrary first character
// and one of 4 domains (two of which exist), every attribute: each is judged
// on its own
func VerifC03_session() {
	at := zzAddrAttrs[verif.Choose("attr", len(zzAddrAttrs))]
	to := verif.Choose("what", 2) == 1
	doms := []string{"a.b", "a", "a.b>", "c.d"}
	env.LookupMX = func(name string) ([]*rnet.MX, error) { return nil, env.NoHost }
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name == "a.b." {
			return []rnet.IP{rnet.IPv4(198, 51, 100, 9)}, nil
		}
		return nil, env.NoHost
	}
	steps := []env.Step{zzEhlo("x.y")}
	k := "mail"
	if to {
		k = "rcpt"
		zzServeBare("reject to-has " + at + "\n")
		steps = append(steps, zzMail("q@r"))
	} else {
		zzServeBare("reject from-has " + at + "\n")
	}
	var a [3]string
	var d [3]int
	for i := range a {
		if i < 2 {
			d[i] = verif.Choose("domain", len(doms))
		}
		a[i] = verif.StringIn("first", 1, "\"<@a") + "x@" + doms[d[i]]
		if to {
			steps = append(steps, zzRcpt(a[i]))
		} else {
			steps = append(steps, zzMail(a[i]), zzRset)
		}
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	for i := range a {
		w := specAddrAttrs(a[i])
		want := false
		switch at {
		case "noat":
			want = w.noat
		case "route":
			want = w.route
		case "quoted":
			want = w.quoted
		case "unqualified":
			want = w.unqual
		case "garbage":
			want = w.garbage
		case "bad":
			want = verif.Or(w.noat, w.quoted, w.unqual, w.garbage)
		case "resolves":
			want = verif.And(w.hasDomain(), d[i] == 0)
		case "baddom":
			want = verif.And(w.hasDomain(), d[i] != 0)
		}
		verif.Assert(verif.Iff(zzReply(s, k, i).Class == 5, want), "an address does not have exactly the documented attributes")
	}
}
