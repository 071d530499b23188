package main

import (
	rnet "net"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/expvar"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

const zzC29D = int64(3600) * 1000000000

func zzC29Boot(dn int, rules string) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["pprof"] = "localhost:8080"
	env.FlagBool["statsperip"] = true
	env.FlagInt["dncount"] = dn
	env.FlagDur["dndur"] = zzC29D
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	env.Put("/rules", rules)
	env.NowNS = 1000000000000000
	zzMustBoot()
}

var zzC29Steps = [][]env.Step{
	{zzQuit},
	{zzHelo("bad"), zzQuit},
	{zzEhlo("h"), {Kind: "badtls"}},
	{zzEhlo("h"), zzQuit},
	{zzHelo("yak"), zzQuit},
}

// two connections of one client at the same time, each doing nothing, being
// refused, failing TLS, being good, or matching make-yakker, with 0-2 earlier
// do-nothing sessions and -dncount 3; interleavings at synchronisation
// operations with at most 1 preemption; no data race. Afterwards the client is
// a do-nothing client exactly if the sessions in some order make it one, and
// the TLS failures of both sessions count.
func VerifC29_sessions() {
	zzC29Boot(3, "@helo reject helo bad\n@helo reject helo yak with make-yakker\n")
	n := verif.Choose("before", 3)
	for i := 0; i < n; i++ {
		zzRun("192.0.2.1:10", zzQuit)
	}
	ka, kb := verif.Choose("A", 5), verif.Choose("B", 5)
	a := env.NewSession("192.0.2.1:1", zzAddr, zzScript(zzC29Steps[ka]...))
	b := env.NewSession("192.0.2.1:2", zzAddr, zzScript(zzC29Steps[kb]...))
	verif.Races()
	k := 1
	if verif.Deep() {
		k = 2
	}
	verif.Interleave(k)
	env.Dial(zzAddr, a)
	env.Dial(zzAddr, b)
	verif.Quiesce()
	verif.Interleave(0)
	verif.Assert(a.Closed && b.Closed, "a session does not end")
	// the possible outcomes
	out := func(ks ...int) bool {
		c := n
		for _, k := range ks {
			switch k {
			case 0, 1:
				// (a session of a client already stalled does not count)
				c++
			case 2, 3:
				c = 0
			case 4:
				c = 3
			}
		}
		return c >= 3
	}
	may := []bool{out(ka, kb), out(kb, ka)}
	if n == 2 || ka == 4 || kb == 4 {
		// one session may be over before the other starts, and turn the
		// client into a do-nothing client: then the other does not count
		for _, f := range []int{ka, kb} {
			if out(f) {
				may = append(may, true)
			}
		}
	}
	s := zzRun("192.0.2.1:3", zzEhlo("h"))
	yak := zzReply(s, "ehlo", 0).Class == 4
	verif.Observe("yak", yak)
	ok := false
	for _, m := range may {
		ok = ok || m == yak
	}
	verif.Assert(ok, "simultaneous sessions are not counted as if they came one at a time")
	if !yak {
		f := 0
		for _, k := range []int{ka, kb} {
			if k == 2 {
				f++
			}
		}
		verif.Assert(s.TLSOffer == (f < 2) && (s.ClientAuth != 0) == (f == 0), "a simultaneous TLS failure is not remembered")
	}
}

// two or three clients at the same time being listed in blocklists by rules:
// every hit is counted (published statistics), the per-address connection
// counts are complete; statistics are read at the same time; no data race
func VerifC29_hits() {
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if strings.HasSuffix(name, ".bl.") {
			return []rnet.IP{rnet.IPv4(127, 0, 0, 2)}, nil
		}
		return nil, env.NoHost
	}
	zzC29Boot(0, "@helo reject dnsbl x.bl dnsbl y.bl\n")
	var ss []*env.Session
	for _, ip := range []string{"192.0.2.1:1", "192.0.2.2:1"} {
		ss = append(ss, env.NewSession(ip, zzAddr, zzScript(zzHelo("h"), zzQuit)))
	}
	rd := verif.Bool("read")
	verif.Races()
	k := 1
	if verif.Deep() {
		k = 3
	}
	verif.Interleave(k)
	for _, s := range ss {
		env.Dial(zzAddr, s)
	}
	if rd {
		zzHits("dnsbl_hits", "x.bl.")
		zzHits("connects_to", zzAddr)
		if f, ok := zzStat("sizes", "yakkers").(expvar.Func); ok {
			f.Value()
		}
	}
	verif.Quiesce()
	verif.Interleave(0)
	for _, s := range ss {
		verif.Assert(s.Closed, "a session does not end")
	}
	verif.Assert(zzHits("dnsbl_hits", "x.bl.") == 2, "a blocklist hit is lost")
	verif.Assert(zzHits("dnsbl_hits", "y.bl.") == 2, "a blocklist hit is lost")
	verif.Assert(zzHits("connects_to", zzAddr) == 2, "a connection is not counted")
}

// sessions of one client one after the other, any 4 (thorough: 5) of the kinds,
// always end: no table stays locked
func VerifC29_unlocked() {
	zzC29Boot(2, "@helo reject helo bad\n@helo reject helo yak with make-yakker\n")
	n := 3
	if verif.Deep() {
		n = 5
	}
	for i := 0; i < n; i++ {
		s := zzRun("192.0.2.1:1", zzC29Steps[verif.Choose("kind", 5)]...)
		verif.Assert(s.Closed, "a session does not end")
		if verif.Choose("late", 2) == 1 {
			env.NowNS += 80 * zzC29D
		}
		if f, ok := zzStat("sizes", "notls").(expvar.Func); ok {
			f.Value()
		}
	}
	s := zzRun("192.0.2.9:1", zzEhlo("h"))
	verif.Assert(s.Closed && zzReply(s, "ehlo", 0).Class == 2, "another client is not served")
}
