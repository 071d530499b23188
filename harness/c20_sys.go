package main

import (
	"strconv"

	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

const zzC20H = int64(3600) * 1000000000

// zzC20Boot: certs 0 none, 1 command line, 2 conncfg line with certificates,
// 3 command line but the conncfg line has none
func zzC20Boot(certs int, rules string) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", rules)
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	env.Put("/c2", "cert B")
	env.Put("/k2", "key B")
	if certs == 1 || certs == 3 {
		env.FlagStr["c"] = "/c"
		env.FlagStr["k"] = "/k"
	}
	switch certs {
	case 2:
		env.FlagStr["conncfg"] = "/cfg"
		env.Put("/cfg", "127.0.0.1:25 hostname=other cert=/c2 key=/k2\n")
	case 3:
		env.FlagStr["conncfg"] = "/cfg"
		env.Put("/cfg", "* hostname=other\n")
	}
	env.NowNS = 1000000000000000
	zzMustBoot()
}

var zzTLS12 = tls.ConnectionState{Version: 0x0303, CipherSuite: 0xc02f}

// zzC20Ref is the TLS failure record of a client.
type zzC20Ref struct {
	cnt  int
	last int64
}

func (r *zzC20Ref) fails() int {
	if r.cnt == 0 || env.NowNS-r.last >= 72*zzC20H {
		return 0
	}
	return r.cnt
}

// zzC20Check checks what a session offered.
func zzC20Check(s *env.Session, offer, ask bool) {
	zzObs(s)
	verif.Observe("offer", offer, ask)
	verif.Assert(s.TLSOffer == offer, "TLS is not offered exactly when it should be")
	for _, o := range s.Offers {
		verif.Assert(o == offer, "TLS is not offered exactly when it should be")
	}
	if offer {
		verif.Assert((s.ClientAuth != 0) == ask, "a client certificate is not requested exactly when it should be")
	}
}

// certificates configured or not (command line, -conncfg), tls-opt rules at
// connect time that match or not (any combination of three rules)
func VerifC20_rules() {
	zzTruths(3)
	certs := verif.Choose("certs", 4)
	zzC20Boot(certs, "@connect set-with "+zzOp(0)+" with tls-opt off\n@connect set-with "+zzOp(1)+" with tls-opt no-client\n@connect accept "+zzOp(2)+" with tls-opt no-client\n")
	s := zzRun(zzCl, zzEhlo("h"))
	offer := certs == 1 || certs == 2
	ask := true
	// later options override earlier ones
	if zzT[1] || zzT[2] {
		ask = false
	} else if zzT[0] {
		offer = false
	}
	if offer {
		c, ok := s.TLSCfg.(*tls.Config)
		verif.Assert(ok && len(c.Certificates) == 1, "TLS is offered without the configured certificate")
	}
	zzC20Check(s, offer, ask)
}

// zzC20Seq: n sessions of two clients with TLS failures or not at arbitrary
// times
func zzC20Seq(n int, certs int) {
	zzC20Boot(certs, "accept all\n")
	var refs [2]zzC20Ref
	ips := []string{"192.0.2.1", "192.0.2.2"}
	for i := 0; i < n; i++ {
		env.NowNS += int64(verif.Int("gap", 0, 100*int(zzC20H)))
		who, kind := 0, 0
		if i < n-1 {
			kind = verif.Choose("kind", 4)
			if kind == 3 {
				who = 1
				kind = 1
			}
		} else {
			who = verif.Choose("who", 2)
		}
		r := &refs[who]
		f := r.fails()
		remote := ips[who] + ":" + strconv.Itoa(1000+i)
		steps := []env.Step{zzEhlo("h")}
		switch kind {
		case 1: // fails
			steps = append(steps, env.Step{Kind: "badtls"})
		case 2: // succeeds
			steps = append(steps, env.Step{Kind: "starttls", TLS: zzTLS12}, zzEhlo("h"), zzMail("a@b"))
		}
		s := zzRun(remote, steps...)
		zzObs(s)
		offer := certs > 0 && f < 2
		verif.Assert(s.TLSOffer == offer, "TLS is not offered exactly when it should be")
		verif.Assert(len(s.Offers) > 0 && s.Offers[0] == offer, "TLS is not offered exactly when it should be")
		if offer {
			verif.Assert((s.ClientAuth != 0) == (f == 0), "a client certificate is not requested exactly when it should be")
		}
		if kind == 1 && offer {
			if f == 0 {
				r.cnt = 0
			}
			r.cnt++
			r.last = env.NowNS
		}
	}
}

// 4 sessions of two clients, each with a TLS failure, success or neither, at
// arbitrary times (0..100 hours apart, ns resolution)
func VerifC20_failures() { zzC20Seq(4, 1) }

// 6 sessions
func VerifC20_failures_deep() { zzC20Seq(6, 1) }

// TLS failures never count when TLS is not configured
func VerifC20_none() { zzC20Seq(3, 0) }

// tls-opt in a rule that is not checked at connect time has no say over
// connect time, rules of other connections and earlier ones do not either
func VerifC20_leak() {
	zzTruths(1)
	zzC20Boot(1, "set-with ip 192.0.2.1 "+zzOp(0)+" with tls-opt off\n")
	s := zzRun(zzCl, zzEhlo("h"))
	zzC20Check(s, !zzT[0], true)
	s = zzRun("192.0.2.3:1", zzEhlo("h"))
	zzC20Check(s, true, true)
	zzT[0] = false
	s = zzRun("192.0.2.1:1", zzEhlo("h"))
	zzC20Check(s, true, true)
}

// several failures in one connection attempt count once each: the session
// ends at its TLS failure; sessions that fail at the same time count both
func VerifC20_parallel() {
	verif.Interleave(1)
	zzC20Boot(1, "accept all\n")
	a := env.NewSession("192.0.2.1:1", zzAddr, zzScript(zzEhlo("h"), env.Step{Kind: "badtls"}))
	b := env.NewSession("192.0.2.1:2", zzAddr, zzScript(zzEhlo("h"), env.Step{Kind: "badtls"}))
	env.Dial(zzAddr, a)
	env.Dial(zzAddr, b)
	verif.Quiesce()
	verif.Assert(a.Closed && b.Closed, "a session does not end")
	verif.Assert(a.TLSOffer && b.TLSOffer, "TLS is not offered exactly when it should be")
	s := zzRun("192.0.2.1:3", zzEhlo("h"))
	zzC20Check(s, false, false)
}
