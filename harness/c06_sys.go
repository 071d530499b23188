package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// match operations that are always true for zzC06Run's client, and the first
// phase in which their data exists (0 connect ... 5 message)
var zzTrueOps = []string{
	"all", "ip 192.0.2.0/24", "host a.example.com", "dns exists", "dnsbl t0.bl", "dbl host t0.bl",
	"helo x.y", "ehlo .y", "helo-has ehlo", "dbl helo t0.bl", "dbl ehlo,host t0.bl",
	"from q@r.s", "from-has baddom", "source .y", "tls off", "dbl from t0.bl", "dbl any t0.bl", "dbl from,host t0.bl",
	"to u@v.w", "to-has baddom",
}
var zzOpNeed = []int{0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 3, 3}

func zzC06Env() {
	zzRDNS([]string{"a.example.com."}, []bool{true})
	l := env.LookupIP
	env.LookupIP = func(name string) (r zzIPs, err error) {
		if strings.HasSuffix(name, ".t0.bl.") {
			return zzIPs{{127, 0, 0, 2}}, nil
		}
		return l(name)
	}
}

func zzC06Run() *env.Session {
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzData("hi\r\n"))
	zzObs(s)
	return s
}

// zzVerdicts: the phase at which the session was first refused, or 6
func zzRefusedAt(s *env.Session) int {
	if len(s.Replies) == 0 {
		return 0
	}
	for p := 1; p < 6; p++ {
		if zzReply(s, zzKind[p], 0).Class >= 4 {
			return p
		}
	}
	return 6
}

func zzMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// every pair of the 20 kinds of match operations, joined by and, or, 'not
// (not .. or not ..)' or in a compact rule, with every explicit phase or
// none, under a further condition of any truth value: refused on loading exactly when the phase is too early; a reject or
// stall takes effect exactly in its phase, or without a phase as soon as the
// data exists
func VerifC06_pairs() {
	a := verif.Choose("a", len(zzTrueOps))
	b := verif.Choose("b", len(zzTrueOps))
	ph := verif.Choose("phase", 7) - 1
	need := zzMax(zzOpNeed[a], zzOpNeed[b])
	A, B := zzTrueOps[a], zzTrueOps[b]
	var e string
	const gate = " dnsbl g0.bl"
	switch verif.Choose("join", 4) {
	case 0:
		e = A + " " + B + gate
	case 1:
		e = A + " or " + B + gate
	case 2:
		e = "not (not " + A + " or not " + B + ")" + gate
	case 3:
		e = A + " not all ; " + B + gate
	}
	zzC06Env()
	on := verif.Bool("gate")
	l := env.LookupIP
	env.LookupIP = func(name string) (r zzIPs, err error) {
		if strings.HasSuffix(name, ".g0.bl.") {
			if on {
				return zzIPs{{127, 0, 0, 2}}, nil
			}
			return nil, env.NoHost
		}
		return l(name)
	}
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	r := "reject " + e + "\n"
	if ph >= 0 {
		r = "@" + zzPh[ph] + " " + r
	}
	env.Put("/rules", r)
	up := zzBoot()
	ok := ph < 0 || ph >= need
	verif.Assert(up == ok, "a rule is refused exactly when its explicit phase is before what its operations need")
	if !up || !ok {
		return
	}
	s := zzC06Run()
	want := need
	if ph >= 0 {
		want = ph
	}
	want = verif.IteInt(on, want, 6)
	verif.Assert(zzRefusedAt(s) == want, "the rule does not take effect in exactly the right phase")
}

// a rule of any of the 20 kinds with any action is checked in every phase from
// the first possible one on (without a phase) or in exactly its phase, also
// when earlier rules accept in some of the phases: the accepting rules and
// the truth of a further condition of the rule are arbitrary per phase
func VerifC06_masked() {
	a := verif.Choose("op", len(zzTrueOps))
	ph := verif.Choose("phase", 7) - 1
	act := verif.Choose("act", 2)
	need := zzOpNeed[a]
	if ph >= 0 && ph < need {
		verif.Reject()
	}
	zzC06Env()
	l := env.LookupIP
	var mask [6]bool
	var text string
	for p := 0; p < 6; p++ {
		mask[p] = verif.Bool("mask")
		text += "@" + zzPh[p] + " accept dnsbl m" + string(rune('0'+p)) + ".bl\n"
	}
	env.LookupIP = func(name string) (r zzIPs, err error) {
		for p := 0; p < 6; p++ {
			if strings.HasSuffix(name, ".m"+string(rune('0'+p))+".bl.") {
				if mask[p] {
					return zzIPs{{127, 0, 0, 2}}, nil
				}
				return nil, env.NoHost
			}
		}
		return l(name)
	}
	r := []string{"reject ", "stall "}[act] + zzTrueOps[a] + "\n"
	if ph >= 0 {
		r = "@" + zzPh[ph] + " " + r
	}
	zzServeBare(text + r)
	s := zzC06Run()
	at := zzRefusedAt(s)
	want := 6
	for p := 5; p >= 0; p-- {
		if act == 1 && p == 0 {
			continue // a stall at connect time has no effect
		}
		if (ph < 0 && p >= need) || p == ph {
			want = verif.IteInt(mask[p], want, p)
		}
	}
	verif.Assert(at == want, "the rule is not checked in exactly the phases it should be")
}

// set-with rules of any of the 20 kinds, with any phase or none: the option
// (a note in the log) appears in exactly the right phases
func VerifC06_setwith() {
	a := verif.Choose("op", len(zzTrueOps))
	ph := verif.Choose("phase", 7) - 1
	need := zzOpNeed[a]
	if ph >= 0 && ph < need {
		verif.Reject()
	}
	zzC06Env()
	r := "set-with " + zzTrueOps[a] + " with note zork\n"
	if ph >= 0 {
		r = "@" + zzPh[ph] + " " + r
	}
	zzServeBare(r)
	s := env.NewSession(zzCl, zzAddr, zzScript(zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzData("hi\r\n")))
	last := 0
	var seen [6]bool
	s.OnReply = func(s *env.Session, r env.Reply) {
		n := strings.Count(zzLog("/log/smtp"), "zork")
		for p := 0; p < 6; p++ {
			if r.Kind == zzKind[p] || (p == 0 && r.Kind == "connect") {
				seen[p] = n > last
			}
		}
		last = n
	}
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	for p := 0; p < 6; p++ {
		// the reply to EHLO is given after the handler is done, so its note
		// is seen with its reply as for the others
		want := (ph < 0 && p >= need) || p == ph
		verif.Assert(seen[p] == want, "the set-with rule is not in force in exactly the phases it should be")
	}
}

// three operations of the kinds that need connect, HELO, MAIL FROM or RCPT TO
// data, in a compact rule of three clauses, joined by or, or nested in
// parentheses with not, only the last one of any truth value; every explicit
// phase or none
func VerifC06_triples() {
	ops := []string{"ip 192.0.2.0/24", "helo x.y", "from q@r.s", "to u@v.w"}
	need := []int{0, 1, 2, 3}
	k := [3]int{}
	max := 0
	for i := range k {
		k[i] = verif.Choose("op", len(ops))
		max = zzMax(max, need[k[i]])
	}
	ph := verif.Choose("phase", 7) - 1
	zzTruths(1)
	A, B, C := ops[k[0]], ops[k[1]], ops[k[2]]
	e := ""
	switch verif.Choose("join", 3) {
	case 0:
		e = A + " not all; " + B + " not all;\n " + C + " " + zzOp(0)
	case 1:
		e = "not " + A + " or not " + B + " or not ( not " + C + " or not " + zzOp(0) + " )"
	case 2:
		e = "( " + A + " ( " + B + " not ( not " + C + " ) ) ) " + zzOp(0)
	}
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	r := "reject " + e + "\n"
	if ph >= 0 {
		r = "@" + zzPh[ph] + " " + r
	}
	env.Put("/rules", r)
	up := zzBoot()
	ok := ph < 0 || ph >= max
	verif.Assert(up == ok, "a rule is refused exactly when its explicit phase is before what its operations need")
	if !up || !ok {
		return
	}
	s := zzC06Run()
	if ph >= 0 {
		max = ph
	}
	verif.Assert(zzRefusedAt(s) == verif.IteInt(zzT[0], max, 6), "the rule does not take effect in exactly the right phase")
}
