package main

import (
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC14Base chooses options so that there are 0 to 7 built-in rules that do
// not concern the sessions below.
func zzC14Base(n int) {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagBool["nostdrules"] = true
	if n >= 3 {
		env.FlagBool["nostdrules"] = false
		n -= 3
	}
	if n >= 1 {
		env.FlagStr["fromreject"] = "/f"
		n--
	}
	if n >= 1 {
		env.FlagStr["heloreject"] = "/f"
		n--
	}
	if n >= 1 {
		env.FlagStr["toaccept"] = "/f"
		n--
	}
	if n >= 1 {
		env.FlagBool["M"] = true
	}
}

// zzC14Text: version v of a rule file with n rules, each for the recipients
// i@v.w, i = first.. and ending the decision with a message telling version
// and rule.
func zzC14Text(v string, first, n int) string {
	t := ""
	for i := first; i < first+n; i++ {
		t += "@to " + []string{"reject", "stall"}[i%2] + " to " + string(rune('a'+i)) + "@v.w with message " + v + string(rune('a'+i)) + "\n"
	}
	return t
}

// zzC14Check asks about recipient i under version v with rules for
// recipients < n.
func zzC14Check(r env.Reply, who string, v string, n int) {
	in := false
	for i := 0; i < n; i++ {
		me := verif.EqStr(who, string(rune('a'+i)))
		in = verif.Or(in, me)
		want := []int{5, 4}[i%2]
		verif.Assert(verif.Implies(me, verif.And(r.Class == want, r.Msg == v+string(rune('a'+i)))), "a connection is not judged by the rules loaded when it began")
	}
	verif.Assert(verif.Implies(!in, verif.And(r.Class == 2, r.Msg == "")), "a connection is judged by rules not loaded when it began")
}

// 0-7 built-in rules, one or two rule files of 0-3 rules; a session during
// which the files change to 0-3 other rules and another client connects and
// leaves (or stays on), at any of 4 points; then any recipient; both sessions
// are judged by their own rules
func VerifC14_nested() {
	zzC14Base(verif.Choose("base", 8))
	two := verif.Choose("files", 2) == 1
	na := verif.Choose("rulesA", 4)
	nb := verif.Choose("rulesB", 4)
	at := verif.Choose("at", 4)
	put := func(v string, n int) {
		if two {
			env.Put("/r0", zzC14Text(v, 0, n/2))
			env.Put("/r1", zzC14Text(v, n/2, n-n/2))
		} else {
			env.Put("/r0", zzC14Text(v, 0, n))
		}
	}
	env.FlagStr["r"] = "/r0"
	if two {
		env.FlagStr["r"] = "/r0,/r1"
	}
	put("one", na)
	zzMustBoot()
	who := verif.StringIn("who", 1, "abcd")
	whoB := verif.StringIn("whoB", 1, "abcd")
	var b *env.Session
	steps := []env.Step{zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("d@v.w"), zzRcpt(who + "@v.w"), zzRset, zzMail("q@r.s"), zzRcpt(who + "@v.w")}
	inner := zzScript(steps...)
	k := 0
	a := env.NewSession("192.0.2.1:1000", zzAddr, func(s *env.Session) env.Step {
		if k == at {
			put("two", nb)
			b = env.NewSession("192.0.2.2:1000", zzAddr, zzScript(zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt(whoB+"@v.w")))
			env.Dial(zzAddr, b)
			b.Wait()
			put("three", 3)
		}
		k++
		return inner(s)
	})
	env.Dial(zzAddr, a)
	a.Wait()
	verif.Quiesce()
	zzObs(a)
	zzObs(b)
	zzC14Check(zzReply(a, "rcpt", 1), who, "one", na)
	zzC14Check(zzReply(a, "rcpt", 2), who, "one", na)
	zzC14Check(zzReply(b, "rcpt", 0), whoB, "two", nb)
	// and a later one
	c := zzRun("192.0.2.3:1000", zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt(who+"@v.w"))
	zzObs(c)
	zzC14Check(zzReply(c, "rcpt", 0), who, "three", 3)
}

// two clients at the same time with 3 or 6 built-in rules and a rule file of
// 1-2 rules: every interleaving of the two handlers at synchronisation
// operations with at most 1 preemption (thorough: 2); no data race
func VerifC14_parallel() {
	base := []int{3, 6}[verif.Choose("base", 2)]
	zzC14Base(base)
	n := 1 + verif.Choose("rules", 2)
	env.FlagStr["r"] = "/r0"
	env.Put("/r0", zzC14Text("one", 0, n))
	zzMustBoot()
	who := verif.StringIn("who", 1, "abc")
	a := env.NewSession("192.0.2.1:1000", zzAddr, zzScript(zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt(who+"@v.w")))
	b := env.NewSession("192.0.2.2:1000", zzAddr, zzScript(zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("a@v.w")))
	verif.Races()
	k := 1
	if verif.Deep() {
		k = 2
	}
	verif.Interleave(k)
	env.Dial(zzAddr, a)
	env.Dial(zzAddr, b)
	a.Wait()
	b.Wait()
	zzC14Check(zzReply(a, "rcpt", 0), who, "one", n)
	zzC14Check(zzReply(b, "rcpt", 0), "a", "one", n)
}
