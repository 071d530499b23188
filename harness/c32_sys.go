package main

import (
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC32Run: rules with a savedir option for every phase (with an arbitrary
// condition each), up to n transactions in one session, some of them refused
// or abandoned; every message must be in the directory selected last.
func zzC32Run(n int) {
	zzTruths(1)
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	top := ""
	if verif.Choose("-d", 2) == 1 {
		top = "/save"
		env.FlagStr["d"] = top
	} else {
		env.FlagBool["force-receive"] = true
	}
	env.FlagStr["l"] = "/log/msg"
	env.FlagStr["r"] = "/rules"
	dirs := []string{"/D0", "/d1", "/d2"}
	for _, d := range dirs {
		env.Mkdir(d)
	}
	// one rule (or clause) per directory, at any phase; the second and third
	// depend on the address as well
	ph := [3]int{}
	act := [3]int{}
	rules := ""
	conds := []string{zzOp(0), "from a@x", "to u@x"}
	low := []int{0, 2, 3}
	for i := 0; i < 3; i++ {
		ph[i] = low[i] + verif.Choose("phase", 6-low[i])
		if verif.Deep() {
			act[i] = verif.Choose("action", 4)
		} else if i == 1 {
			act[i] = []int{0, 2, 3}[verif.Choose("action", 3)]
		}
		if act[i] >= 2 && ph[i] == 0 {
			act[i] = 0
		}
		rules += "@" + zzPh[ph[i]] + " " + []string{"set-with", "accept", "stall", "reject"}[act[i]] + " " + conds[i] + " with savedir " + dirs[i] + "\n"
	}
	env.Put("/rules", rules)
	zzMustBoot()
	cur := top
	refused := false
	// what the rules do in a phase for the current addresses
	step := func(p int, from string, tos []string) {
		refused = false
		for i := 0; i < 3; i++ {
			if ph[i] != p {
				continue
			}
			hit := zzT[0]
			if i == 1 {
				hit = from == "a@x"
			}
			if i == 2 {
				hit = false
				for _, t := range tos {
					hit = hit || t == "u@x"
				}
			}
			if hit {
				cur = dirs[i]
				if act[i] > 0 {
					refused = act[i] >= 2
					return
				}
			}
		}
	}
	step(0, "", nil)
	var steps []env.Step
	type msg struct{ data, dir string }
	var want []msg
	steps = append(steps, zzEhlo("h"))
	step(1, "", nil)
	helo := !refused
	for k := 0; helo && k < n; k++ {
		from := verif.StringIn("from", 1, "ab") + "@x"
		to := verif.StringIn("to", 1, "uv") + "@x"
		data := "m" + string(rune('0'+k))
		steps = append(steps, zzMail(from))
		step(2, from, nil)
		if refused {
			continue
		}
		steps = append(steps, zzRcpt(to))
		step(3, from, []string{to})
		if refused {
			steps = append(steps, zzRset)
			continue
		}
		if k == 0 && verif.Deep() && verif.Choose("abandon", 2) == 1 {
			steps = append(steps, zzRset)
			continue
		}
		steps = append(steps, zzData(data))
		step(4, from, []string{to})
		if refused {
			steps = append(steps, zzRset)
			continue
		}
		// the message is saved before the rules judge it
		want = append(want, msg{data, cur})
		step(5, from, []string{to})
	}
	s := zzRun(zzCl, steps...)
	zzObs(s)
	verif.Assert(zzCount(s, "msg") == len(want), "the messages are not received as the rules say")
	for _, d := range append(dirs, "/save") {
		m := 0
		for _, w := range want {
			if w.dir == d {
				m++
				found := false
				for _, p := range env.Paths(d) {
					t, _ := env.Get(p)
					found = found || zzHasSuffix(t, "\nbody\n"+w.data)
				}
				verif.Assert(found, "a message is not in the directory selected last")
			}
		}
		verif.Assert(len(env.Paths(d)) == m, "a message is in a directory that was not selected")
	}
}

// three rules with savedir, at any phase their conditions allow, set-with or
// (the second) refusing, one of any truth value, one on the sender, one on
// the recipient; two transactions of a session with any of 2 senders and 2
// recipients each; with and without -d
func VerifC32_session() {
	zzC32Run(2)
}

// the same with any action for each rule, the first transaction possibly
// abandoned, and three transactions
func VerifC32_session_deep() {
	zzC32Run(3)
}

// a savedir selected in one session does not concern another session of the
// same or another client at the same time: two sessions with any of two EHLO
// names, one starting and ending between any two commands of the other
func VerifC32_isolated() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.Mkdir("/d0")
	ph := verif.Choose("phase", 4)
	env.Put("/rules", "@"+zzPh[ph+1]+" set-with helo s with savedir /d0\n")
	zzMustBoot()
	na, nb := verif.StringIn("name", 1, "ps"), verif.StringIn("name", 1, "ps")
	tx := func(d string) []env.Step { return []env.Step{zzMail("a@x"), zzRcpt("u@x"), zzData(d)} }
	remote := []string{zzCl, "192.0.2.9:1000"}[verif.Choose("client", 2)]
	// the first session goes on after the second one
	a := env.NewSession(zzCl, zzAddr, nil)
	i := 0
	script := append(append([]env.Step{zzEhlo(na)}, tx("one")...), tx("two")...)
	gap := 1 + verif.Choose("gap", 7)
	a.Client = func(s *env.Session) env.Step {
		if i == gap {
			b := zzRunIn(remote, append([]env.Step{zzEhlo(nb)}, tx("three")...)...)
			zzObs(b)
			i++
			return env.Step{Kind: "noop"}
		}
		k := i
		if k > gap {
			k--
		}
		i++
		if k < len(script) {
			return script[k]
		}
		return zzQuit
	}
	env.Dial(zzAddr, a)
	a.Wait()
	verif.Quiesce()
	zzObs(a)
	want := verif.IteInt(na == "s", 2, 0) + verif.IteInt(nb == "s", 1, 0)
	verif.Assert(len(env.Paths("/d0")) == want && len(env.Paths("/save")) == 3-want, "a session's save directory concerns another session")
	for _, d := range []string{"/save", "/d0"} {
		for _, p := range env.Paths(d) {
			t, _ := env.Get(p)
			is := verif.IteInt(nb == "s", 1, 0)
			if !zzHasSuffix(t, "\nbody\nthree") {
				is = verif.IteInt(na == "s", 1, 0)
			}
			verif.Assert(verif.Iff(d == "/d0", is == 1), "a session's save directory concerns another session")
		}
	}
}

// a savedir chosen in one session, by a rule of any phase and action, for the
// first message or only by its sender; then, in this session, a refused or
// accepted transaction with any sender, null or not, and then, after it, a
// session of the same or another client for which no rule chooses; with and
// without -d
func VerifC32_after() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	top := ""
	if verif.Bool("-d") {
		top = "/save"
		env.FlagStr["d"] = top
	} else {
		env.FlagBool["force-receive"] = true
	}
	env.FlagStr["r"] = "/rules"
	env.Mkdir("/d0")
	ph := 2 + verif.Choose("phase", 4)
	act := verif.Choose("action", 4)
	env.Put("/rules", "@"+zzPh[ph]+" "+[]string{"set-with", "accept", "stall", "reject"}[act]+" from a@x helo s with savedir /d0\n")
	zzMustBoot()
	from := []string{"", "b@x"}[verif.Choose("from", 2)]
	tx := func(f, d string) []env.Step {
		return []env.Step{zzMail(f), zzRcpt("u@x"), zzData(d), zzRset}
	}
	script := append(append([]env.Step{zzEhlo("s")}, tx("a@x", "one")...), tx(from, "two")...)
	s := zzRun(zzCl, script...)
	zzObs(s)
	t := zzRun([]string{zzCl, "192.0.2.9:1000"}[verif.Choose("client", 2)], append([]env.Step{zzEhlo("p")}, tx("a@x", "three")...)...)
	zzObs(t)
	verif.Assert(zzCount(s, "msg") >= 1 && zzCount(t, "msg") == 1, "the messages are not received as the rules say")
	has := func(dir, d string) bool {
		for _, p := range env.Paths(dir) {
			x, _ := env.Get(p)
			if zzHasSuffix(x, "\nbody\n"+d) {
				return true
			}
		}
		return false
	}
	verif.Assert(has("/d0", "two") && !has("/save", "two"), "a message is not in the directory selected last")
	verif.Assert(!has("/d0", "three") && has("/save", "three") == (top != ""), "a session's save directory concerns another session")
}
