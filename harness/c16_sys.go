package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC16Boot starts a server with a rule for the message of any action.
func zzC16Boot(hash string, rule int) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["save-hash"] = hash
	env.FlagStr["l"] = "/log/msg"
	env.FlagStr["r"] = "/rules"
	env.Mkdir("/other")
	env.Put("/rules", []string{
		"accept all\n", "@message reject all\n", "@message stall all\n",
		"@message reject all with message no\n", "@message accept all with message yes\n",
		"@to set-with all with savedir /other\n", "",
	}[rule])
	if rule == 6 {
		env.FlagBool["M"] = true
	}
	zzMustBoot()
}

var zzC16Dir = []string{"/save", "/save", "/save", "/save", "/save", "/other", "/save"}

// zzComplete: the file with this name is complete.
func zzComplete(dir, id, data string) bool {
	t, ok := env.Get(dir + "/" + id)
	if !ok {
		return false
	}
	i := strings.Index(t, "\nremote 192.0.2.1 to ")
	return strings.HasPrefix(t, "id ") && i > 0 && strings.HasSuffix(t, "\nbody\n"+data) && strings.Contains(t, "\nfrom <a@f>\nto <u@t>\nhash ") &&
		strings.Contains(t, "\nbodyhash ")
}

// zzAcked checks the reply to a message: acknowledged only with a complete
// file.
func zzAcked(r env.Reply, dir, data string) {
	id := zzIDOf(r.Msg)
	if r.Class == 2 {
		verif.Assert(id != "", "a message is accepted without naming its ID")
		verif.Assert(zzComplete(dir, id, data), "a message is acknowledged but not completely on disk")
	}
	if r.Class == 5 && id != "" {
		verif.Assert(zzComplete(dir, id, data), "a message is refused naming its ID but not completely on disk")
	}
}

// one message with an arbitrary failure of each operation on the file (create,
// write after any of 5 amounts, sync, close; removing a file is taken not to
// fail), 3 kinds of hash, 7
// rules; then the client tries again in a new connection or in the same one
// without failures; then once more
func VerifC16_fault() {
	h := verif.Choose("hash", 3)
	rule := verif.Choose("rule", 7)
	dir := zzC16Dir[rule]
	zzC16Boot(zzHashes[h], rule)
	in := func(p string) bool { return strings.HasPrefix(p, dir+"/") }
	on := true
	failed := false
	env.Fault = func(op, path string) error {
		if !on || !in(path) || op == "remove" {
			return nil
		}
		if verif.Bool("fail " + op) {
			switch op {
			case "create", "open", "close", "rename", "link":
				failed = true
			}
			if op == "close" && verif.Choose("lost", 2) == 1 {
				// what was written never reached the disk
				if t, ok := env.Get(path); ok {
					env.Put(path, t[:len(t)/2])
				}
			}
			if op == "create" && verif.Choose("how", 2) == 1 {
				return env.ErrPermission
			}
			return env.ErrIO
		}
		return nil
	}
	env.WriteFault = func(path string, n int) (int, error) {
		if !on || !in(path) {
			return n, nil
		}
		if verif.Bool("fail write") {
			failed = true
			return []int{0, 1, n / 2, n - 1, n}[verif.Choose("amount", 5)], env.ErrNoSpace
		}
		return n, nil
	}
	const data = "Subject: x\n\nhi\n"
	tx := []env.Step{zzMail("a@f"), zzRcpt("u@t"), zzData(data)}
	var s *env.Session
	again := verif.Choose("again", 2)
	steps := append([]env.Step{zzEhlo("h")}, tx...)
	if again == 1 {
		steps = append(steps, tx...)
	}
	s = env.NewSession(zzCl, zzAddr, zzScript(steps...))
	s.OnReply = func(s *env.Session, r env.Reply) {
		if r.Kind == "msg" {
			zzAcked(r, dir, data)
			if on {
				if failed {
					verif.Assert(r.Class == 4, "a message that could not be saved is not tempfailed")
				}
				on = false
			} else {
				verif.Assert(r.Class == []int{2, 5, 4, 5, 2, 2, 5}[rule], "a retry is not answered as the rules say")
			}
		}
	}
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	verif.Assert(zzCount(s, "msg") == 1+again, "the message was not delivered")
	for i := 0; i < 2; i++ {
		before := map[string]string{}
		for _, p := range env.Paths(dir) {
			before[p], _ = env.Get(p)
		}
		s2 := zzRun(zzCl, append([]env.Step{zzEhlo("h")}, tx...)...)
		zzObs(s2)
		r := zzReply(s2, "msg", 0)
		zzAcked(r, dir, data)
		verif.Assert(r.Class == []int{2, 5, 4, 5, 2, 2, 5}[rule], "a retry is not answered as the rules say")
		if i == 1 {
			for p, t := range before {
				now, _ := env.Get(p)
				verif.Assert(now == t, "an existing complete file is altered")
			}
		}
	}
}

// any 3 bytes of message and any (short) sender: the file named in the reply
// holds them, for 3 kinds of hash; a second, arbitrary message does not alter
// the first one's file
func VerifC16_content() {
	h := verif.Choose("hash", 3)
	zzC16Boot(zzHashes[h], 0)
	d1 := verif.StringN("data", 3)
	d2 := verif.StringN("data", 3)
	s := zzRun(zzCl, zzEhlo("h"), zzMail("a@f"), zzRcpt("u@t"), zzData(d1), zzMail("a@f"), zzRcpt("u@t"), zzData(d2))
	r1, r2 := zzReply(s, "msg", 0), zzReply(s, "msg", 1)
	verif.Assert(r1.Class == 2 && r2.Class == 2, "a message is not accepted")
	t1, ok1 := env.Get("/save/" + zzIDOf(r1.Msg))
	t2, ok2 := env.Get("/save/" + zzIDOf(r2.Msg))
	verif.Assert(ok1 && ok2, "no file has the name reported")
	verif.Assert(verif.EqStr(t1[len(t1)-9:], "\nbody\n"+d1), "the file does not hold the message")
	verif.Assert(verif.EqStr(t2[len(t2)-9:], "\nbody\n"+d2), "the file does not hold the message")
}

// the same message from two connections, the second being handled completely
// while the first is writing the file; the write then fails or not
func VerifC16_duplicate() {
	h := 1 + verif.Choose("hash", 2)
	zzC16Boot(zzHashes[h], 0)
	const data = "Subject: x\n\nhi\n"
	steps := []env.Step{zzEhlo("h"), zzMail("a@f"), zzRcpt("u@t"), zzData(data)}
	fail := verif.Bool("fail")
	first := true
	var b *env.Session
	env.WriteFault = func(path string, n int) (int, error) {
		if !first || !strings.HasPrefix(path, "/save/") {
			return n, nil
		}
		first = false
		b = env.NewSession("192.0.2.1:2000", zzAddr, zzScript(steps...))
		env.Dial(zzAddr, b)
		b.Wait()
		if fail {
			return 0, env.ErrNoSpace
		}
		return n, nil
	}
	a := zzRun(zzCl, steps...)
	zzObs(a)
	zzObs(b)
	zzAcked(zzReply(a, "msg", 0), "/save", data)
	r := zzReply(b, "msg", 0)
	if r.Class == 2 {
		verif.Assert(zzComplete("/save", zzIDOf(r.Msg), data), "a duplicate is acknowledged while the first copy is still being written, and that write then fails")
	}
}

// the server dies after writing any of 4 parts of the file; it is started
// again and the client retries
func VerifC16_crash() {
	h := 1 + verif.Choose("hash", 2)
	zzC16Boot(zzHashes[h], 0)
	const data = "Subject: x\n\nhi\n"
	steps := []env.Step{zzEhlo("h"), zzMail("a@f"), zzRcpt("u@t"), zzData(data)}
	dead := false
	env.WriteFault = func(path string, n int) (int, error) {
		if !dead && strings.HasPrefix(path, "/save/") {
			dead = true
			// what reached the disk before the crash: the handler never
			// gets any further
			env.CrashWrite(path, []int{0, 1, n / 2, n - 1}[verif.Choose("amount", 4)])
		}
		return n, nil
	}
	s := env.NewSession(zzCl, zzAddr, zzScript(steps...))
	env.Dial(zzAddr, s)
	verif.Quiesce()
	verif.Assert(zzCount(s, "msg") == 0, "model")
	// the next incarnation sees the same directory
	s2 := zzRun(zzCl, steps...)
	zzObs(s2)
	r := zzReply(s2, "msg", 0)
	if r.Class == 2 {
		verif.Assert(zzComplete("/save", zzIDOf(r.Msg), data), "a retry is acknowledged though a crash left only part of the file")
	}
}

// a later message of a session, to one or three recipients, from the null
// sender or another, with or without TLS, cannot be saved (the file cannot be
// created or written), whatever -minphase says and after the first one was
// saved or not: it is tempfailed, and nothing else is
func VerifC16_later() {
	env.FlagStr["minphase"] = []string{"helo", "data", "accepted"}[verif.Choose("minphase", 3)]
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	rule := []int{0, 1, 3, 6}[verif.Choose("rule", 4)]
	zzC16Boot("msg", rule)
	steps := []env.Step{zzEhlo("h")}
	if verif.Choose("tls", 2) == 1 {
		steps = append(steps, env.Step{Kind: "starttls"}, zzEhlo("h"))
	}
	data := []string{"one\n", "two\n"}
	bad := [2]bool{}
	for i := range data {
		steps = append(steps, zzMail([]string{"a@f", ""}[verif.Choose("from", 2)]), zzRcpt("u@t"))
		if verif.Choose("to", 2) == 1 {
			steps = append(steps, zzRcpt("v@t"), zzRcpt("w@t"))
		}
		steps = append(steps, zzData(data[i]))
		bad[i] = verif.Bool("fails")
	}
	n := 0
	how := verif.Choose("how", 2)
	env.Fault = func(op, path string) error {
		if how == 0 && n < 2 && bad[n] && op == "create" && strings.HasPrefix(path, "/save/") {
			return env.ErrIO
		}
		return nil
	}
	env.WriteFault = func(path string, k int) (int, error) {
		if how == 1 && n < 2 && bad[n] && strings.HasPrefix(path, "/save/") {
			return k / 2, env.ErrNoSpace
		}
		return k, nil
	}
	s := env.NewSession(zzCl, zzAddr, zzScript(steps...))
	s.OnReply = func(s *env.Session, r env.Reply) {
		if r.Kind != "msg" {
			return
		}
		if id := zzIDOf(r.Msg); r.Class == 2 || r.Class == 5 && id != "" {
			t, ok := env.Get("/save/" + id)
			verif.Assert(ok && strings.HasPrefix(t, "id ") && strings.HasSuffix(t, "\nbody\n"+data[n]), "a message is acknowledged but not completely on disk")
		}
		if bad[n] {
			verif.Assert(r.Class == 4, "a message that could not be saved is not tempfailed")
		} else {
			verif.Assert(r.Class == []int{2, 5, 4, 5, 2, 2, 5}[rule], "a message is not answered as the rules say")
		}
		n++
	}
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	verif.Assert(n == 2, "the messages were not delivered")
}
