package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/crypto/sha1"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

func zzC38Boot(log string) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["r"] = "/rules"
	env.FlagStr["d"] = "/save"
	env.FlagStr["l"] = log
	env.Put("/log/msg", "old\n")
	env.Put("/rules", "@data reject from d@x\n@message reject from r@x\n@message stall from s@x\n")
	zzMustBoot()
}

func zzC38Log(log string) []string {
	t := string(env.Stdout)
	if log != "-" {
		t = zzLog(log)
		verif.Assert(strings.HasPrefix(t, "old\n"), "what was in the message log is lost")
		if !strings.HasPrefix(t, "old\n") {
			return nil
		}
		t = t[4:]
	}
	verif.Observe("log", t)
	verif.Assert(t == "" || strings.HasSuffix(t, "\n"), "a line of the message log is incomplete")
	ls := strings.Split(t, "\n")
	return ls[:len(ls)-1]
}

// zzC38Line: is this the line of a message?
func zzC38Line(l string, cid int, addr, from string, to []string, helo, data string) bool {
	s := "[4242/" + strconv.Itoa(cid) + "] from " + addr + " / <" + from + "> to"
	for _, r := range to {
		s += " <" + r + ">"
	}
	s += ": message " + strconv.Itoa(len(data)) + " bytes hash " + fmt.Sprintf("%x", sha1.Sum([]byte(data))) + " body "
	i := strings.Index(l, s)
	if i < 0 || strings.Contains(l[:i], "[") {
		return false
	}
	return strings.HasSuffix(l[i+len(s):], " | local "+zzAddr+" helo '"+helo+"'")
}

func zzC38Seq(n int) {
	log := []string{"/log/msg", "-"}[verif.Choose("log", 2)]
	zzC38Boot(log)
	bad := -1
	nw := 0
	env.WriteFault = func(path string, k int) (int, error) {
		if strings.HasPrefix(path, "/save/") && !strings.HasSuffix(path, ".wecanmake") {
			nw++
			if bad == 1 {
				return 0, env.ErrIO
			}
		}
		return k, nil
	}
	steps := []env.Step{zzEhlo("h.x")}
	var want [][2]string
	fails := map[string]bool{}
	for i := 0; i < n; i++ {
		data := "A: " + strconv.Itoa(i) + "\n\nbody\n"
		from := ""
		end := false
		switch verif.Choose("what", 7) {
		case 0:
			from = "g@x"
		case 1:
			from = "r@x"
		case 2:
			from = "s@x"
		case 3: // refused at DATA
			steps = append(steps, zzMail("d@x"), zzRcpt("t@x"), zzData(data), zzRset)
			continue
		case 4: // no message
			steps = append(steps, zzMail("g@x"), zzRcpt("t@x"), zzRset)
			continue
		case 5: // cannot be saved
			from = "w@x"
			fails[data] = true
		case 6:
			steps = append(steps, zzMail("g@x"), zzRcpt("t@x"), env.Step{Kind: "abort"})
			end = true
		}
		if end {
			break
		}
		steps = append(steps, zzMail(from), zzRcpt("t@x"), zzData(data))
		want = append(want, [2]string{from, data})
	}
	s := env.NewSession(zzCl, zzAddr, nil)
	next := zzScript(steps...)
	s.Client = func(s *env.Session) env.Step {
		st := next(s)
		if st.Kind == "mail" {
			bad = 0
			if st.Arg == "w@x" {
				bad = 1
			}
		}
		return st
	}
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	ls := zzC38Log(log)
	verif.Assert(len(ls) == len(want), "not exactly one log line per message")
	if len(ls) != len(want) {
		return
	}
	for i, w := range want {
		verif.Assert(zzC38Line(ls[i], 1, zzCl, w[0], []string{"t@x"}, "h.x", w[1]), "a line of the message log is not that of the message")
	}
}

// 3 transactions of a session, each with a message that is accepted, refused,
// stalled or cannot be saved, refused at DATA, reset, or broken off; -l with a
// file that has content, or standard output
func VerifC38_outcomes() { zzC38Seq(3) }

// 5 transactions
func VerifC38_outcomes_deep() { zzC38Seq(5) }

func zzC38Two(n, k int) {
	zzC38Boot("/log/msg")
	env.WritePoints = true
	verif.Races()
	verif.Interleave(k)
	var ss []*env.Session
	var hs []string
	for i := 0; i < n; i++ {
		c := strconv.Itoa(i + 1)
		from := []string{"g@x", "r@x"}[verif.Choose("from", 2)]
		to := []env.Step{zzRcpt("a" + c + "@x")}
		if i == 0 {
			to = append(to, zzRcpt("b"+c+"@x"))
		}
		steps := append([]env.Step{zzEhlo("h" + c), zzMail(from)}, to...)
		s := env.NewSession("192.0.2."+c+":1000", zzAddr, zzScript(append(steps, zzData("A: "+c+"\n\nbody "+c+"\n"))...))
		ss = append(ss, s)
		hs = append(hs, from)
		env.Dial(zzAddr, s)
	}
	for _, s := range ss {
		s.Wait()
	}
	verif.Quiesce()
	ls := zzC38Log("/log/msg")
	verif.Assert(len(ls) == n, "not exactly one log line per message")
	for i := range ss {
		c := strconv.Itoa(i + 1)
		to := []string{"a" + c + "@x"}
		if i == 0 {
			to = append(to, "b"+c+"@x")
		}
		found := 0
		for _, l := range ls {
			for id := 1; id <= n; id++ {
				if zzC38Line(l, id, "192.0.2."+c+":1000", hs[i], to, "h"+c, "A: "+c+"\n\nbody "+c+"\n") {
					found++
				}
			}
		}
		verif.Assert(found == 1, "a line of the message log is not that of the message")
	}
}

// two messages at the same time, accepted or refused: every interleaving with
// one preemption
func VerifC38_parallel() { zzC38Two(2, 1) }

// two messages at the same time, two preemptions
func VerifC38_parallel_deep() { zzC38Two(2, 2) }

func zzC38Field(t, pre, post string) string {
	i := strings.Index(t, pre)
	if i < 0 {
		return ""
	}
	t = t[i+len(pre):]
	return t[:strings.Index(t, post)]
}

func zzC38Hash(n int) {
	zzC38Boot("/log/msg")
	env.FlagStr["save-hash"] = "all"
	nh := verif.Choose("headers", 3)
	head := "A: " + verif.StringIn("value", 1, "a:z") + "\n"
	switch nh {
	case 1:
		head += "B: b\n"
	case 2:
		head += " more\n"
	}
	body := verif.String("body", n)
	data := head + "\n" + body
	s := zzRun(zzCl, zzEhlo("h.x"), zzMail("g@x"), zzRcpt("t@x"), zzData(data))
	zzObs(s)
	l := zzLog("/log/msg")
	h, b := zzC38Field(l, " bytes hash ", " "), zzC38Field(l, " body ", " ")
	f, ok := env.Get("/save/" + zzIDOf(zzReply(s, "msg", 0).Msg))
	verif.Assert(ok, "the message is not saved")
	verif.Assert(verif.EqStr(h, fmt.Sprintf("%x", sha1.Sum([]byte(data)))), "the hash is not that of the message")
	verif.Assert(verif.EqStr(b, fmt.Sprintf("%x", sha1.Sum([]byte(body)))), "the body hash is not that of the body")
	verif.Assert(verif.EqStr(zzC38Field(f, "\nhash ", " "), h) && verif.EqStr(zzC38Field(f, "\nbodyhash ", "\n"), b), "the hashes in the log are not those in the saved file")
}

// one message with one or two header lines or a continuation line, a symbolic
// value and any body up to 3 bytes: hash and body hash in log and file
func VerifC38_hashes() { zzC38Hash(3) }

// any body up to 6 bytes
func VerifC38_hashes_deep() { zzC38Hash(6) }
