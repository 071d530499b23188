package main

import (
	"strconv"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC33Lines splits the log: every line must start with the id of one of the n
// connections; returns what each connection logged. Multi-line entries do not
// occur here.
func zzC33Lines(log string, n int) [][]string {
	r := make([][]string, n)
	verif.Assert(log == "" || log[len(log)-1] == '\n', "the SMTP log ends within a line")
	for _, l := range strings.Split(log, "\n") {
		if l == "" {
			continue
		}
		ok := false
		for i := range r {
			p := "4242/" + strconv.Itoa(i+1)
			if strings.HasPrefix(l, p) && (len(l) == len(p) || l[len(p)] < '0' || l[len(p)] > '9') {
				r[i] = append(r[i], strings.TrimLeft(l[len(p):], " "))
				ok = true
				break
			}
		}
		verif.Observe("line", l)
		verif.Assert(ok, "a line of the SMTP log does not start with the id of a connection")
	}
	return r
}

// zzC33Same checks that a connection's part of the log has all that the SMTP
// layer logged for it, in order, and returns the other lines.
func zzC33Same(got []string, s *env.Session) []string {
	k := 0
	var rest []string
	for _, l := range got {
		if strings.HasPrefix(l, "! ") {
			rest = append(rest, l)
			continue
		}
		verif.Assert(k < len(s.Logged) && strings.TrimLeft(s.Logged[k], " ") == l, "the SMTP log does not have the conversation of a connection as it was")
		k++
	}
	verif.Assert(k == len(s.Logged), "a part of a conversation is missing in the SMTP log")
	return rest
}

func zzC33Eq(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

// a note rule of any truth value for each phase and a second one overriding it
// in an arbitrary phase (or deciding rule refusing with a note there); two
// recipients; what was in the log before stays
func VerifC33_notes() {
	zzTruths(2)
	old := []string{"", "old line\n"}[verif.Choose("old", 2)]
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["r"] = "/rules"
	env.FlagStr["smtplog"] = "/log/smtp"
	if old != "" {
		env.Put("/log/smtp", old)
	}
	env.FlagBool["force-receive"] = true
	p, q := verif.Choose("phase", 6), verif.Choose("phase", 6)
	act := verif.Choose("act", 4)
	// conditions that do not say anything of their own in the log
	env.Put("/l0", "zork\n")
	env.Put("/l1", "zork\n")
	if zzT[0] {
		env.Put("/l0", "192.0.2.1\n")
	}
	if zzT[1] {
		env.Put("/l1", "192.0.2.1\n")
	}
	env.Put("/rules", "@"+zzPh[p]+" set-with ip /l0 with note one\n@"+zzPh[q]+" "+[]string{"set-with", "reject", "stall", "accept"}[act]+" ip /l1 with note \" Two words \"\n")
	zzMustBoot()
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzRcpt("u2@v.w"), zzData("hi\r\n"))
	zzObs(s)
	log := zzLog("/log/smtp")
	verif.Assert(strings.HasPrefix(log, old), "what was in the log is lost")
	var rest, want []string
	for _, l := range zzC33Same(zzC33Lines(log[len(old):], 1)[0], s) {
		if strings.HasPrefix(l, "! rule note") {
			rest = append(rest, l)
		}
	}
	note := func(ph int) {
		n := ""
		if ph == p && zzT[0] {
			n = "one"
		}
		if ph == q && zzT[1] {
			n = " Two words "
		}
		if n != "" {
			want = append(want, "! rule note: "+n)
		}
	}
	note(0)
	for _, r := range s.Replies {
		if r.Own {
			continue
		}
		for i, k := range zzKind {
			if i > 0 && k == r.Kind {
				note(i)
			}
		}
	}
	verif.Observe("rest", strings.Join(rest, "|"))
	verif.Assert(zzC33Eq(rest, want), "the notes of the matching rules are not logged once per decision")
}

// zzC33Two: n connections at the same time, every interleaving with up to k
// preemptions; two have a note of their own, EHLO names arbitrary
func zzC33Two(k int) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["r"] = "/rules"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagBool["force-receive"] = true
	env.Put("/rules", "@helo set-with helo a with note na\n@helo set-with helo b with note nb\n")
	zzMustBoot()
	n1, n2 := verif.StringIn("helo", 1, "abc"), verif.StringIn("helo", 1, "abc")
	env.WritePoints = true
	verif.Interleave(k)
	verif.Races()
	a := env.NewSession(zzCl, zzAddr, zzScript(zzEhlo(n1)))
	b := env.NewSession("192.0.2.2:1000", zzAddr, zzScript(zzEhlo(n2)))
	env.Dial(zzAddr, a)
	env.Dial(zzAddr, b)
	a.Wait()
	b.Wait()
	verif.Quiesce()
	zzObs(a)
	zzObs(b)
	log := zzLog("/log/smtp")
	ls := zzC33Lines(log, 2)
	// which of them came first
	for i, s := range []*env.Session{a, b} {
		n := []string{n1, n2}[i]
		id := -1
		for j := range ls {
			if len(ls[j]) > 0 && zzC33Mine(ls[j], s) {
				id = j
			}
		}
		verif.Assert(id >= 0, "a conversation is not in the log as it was")
		if id < 0 {
			return
		}
		want := []string{"! rule note: n" + n}
		if n == "c" {
			want = nil
		}
		verif.Assert(zzC33Eq(zzC33Same(ls[id], s), want), "the notes of a connection are not logged under its id")
	}
}

// zzC33Mine: are these the lines of that session?
func zzC33Mine(l []string, s *env.Session) bool {
	var c []string
	for _, x := range l {
		if !strings.HasPrefix(x, "! ") {
			c = append(c, x)
		}
	}
	return zzC33Eq(c, s.Logged)
}

// two connections at the same time, every interleaving with one preemption
func VerifC33_two() { zzC33Two(1) }

// the same with two preemptions
func VerifC33_two_deep() { zzC33Two(2) }

// long lines (from 100 to 20000 bytes, with arbitrary last byte) of one
// connection while another one is active, and one after them: each is one
// line of the log
func VerifC33_long() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["smtplog"] = []string{"/log/smtp", "-"}[verif.Choose("where", 2)]
	env.FlagBool["force-receive"] = true
	zzMustBoot()
	n := []int{100, 4090, 8180, 8192, 20000}[verif.Choose("length", 5)]
	name := strings.Repeat("x", n) + verif.StringIn("last", 1, "yz")
	first := true
	in := zzScript(zzEhlo(name), zzMail("a@b.c"))
	var b *env.Session
	at := verif.Choose("other", 3)
	k := 0
	a := env.NewSession(zzCl, zzAddr, func(s *env.Session) env.Step {
		if k == at && first {
			first = false
			b = zzRunIn("192.0.2.2:1000", zzEhlo("short"))
		}
		k++
		return in(s)
	})
	env.Dial(zzAddr, a)
	a.Wait()
	verif.Quiesce()
	log := zzLog("/log/smtp")
	if env.FlagStr["smtplog"] == "-" {
		log = string(env.Stdout)
	}
	ls := zzC33Lines(log, 2)
	verif.Assert(len(zzC33Same(ls[0], a)) == 0 && len(zzC33Same(ls[1], b)) == 0, "the log has something else")
}

// a connection dropped by a rule at once: the log says so, with the address
func VerifC33_drop() {
	zzTruths(1)
	zzServeBare("@connect reject " + zzOp(0) + "\n@connect set-with ip 192.0.2.1 with note n\n")
	s := zzRun(zzCl, zzEhlo("x.y"))
	zzObs(s)
	ls := zzC33Lines(zzLog("/log/smtp"), 1)[0]
	n := 0
	for _, l := range ls {
		if strings.HasPrefix(l, "! ") && strings.Contains(l, "drop") && strings.Contains(l, "192.0.2.1") {
			n++
		}
	}
	verif.Assert(verif.Iff(n == 1, zzT[0]), "a connection dropped at once is not logged as such")
	verif.Assert(verif.Iff(zzCount(s, "ehlo") == 0, zzT[0]), "a connection is not dropped exactly if the rules say so")
}

// TLS client certificates: none, or one of the kinds of C15: the log names it
// and says whether it verifies, once for the connection
func VerifC33_tls() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagBool["force-receive"] = true
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	zzMustBoot()
	st, text := tls.ConnectionState{Version: 0x0303, CipherSuite: 0xc02f}, ""
	zzCert(&st, &text)
	s := zzRun(zzCl, zzEhlo("x.y"), env.Step{Kind: "starttls", TLS: st}, zzEhlo("x.y"), zzEhlo("x.z"), zzMail("a@b.c"))
	zzObs(s)
	rest := zzC33Same(zzC33Lines(zzLog("/log/smtp"), 1)[0], s)
	verif.Observe("rest", strings.Join(rest, "|"))
	verif.Observe("text", text)
	i := strings.Index(text, "client-name '")
	if i < 0 {
		verif.Assert(len(rest) == 0, "the log has something about a certificate that is not there")
		return
	}
	name := text[i+len("client-name '"):]
	name = name[:strings.Index(name, "'")]
	verif.Assert(len(rest) == 1, "the client certificate is not logged once")
	if len(rest) == 1 {
		verif.Assert(strings.Contains(rest[0], "'"+name+"'"), "the client certificate's name is not logged")
		good := strings.Contains(rest[0], "' verifies")
		verif.Assert(good == strings.Contains(text, "client-name-verified"), "the log is wrong about the client certificate")
	}
}

// zzC33Stall: n sessions one after the other, each with any of three EHLO names
// (accepted, refused, accepted with make-yakker), from either of two clients;
// -dncount 2
func zzC33Stall(n int) {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagInt["dncount"] = 2
	dn := verif.Choose("dnlog", 2) == 1
	if dn {
		env.FlagStr["dnlog"] = "/log/dn"
		env.Put("/log/dn", "old\n")
	}
	env.Put("/rules", "@helo reject helo r\n@helo set-with helo m with make-yakker note mm\n")
	zzMustBoot()
	cnt := [2]int{}
	var want []string
	var ss []*env.Session
	logged := 0
	for k := 0; k < n; k++ {
		c := 0
		if k > 0 {
			c = verif.Choose("client", 2)
		}
		id := "4242/" + strconv.Itoa(k+1)
		name := verif.StringIn("helo", 1, "gmr")
		s := zzRun([]string{zzCl, "192.0.2.2:1000"}[c], zzEhlo(name), zzMail("a@b.c"))
		zzObs(s)
		ss = append(ss, s)
		ip := []string{" 192.0.2.1 ", " 192.0.2.2 "}[c]
		log := zzLog("/log/smtp")
		add := ""
		if cnt[c] >= 2 {
			add = "connection"
			verif.Assert(len(log) == logged, "a stalled session is logged")
			verif.Assert(!s.HasLog, "a stalled session is logged")
		} else {
			verif.Assert(len(log) > logged, "a session is not logged")
			switch name {
			case "g":
				cnt[c] = 0
			case "r":
				cnt[c]++
				if cnt[c] == 2 {
					add = "added"
				}
			case "m":
				cnt[c] = 2
				add = "force"
			}
			said := 0
			for _, l := range strings.Split(log[logged:], "\n") {
				if strings.HasPrefix(l, id) && strings.Contains(l, " yakker") && strings.Contains(l, ip[1:]) {
					said++
				}
			}
			verif.Assert((said == 1) == (add != ""), "the log does not say that a client is from now on stalled")
		}
		logged = len(log)
		if add != "" {
			want = append(want, id+ip+add)
		}
	}
	if !dn {
		return
	}
	log := zzLog("/log/dn")
	verif.Observe("dnlog", log)
	verif.Observe("want", strings.Join(want, "|"))
	ls := strings.Split(log, "\n")
	ok := len(ls) == len(want)+2 && ls[0] == "old" && ls[len(ls)-1] == ""
	verif.Assert(ok, "the do-nothing log does not have one line per event")
	if !ok {
		return
	}
	for i, w := range want {
		f := strings.Fields(w)
		l := ls[i+1]
		verif.Assert(strings.Contains(l, f[0]+"]") && strings.Contains(l, " "+f[1]+" ") && strings.Contains(l, f[2]) && strings.Contains(l, zzAddr), "a line of the do-nothing log does not say what happened to whom")
	}
}

// 4 sessions of two clients with any outcome: stalled ones do not appear in
// the SMTP log; the do-nothing log has a line for each of them and for each time
// a client is marked
func VerifC33_stalled() { zzC33Stall(4) }

// 6 sessions
func VerifC33_stalled_deep() { zzC33Stall(6) }

// one or two sessions of a client with 1 to 4 transactions each, abandoned
// before RCPT TO or not, perhaps marked by make-yakker, perhaps a failing
// STARTTLS at the end, -minphase to and -dncount 1 to 3: when the client is
// stalled from then on, the log and the do-nothing log say so once
func VerifC33_rset() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["dnlog"] = "/log/dn"
	env.FlagStr["minphase"] = "to"
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "@helo set-with helo m with make-yakker\n")
	n := 1 + verif.Choose("dncount", 3)
	env.FlagInt["dncount"] = n
	zzMustBoot()
	for k, ns := 1, 1+verif.Choose("sessions", 2); k <= ns; k++ {
		steps := []env.Step{zzEhlo([]string{"h", "m"}[verif.Choose("make-yakker", 2)])}
		for i, m := 0, 1+verif.Choose("mails", 4); i < m; i++ {
			steps = append(steps, zzMail("f@x"), zzRset)
		}
		if verif.Bool("reach") {
			steps = append(steps, zzMail("f@x"), zzRcpt("u@x"))
		} else if verif.Bool("badtls") {
			steps = append(steps, env.Step{Kind: "badtls"})
		}
		s := zzRun(zzCl, steps...)
		zzObs(s)
		if zzReply(s, "ehlo", 0).Class == 4 {
			return // stalled already
		}
	}
	id := "4242/"
	said, dn := 0, 0
	for _, l := range strings.Split(zzLog("/log/smtp"), "\n") {
		if strings.HasPrefix(l, id) && strings.Contains(l, " yakker") && strings.Contains(l, "192.0.2.1") {
			said++
		}
	}
	for _, l := range strings.Split(zzLog("/log/dn"), "\n") {
		if strings.Contains(l, "192.0.2.1") {
			dn++
		}
	}
	s := zzRun("192.0.2.1:1001", zzEhlo("h"))
	zzObs(s)
	want := 0
	if zzReply(s, "ehlo", 0).Class == 4 {
		want = 1
	}
	verif.Assert(said == want, "the log does not say once that a client is from now on stalled")
	verif.Assert(dn == want, "the do-nothing log does not have one line for a client being marked")
	for _, l := range strings.Split(zzLog("/log/dn"), "\n") {
		if strings.Contains(l, "192.0.2.1") {
			dn--
		}
	}
	verif.Assert(want == 0 || dn == -1, "the do-nothing log does not have one line for each connection of a stalled client")
}
