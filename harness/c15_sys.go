package main

import (
	"strconv"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzEnv is an expected message record.
type zzEnv struct {
	helo, from string
	rcpt       []string
	data       string
	tls        string // text of the tls line, or ""
	cid        string
	remote     string
}

// zzC15Saved is the metadata and message as documented, without the id line
// and the hash lines.
func (m *zzEnv) top() string {
	s := "remote 192.0.2.1 to " + zzAddr + " with helo '" + m.helo + "'\n"
	if m.tls != "" {
		s += "tls on cipher " + m.tls + "\n"
	}
	s += "from <" + m.from + ">\n"
	for _, r := range m.rcpt {
		s += "to <" + r + ">\n"
	}
	return s
}

func (m *zzEnv) logline() string {
	s := "] from " + m.remote + " / <" + m.from + "> to"
	for _, r := range m.rcpt {
		s += " <" + r + ">"
	}
	return s + ": message " + strconv.Itoa(len(m.data)) + " bytes hash "
}

// zzC15Check compares the log and the saved files with the expected messages.
func zzC15Check(want []*zzEnv) {
	lines := strings.Split(zzLog("/log/msg"), "\n")
	verif.Assert(len(lines) == len(want)+1, "not exactly one log line per message")
	files := env.Paths("/save")
	verif.Assert(len(files) == len(want), "not exactly one file per message")
	var left []string
	for _, f := range files {
		t, _ := env.Get(f)
		left = append(left, t)
	}
	for i, m := range want {
		l := lines[i]
		verif.Assert(strings.Contains(l, m.logline()), "the log does not record the envelope of the message")
		j := strings.Index(l, "["+m.cid+"]")
		_ = j
		end := " | local " + zzAddr + " helo '" + m.helo + "'"
		if m.tls == "" {
			verif.Assert(strings.HasSuffix(l, end), "the log does not record the HELO name of the message")
		} else {
			verif.Assert(strings.Contains(l, end+" tls:cipher "), "the log does not record the TLS state of the message")
		}
		found := -1
		for k, t := range left {
			nl := strings.IndexByte(t, '\n')
			b := strings.Index(t, "\nbody\n")
			if nl < 0 || b < 0 {
				continue
			}
			if t[b+6:] != m.data {
				continue
			}
			found = k
			id := t[:nl]
			verif.Assert(strings.HasPrefix(id, "id ") && strings.Contains(id, " "+m.remote+" "), "the saved file does not identify the connection")
			rest := t[nl+1:]
			verif.Assert(strings.HasPrefix(rest, m.top()), "the saved envelope is not that of the transaction")
			rest = rest[len(m.top()):]
			h := strings.Index(rest, "\n")
			verif.Assert(strings.HasPrefix(rest, "hash ") && strings.HasSuffix(rest[:h], " bytes "+strconv.Itoa(len(m.data))), "the saved envelope is not that of the transaction")
			verif.Assert(strings.HasPrefix(rest[h+1:], "bodyhash "), "the saved envelope has something else")
		}
		verif.Assert(found >= 0, "no saved file holds exactly the bytes of the message")
	}
}

// zzC15Seq plays n steps of a client that only sends commands in sequence;
// names with 'bad' are refused.
func zzC15Seq(n int) {
	zzTruths(2)
	zzServeBare("@helo stall helo .r\n@from reject from @.r\n@to reject to @r\n@to stall to @s\n@data reject to @d\n@message reject " + zzOp(0) + "\n@message stall " + zzOp(1) + "\n")
	var want []*zzEnv
	state, helo := 0, "h.x"
	cur := &zzEnv{}
	i := 0
	var pend env.Step
	client := func(s *env.Session) env.Step {
		// account for the previous step
		if i > 0 {
			r := zzLastOf(s, pend.Kind)
			acc := r.Class == 2 || r.Class == 3
			switch pend.Kind {
			case "ehlo", "helo":
				if acc {
					helo, state = pend.Arg, 1
				}
			case "mail":
				if acc {
					cur = &zzEnv{from: pend.Arg, remote: zzCl}
					state = 2
				}
			case "rcpt":
				if acc {
					cur.rcpt = append(cur.rcpt, pend.Arg)
					state = 3
				}
			case "data":
				if acc {
					cur.helo, cur.data = helo, pend.Data
					want = append(want, cur)
					cur = &zzEnv{from: cur.from, rcpt: append([]string{}, cur.rcpt...), remote: zzCl}
					state = 1
				}
			case "rset":
				if state > 1 {
					state = 1
				}
			}
		}
		d := strconv.Itoa(i)
		i++
		if i > n {
			pend = zzQuit
			return pend
		}
		// names ending in r, s or d meet a rule that refuses them
		dom := func(l string) string { return verif.StringIn("name", 1, l) }
		switch state {
		case 0:
			pend = zzEhlo("h" + d + "." + dom("rx"))
		case 1:
			switch verif.Choose("s1", 3) {
			case 0:
				pend = zzMail("m" + d + "@f." + dom("rx"))
			case 1:
				pend = zzMail("")
			case 2:
				pend = zzHelo("h" + d + "." + dom("rx"))
			}
		case 2:
			switch verif.Choose("s2", 2) {
			case 0:
				pend = zzRcpt("u" + d + "@" + dom("drx"))
			case 1:
				pend = zzRset
			}
		case 3:
			switch verif.Choose("s3", 3) {
			case 0:
				pend = zzData("Subject: " + d + "\n\nbody " + d + "\n")
			case 1:
				pend = zzRcpt("u" + d + "@" + dom("sx"))
			case 2:
				pend = zzRset
			}
		}
		return pend
	}
	s := env.NewSession(zzCl, zzAddr, client)
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	zzC15Check(want)
}

func zzLastOf(s *env.Session, kind string) env.Reply {
	for i := len(s.Replies) - 1; i >= 0; i-- {
		if s.Replies[i].Kind == kind {
			return s.Replies[i]
		}
	}
	return env.Reply{}
}

// 7 commands in sequence: (re)greeting, senders (also the null sender),
// recipients, DATA, RSET, the names being arbitrary among
// accepted and refused ones, messages being accepted,
// rejected or stalled in the end; every log line and saved file
func VerifC15_seq() { zzC15Seq(7) }

// as above with 9 commands
func VerifC15_seq_deep() { zzC15Seq(9) }

// the exact message bytes: any 4 bytes (thorough: 6), also with an empty line
// in them, or an empty message; any accepted sender, recipients and HELO name
// of 1-2 arbitrary characters
func VerifC15_bytes() {
	n := 4
	if verif.Deep() {
		n = 6
	}
	zzServeBare("accept all\n")
	data := verif.String("data", n)
	if verif.Choose("body", 2) == 1 {
		data = "S: x\n\n" + data
	}
	h := verif.StringIn("helo", 2, " %'<>Aa")
	f := verif.StringIn("from", 1, " %<>Aa")
	r := verif.StringIn("rcpt", 1, " %<>Aa")
	s := zzRun(zzCl, zzEhlo(h), zzMail(f+"@f"), zzRcpt(r+"@t"), zzRcpt("x@"+r), zzData(data))
	verif.Assert(zzReply(s, "msg", 0).Class == 2, "the message was not accepted")
	files := env.Paths("/save")
	verif.Assert(len(files) == 1, "not exactly one file per message")
	t, _ := env.Get(files[0])
	m := &zzEnv{helo: h, from: f + "@f", rcpt: []string{r + "@t", "x@" + r}, data: data, remote: zzCl}
	nl := strings.IndexByte(t, '\n')
	top := m.top()
	verif.Assert(verif.EqStr(t[nl+1:nl+1+len(top)], top), "the saved envelope is not that of the transaction")
	verif.Assert(len(t) > len(data)+6, "the saved file does not end in the message")
	verif.Assert(verif.EqStr(t[len(t)-len(data)-6:], "\nbody\n"+data), "the saved file does not hold exactly the message bytes")
	l := zzLog("/log/msg")
	ll := m.logline()
	k := strings.IndexByte(l, ']')
	verif.Assert(k >= 0 && len(l) >= k+len(ll), "the log does not record the envelope of the message")
	verif.Assert(verif.EqStr(l[k:k+len(ll)], ll), "the log does not record the envelope of the message")
	end := " helo '" + h + "'\n"
	verif.Assert(verif.EqStr(l[len(l)-len(end):], end), "the log does not record the HELO name")
}

// TLS: a message before STARTTLS and one after it, with any protocol version
// and cipher, with a server name, a client certificate (good, needing an
// intermediate, bad, or none)
func VerifC15_tls() {
	env.FlagStr["c"] = "/c"
	env.FlagStr["k"] = "/k"
	env.Put("/c", "cert A")
	env.Put("/k", "key A")
	zzServeBare("accept all\n")
	st, line := zzTLSState()
	pre := verif.Choose("before", 2) == 1
	steps := []env.Step{zzEhlo("h1.x")}
	if pre {
		steps = append(steps, zzMail("a@f"), zzRcpt("u@t"), zzData("one\n"))
	}
	last := "h2.x"
	steps = append(steps, env.Step{Kind: "starttls", TLS: st}, zzEhlo("h2.x"))
	if verif.Choose("more", 2) == 1 {
		last = "h3.x"
		steps = append(steps, zzHelo("h3.x"))
	}
	steps = append(steps, zzMail("b@f"), zzRcpt("v@t"), zzData("two\n"), zzMail("c@f"), zzRcpt("w@t"), zzData("three\n"))
	s := zzRun(zzCl, steps...)
	zzObs(s)
	var want []*zzEnv
	if pre {
		want = append(want, &zzEnv{helo: "h1.x", from: "a@f", rcpt: []string{"u@t"}, data: "one\n", remote: zzCl})
	}
	want = append(want, &zzEnv{helo: last, from: "b@f", rcpt: []string{"v@t"}, data: "two\n", tls: line, remote: zzCl},
		&zzEnv{helo: last, from: "c@f", rcpt: []string{"w@t"}, data: "three\n", tls: line, remote: zzCl})
	zzC15Check(want)
}

// zzTLSState makes a TLS connection state and the text recorded for it.
func zzTLSState() (tls.ConnectionState, string) {
	var st tls.ConnectionState
	vers := []uint16{0x0300, 0x0301, 0x0302, 0x0303, 0x0304, 0x0305}
	names := []string{"SSLv3", "TLSv1.0", "TLSv1.1", "TLSv1.2", "TLSv1.3", "tls-0x0305"}
	v := verif.Choose("version", len(vers))
	st.Version = vers[v]
	line := ""
	switch verif.Choose("cipher", 3) {
	case 0:
		st.CipherSuite = 0xc02f
		line = "0xc02f name TLSv1.2:ECDHE-RSA-AES128-GCM-SHA256:128"
	case 1:
		st.CipherSuite = 0x1301
		line = "0x1301 name TLSv1.3:TLS_AES_128_GCM_SHA256:128"
	case 2:
		st.CipherSuite = 0xfff1
		line = "0xfff1"
	}
	line += " proto " + names[v]
	if verif.Choose("sni", 2) == 1 {
		st.ServerName = "sni.example"
		line += " server-name 'sni.example'"
	}
	zzCert(&st, &line)
	return st, line
}

// the same addresses again: two transactions with the same or another sender,
// of 3 and 2 recipients each being any of a@t, A@t, b@t
func VerifC15_same() {
	zzServeBare("accept all\n")
	a := func(l string) string { return verif.StringIn(l, 1, "Aab") + "@t" }
	m1 := &zzEnv{helo: "h.x", from: a("from"), rcpt: []string{a("r1"), a("r2"), a("r3")}, data: "one\n", remote: zzCl}
	m2 := &zzEnv{helo: "h.x", from: a("from2"), rcpt: []string{a("r4"), a("r5")}, data: "two\n", remote: zzCl}
	s := zzRun(zzCl, zzEhlo("h.x"), zzMail(m1.from), zzRcpt(m1.rcpt[0]), zzRcpt(m1.rcpt[1]), zzRcpt(m1.rcpt[2]), zzData(m1.data),
		zzMail(m2.from), zzRcpt(m2.rcpt[0]), zzRcpt(m2.rcpt[1]), zzData(m2.data))
	zzObs(s)
	zzC15Check([]*zzEnv{m1, m2})
}
