package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC30 starts the server and checks that it does exactly if it should.
func zzC30(want bool) {
	ok := zzBoot()
	verif.Observe("started", ok)
	verif.Observe("stderr", string(env.Stderr))
	verif.Assert(ok == want, "the server does not start exactly in valid configurations")
	if ok {
		verif.Assert(!env.Exited && len(env.Listening) == len(env.FlagArgs), "the server does not listen on all of its addresses")
		verif.Assert(len(env.Paths("/save")) == 0, "a file is left in the save directory")
		// and it serves
		s := zzRun(zzCl, zzEhlo("probe.x"))
		verif.Assert(s.Closed && zzReply(s, "ehlo", 0).Class == 2, "the server does not serve")
		return
	}
	verif.Assert(env.Exited && env.ExitCode != 0, "the server does not exit with an error")
	verif.Assert(len(env.Listening) == 0, "the server listened in an invalid configuration")
	verif.Assert(len(env.Stderr) > 0, "the server does not say why it gives up")
}

// -d, -M, -force-receive in every combination; -save-hash any string of up to
// 4 letters of a, f, g, l, m, s, u (or with another option given, any of -r,
// -smtplog with -dncount, -conncfg, -c and -k, or -S with
// -statsperip, -toaccept, -fromreject and -heloreject); -l given or not
func VerifC30_keep() {
	zzDefaults()
	env.FlagBool["nostdrules"] = verif.Bool("nostd")
	d, m, f, l := verif.Bool("d"), verif.Bool("M"), verif.Bool("force"), verif.Bool("l")
	if d {
		env.FlagStr["d"] = "/save"
	}
	env.FlagBool["M"] = m
	env.FlagBool["force-receive"] = f
	if l {
		env.FlagStr["l"] = "/log/msg"
	}
	h := "all"
	want := true
	// other options do not matter
	extra := verif.Choose("extra", 6)
	switch extra {
	case 1:
		env.FlagStr["r"] = "/r1"
		env.Put("/r1", []string{"@to reject to a@b\n", "accept all\n", "@from reject all\n"}[verif.Choose("rules", 3)])
	case 2:
		env.FlagStr["smtplog"] = "/log/smtp"
		env.FlagInt["dncount"] = 3
	case 3:
		env.FlagStr["conncfg"] = "/cfg"
		env.Put("/cfg", "* hostname=x\n")
	case 4:
		env.FlagStr["c"], env.FlagStr["k"] = "/c1", "/k1"
		env.Put("/c1", "cert A")
		env.Put("/k1", "key A")
	case 5:
		env.FlagBool["S"] = true
		env.FlagBool["statsperip"] = true
		env.FlagStr["toaccept"], env.FlagStr["fromreject"], env.FlagStr["heloreject"] = "/ta", "/fr", "/hr"
	}
	if extra == 0 && verif.Bool("hash") {
		h = zzStr("save-hash", 0, 4, "afglmsu")
		env.FlagStr["save-hash"] = h
		want = verif.Or(verif.EqStr(h, "all"), verif.EqStr(h, "full"), verif.And(l, verif.EqStr(h, "msg")))
	}
	want = verif.And(want, verif.Or(d, m, f))
	zzC30(want)
}

// -c and -k: absent, a pair, lists of pairs, missing files, files that do not
// belong together, lists of different lengths
func VerifC30_certs() {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.Put("/c1", "cert A")
	env.Put("/c2", "cert B")
	env.Put("/k1", "key A")
	env.Put("/k2", "key B")
	env.Put("/junk", "junk")
	cs := []string{"", "/c1", "/c2", "/none", "/junk", "/k1", "/c1,/c2", "/c1,/none", "/c1,/c1"}
	ks := []string{"", "/k1", "/k2", "/none", "/junk", "/c1", "/k1,/k2", "/k1,/none", "/k1,/k1"}
	ic, ik := verif.Choose("c", len(cs)), verif.Choose("k", len(ks))
	env.FlagStr["c"] = cs[ic]
	env.FlagStr["k"] = ks[ik]
	zzC30(ic == ik && ic != 3 && ic != 4 && ic != 5 && ic != 7)
}

// -dncount 0-2 and -dndur any time from -1 s to 2 s, -smtplog, -dnlog given or
// not
func VerifC30_donothing() {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	n := verif.Choose("dncount", 3)
	env.FlagInt["dncount"] = n
	dur := int64(verif.Int("dndur", -1000000000, 2000000000))
	given := verif.Bool("dur")
	if given {
		env.FlagDur["dndur"] = dur
	}
	sl, dl := verif.Bool("smtplog"), verif.Bool("dnlog")
	if sl {
		env.FlagStr["smtplog"] = []string{"/log/smtp", "-"}[verif.Choose("where", 2)]
	}
	if dl {
		env.FlagStr["dnlog"] = "/log/dn"
	}
	if n == 0 && dl {
		verif.Reject() // says nothing about that
	}
	want := n == 0 || n > 0 && sl && (!given || dur >= 1000000000)
	zzC30(want)
}

// -minphase: every valid name, with one byte removed, added or replaced by any
// other byte, and the empty string
func VerifC30_minphase() {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	names := []string{"helo", "ehlo", "from", "to", "data", "message", "accepted"}
	p := names[verif.Choose("phase", len(names))]
	switch verif.Choose("change", 6) {
	case 1:
		i := verif.Choose("at", len(p))
		p = p[:i] + verif.StringN("byte", 1) + p[i+1:]
	case 2:
		p = p[:len(p)-1]
	case 3:
		p = p + verif.StringN("byte", 1)
	case 4:
		p = ""
	case 5:
		p = []string{"connect", "rcpt", "mail", "@from", "HELO", "msg"}[verif.Choose("other", 6)]
	}
	want := false
	for _, n := range names {
		want = verif.Or(want, verif.EqStr(p, n))
	}
	env.FlagStr["minphase"] = p
	zzC30(want)
}

// zzC30All gives every option that names a file.
func zzC30All() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["l"] = "/log/msg"
	env.FlagStr["dnlog"] = "/log/dn"
	env.FlagInt["dncount"] = 5
	env.FlagStr["r"] = "/r1,/r2"
	env.Put("/r1", "@to reject to a@b\ninclude /r3\n")
	env.Put("/r2", "@to reject to c@d\n")
	env.Put("/r3", "@to reject to file:/pats\n")
	env.FlagStr["conncfg"] = "/cfg"
	env.Put("/cfg", "* hostname=x cert=/c2 key=/k2\n")
	env.FlagStr["c"] = "/c1"
	env.FlagStr["k"] = "/k1"
	env.Put("/c1", "cert A")
	env.Put("/k1", "key A")
	env.Put("/c2", "cert B")
	env.Put("/k2", "key B")
}

// every option naming a file at once; one of the files (or the save directory)
// cannot be opened or created, is missing, is a directory, or fails while being read
func VerifC30_files() {
	zzC30All()
	files := []string{"/save/.wecanmake", "/log/smtp", "/log/msg", "/log/dn", "/r1", "/r2", "/r3", "/cfg", "/c1", "/k1", "/c2", "/k2"}
	i := verif.Choose("file", len(files)+1)
	want := i == len(files)
	if !want {
		f := files[i]
		switch verif.Choose("how", 3) {
		case 0:
			env.Fault = func(op, path string) error {
				if path == f || i == 0 && strings.HasPrefix(path, "/save/") {
					return env.ErrPermission
				}
				return nil
			}
		case 1:
			switch {
			case i == 0:
				env.Remove("/save")
			case i < 4:
				env.Mkdir(f)
			default:
				env.Remove(f)
			}
		case 2:
			if i < 4 || i > 7 {
				verif.Reject()
			}
			at := verif.Choose("offset", 9)
			env.ReadFault = func(path string, off int) error {
				if path == f && off >= at {
					return env.ErrIO
				}
				return nil
			}
		}
	}
	zzC30(want)
}

// rules and -conncfg files with one of several errors, in any of them and on any line
func VerifC30_contents() {
	zzC30All()
	bad := []string{"reject", "reject from", "nonsense", "@from reject to a@b", "reject helo-has x", "include /none", "reject all with message", "set-with all", "reject (all", "reject from \"a"}
	badc := []string{"* nonsense", "* cert=/c2", "* key=/k2", "* cert=/c2 key=/k1", "* cert=/c1,/c2 key=/k1", "* what=ever"}
	i := verif.Choose("file", 5)
	want := i == 4
	first := verif.Bool("first")
	add := func(f, line string) {
		s, _ := env.Get(f)
		if first {
			s = line + "\n" + s
		} else {
			s = s + line
		}
		env.Put(f, s)
	}
	switch i {
	case 0, 1, 2:
		add([]string{"/r1", "/r2", "/r3"}[i], bad[verif.Choose("error", len(bad))])
	case 3:
		add("/cfg", badc[verif.Choose("error", len(badc))])
	}
	zzC30(want)
}

// two or three addresses, one of which cannot be listened on
func VerifC30_listen() {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagArgs = []string{zzAddr, "127.0.0.2:25", "[::1]:25"}[:1+verif.Choose("addresses", 3)]
	i := verif.Choose("fails", 4)
	env.ListenErr = func(a string) error {
		if i < len(env.FlagArgs) && a == env.FlagArgs[i] {
			return env.ErrIO
		}
		return nil
	}
	ok := zzBoot()
	if i < len(env.FlagArgs) {
		verif.Assert(env.Exited && env.ExitCode != 0, "the server goes on without one of its addresses")
	} else {
		verif.Assert(ok && len(env.Listening) == len(env.FlagArgs), "the server does not listen on all of its addresses")
	}
}

// no address at all: nothing is served
func VerifC30_noargs() {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagArgs = nil
	verif.Assert(!zzBoot(), "the server starts without an address")
	verif.Assert(len(env.Stderr) > 0, "the server does not say why it gives up")
}

// 3 connections on 2 addresses, together or one after the other: each is
// handled on its own, with its own arguments, under its own id
func VerifC30_ids() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "@from reject from bad@\n@helo set-with helo helo-a with note helo-a\n@helo set-with helo helo-b with note helo-b\n@helo set-with helo helo-c with note helo-c\n")
	env.FlagArgs = []string{zzAddr, "127.0.0.2:25"}
	zzMustBoot()
	who := verif.Choose("bad", 4)
	addr, spread, wait := verif.Choose("addr", 2), verif.Choose("spread", 2), verif.Choose("wait", 4)
	k := 1
	if verif.Deep() {
		k = 2
	}
	verif.Interleave(k)
	var ss []*env.Session
	for i := 0; i < 3; i++ {
		n := string(rune('a' + i))
		f := "good@" + n
		if i == who {
			f = "bad@" + n
		}
		a := env.FlagArgs[(i+addr)%2*spread]
		s := env.NewSession("192.0.2.1"+n[:0]+string(rune('0'+i))+":77", a, zzScript(zzEhlo("helo-"+n), zzMail(f)))
		ss = append(ss, s)
		env.Dial(a, s)
		if wait == i {
			s.Wait()
		}
	}
	verif.Quiesce()
	for i, s := range ss {
		verif.Assert(s.Closed, "a connection is not handled")
		c := zzReply(s, "mail", 0).Class
		verif.Assert((c == 5) == (i == who) && c != 0, "a connection is answered for another")
	}
	// the ids: first word of the log lines
	ids := map[string]string{}
	for _, l := range strings.Split(zzLog("/log/smtp"), "\n") {
		for i := range ss {
			n := "helo-" + string(rune('a'+i))
			if strings.Contains(l, n) && strings.Contains(l, "note") {
				id := l
				if j := strings.IndexAny(l, " "); j >= 0 {
					id = l[:j]
				}
				verif.Assert(ids[n] == "" || ids[n] == id, "a connection changes its id")
				ids[n] = id
			}
		}
	}
	verif.Assert(len(ids) == 3, "a connection is not logged")
	for a, x := range ids {
		for b, y := range ids {
			verif.Assert(a == b || x != y, "two connections have the same id")
		}
	}
}

// up to two failures to accept a connection, on either of two addresses, before
// or between two connections: both are handled
func VerifC30_accept() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagArgs = []string{zzAddr, "127.0.0.2:25"}
	zzMustBoot()
	var ss []*env.Session
	for i := 0; i < 2; i++ {
		if n := verif.Choose("error", 3); n > 0 {
			a := env.FlagArgs[n-1]
			go env.AcceptError(a)
			verif.Quiesce()
		}
		a := env.FlagArgs[verif.Choose("addr", 2)]
		s := env.NewSession(zzCl, a, zzScript(zzEhlo("h"), zzMail("a@x")))
		ss = append(ss, s)
		go env.Dial(a, s)
		verif.Quiesce()
	}
	verif.Assert(!env.Exited, "the server gives up when accepting a connection fails")
	for _, s := range ss {
		verif.Assert(s.Closed && zzReply(s, "mail", 0).Class == 2, "a connection is not handled after a failed one")
	}
}
