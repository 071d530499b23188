package main

import (
	rnet "net"

	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// Any panic, deadlock, endless loop or endless recursion in the program is a
// violation by itself; here the handler must also return and close the
// connection.

const zzC28Rules = "set-with all with note \"a note\" savedir /save\n" +
	"@connect set-with ip 192.0.2.0/24 or ip 2001:db8::1 or ip /ips with tls-opt no-client\n" +
	"set-with dns nodns,inconsistent,noforward,good,exists dnsbl sbl.spamhaus.org with note \"n2\"\n" +
	"@helo set-with helo-has none,bogus,nodots,bareip,properip,myip,remip,otherip or helo .x or host .z with note n3\n" +
	"set-with dbl any sbl.spamhaus.org or dbl host,helo dbl.x with note n4\n" +
	"@from set-with from-has unqualified,route,quoted,noat,garbage,resolves,baddom,unknown with message m1\n" +
	"@from set-with from @.x or from a@ or from <> or source x.y or source /hosts with message m2\n" +
	"@to set-with to-has unqualified,route,quoted,noat,garbage,resolves,baddom,unknown or to @.x with message \"m3\nmore\"\n" +
	"@from set-with tls on with note tls make-yakker\n" +
	"@data set-with to @ or to-has bad with note n5\n@message reject to reject@ with message no note n6\n@message stall to stall@\n"

// zzC28Conf boots with a choice of options; returns the client address.
func zzC28Conf(rules string) string {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["r"] = "/rules"
	// a TLS option in every phase
	rules = []string{"", "set-with all with tls-opt no-client\n", "set-with all with tls-opt off\n"}[verif.Choose("tls-opt", 3)] + rules
	env.Put("/rules", rules)
	env.Put("/ips", "192.0.2.9\n::1\nbogus/99\n")
	env.Put("/hosts", ".\nx.\n@\n.y\n")
	switch verif.Choose("logs", 4) {
	case 1:
		env.FlagStr["smtplog"] = "/log/smtp"
	case 2:
		env.FlagStr["l"] = "/log/msg"
	case 3:
		env.FlagStr["smtplog"] = "/log/smtp"
		env.FlagStr["l"] = "/log/msg"
		env.FlagInt["dncount"] = 1
		env.FlagDur["dndur"] = 3600 * 1000000000
		env.FlagStr["dnlog"] = "/log/dn"
	}
	if verif.Choose("save", 2) == 1 {
		env.FlagStr["d"] = "/save"
	} else {
		env.FlagBool["force-receive"] = true
	}
	if verif.Choose("tls", 2) == 1 {
		env.FlagStr["c"] = "/c"
		env.FlagStr["k"] = "/k"
		env.Put("/c", "cert A")
		env.Put("/k", "key A")
	}
	ip := "192.0.2.1"
	remote := ip + ":1000"
	switch verif.Choose("family", 3) {
	case 1:
		ip = "2001:db8::1"
		remote = "[" + ip + "]:1000"
	case 2:
		ip = "fe80::1%eth0"
		remote = "[" + ip + "]:1000"
	}
	env.LookupAddr = func(a string) ([]string, error) {
		return []string{"a.z.", "b.z.", "c.z."}, nil
	}
	env.LookupIP = func(n string) ([]rnet.IP, error) {
		switch n {
		case "a.z.":
			return []rnet.IP{rnet.ParseIP(ip)}, nil
		case "b.z.":
			return nil, env.NoHost
		case "c.z.":
			return []rnet.IP{}, nil
		}
		return []rnet.IP{rnet.IPv4(127, 0, 0, 2)}, nil
	}
	env.LookupTXT = func(n string) ([]string, error) { return []string{"x/SBL1", "x/", "", "/"}, nil }
	zzMustBoot()
	return remote
}

func zzC28Session(remote string, client func(*env.Session) env.Step) *env.Session {
	base := verif.Goroutines()
	s := env.NewSession(remote, zzAddr, client)
	env.Dial(zzAddr, s)
	verif.Quiesce()
	zzObs(s)
	verif.Assert(s.Closed, "the handler does not end and close the connection")
	verif.Assert(verif.Goroutines() == base, "the handler leaves something running")
	return s
}

// every option combination, a client that does everything; then a second
// session (which may be stalled) doing the same
func VerifC28_options() {
	remote := zzC28Conf(zzC28Rules)
	steps := []env.Step{zzEhlo("[::1]"), {Kind: "starttls", TLS: tls.ConnectionState{Version: 0x0303, CipherSuite: 0xc02f}},
		zzEhlo("h.x"), zzMail(""), zzRcpt("a@b.x"), zzRcpt("\"q\"@x"), zzData("a: b\n\nc"), zzRset,
		zzMail("a@b.x"), zzRcpt("reject@x.y"), zzData(""), zzMail("@a.b"), zzRcpt("stall@"), zzData("garbage"),
		zzHelo("."), zzMail("a@b.x"), zzRcpt("u"), {Kind: "data", Data: "x", Cut: true}}
	zzC28Session(remote, zzScript(steps...))
	zzC28Session(remote, zzScript(steps...))
}

// zzC28Cmds: a client with n arbitrary commands in any order
func zzC28Cmds(n int) {
	remote := zzC28Conf(zzC28Rules)
	i := 0
	zzC28Session(remote, func(s *env.Session) env.Step {
		if i >= n {
			return zzQuit
		}
		i++
		switch verif.Choose("cmd", 10) {
		case 0:
			return zzHelo("h.x")
		case 1:
			return zzMail("a@b.x")
		case 2:
			return zzRcpt("a@b.x")
		case 3:
			return zzData("x\n\ny")
		case 4:
			return zzRset
		case 5:
			return env.Step{Kind: "starttls", TLS: tls.ConnectionState{}}
		case 6:
			return env.Step{Kind: "badtls"}
		case 7:
			return env.Step{Kind: "abort"}
		case 8:
			return env.Step{Kind: "data", Data: "x", Cut: true}
		}
		return env.Step{Kind: "noop"}
	})
}

// a client sending any 2 commands (in or out of order), every option
// combination
func VerifC28_commands() { zzC28Cmds(2) }

// any 4 commands
func VerifC28_commands_deep() { zzC28Cmds(4) }

// zzC28Args: arbitrary arguments
func zzC28Args(n int, remote string) {
	zzServeBare(zzC28Rules)
	env.LookupIP = func(string) ([]rnet.IP, error) { return []rnet.IP{rnet.IPv4(127, 0, 0, 2)}, nil }
	al := "\"%.0:;<>@X[\\]a"
	helo, from, rcpt := "h", "a@b", "c@d"
	switch verif.Choose("which", 3) {
	case 0:
		helo = zzStr("helo", 1, n, al)
	case 1:
		from = zzStr("from", 0, n, al)
	case 2:
		rcpt = zzStr("rcpt", 0, n, al)
	}
	zzC28Session(remote, zzScript(zzEhlo(helo), zzMail(from), zzRcpt(rcpt), zzData("x")))
}

// arbitrary HELO names or sender or recipient addresses of up to 3 bytes from
// "%.0:;<>@X[\]a and the quote, IPv4
func VerifC28_args() { zzC28Args(3, zzCl) }

// up to 4 bytes
func VerifC28_args_deep() { zzC28Args(4, zzCl) }

// the same up to 2 bytes, IPv6
func VerifC28_args6() { zzC28Args(2, "[2001:db8::1]:99") }

// any message text up to 3 bytes (any byte), saved and logged
func VerifC28_message() {
	zzServeBare(zzC28Rules)
	d := verif.StringN("msg", verif.Choose("len", 4))
	s := zzC28Session(zzCl, zzScript(zzEhlo("h.x"), zzMail("a@b.x"), zzRcpt("u@x.y"), zzData(d)))
	verif.Assert(zzReply(s, "msg", 0).Class == 2, "a message is not accepted")
}

// DNS failing or empty in any combination for every rule operation
func VerifC28_dns() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["helo"] = ""
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", zzC28Rules)
	zzMustBoot()
	env.LookupAddr = func(string) ([]string, error) {
		switch verif.Choose("addr", 5) {
		case 0:
			return nil, env.NoHost
		case 1:
			return nil, nil
		case 2:
			return []string{"."}, nil
		case 3:
			return []string{"localhost"}, nil
		}
		return []string{"a.z.", "a.z."}, nil
	}
	iperr, mx, txt := verif.Bool("ip.err"), verif.Choose("mx", 4), verif.Choose("txt", 3)
	env.LookupIP = func(n string) ([]rnet.IP, error) {
		if iperr != (n == "m.x.") {
			return nil, env.NoHost
		}
		return []rnet.IP{rnet.IPv4(10, 0, 0, 2)}, nil
	}
	env.LookupMX = func(string) ([]*rnet.MX, error) {
		switch mx {
		case 0:
			return nil, env.NoHost
		case 1:
			return []*rnet.MX{{Host: "."}}, nil
		case 2:
			return []*rnet.MX{}, nil
		}
		return []*rnet.MX{{Host: "m.x."}, {Host: "localhost.", Pref: 3}}, nil
	}
	env.LookupTXT = func(n string) ([]string, error) {
		switch txt {
		case 0:
			return nil, env.NoHost
		case 1:
			return []string{""}, nil
		}
		return []string{"x/SBL1", "x/"}, nil
	}
	zzC28Session(zzCl, zzScript(zzEhlo("h.x"), zzMail("a@b.x"), zzRcpt("u@x.y")))
}

// faults of the file system anywhere: opening, reading, writing and closing of
// rules, lists, logs and saved messages
func VerifC28_faults() {
	zzServe("reject from /list\n@to set-with to @ with note x savedir /save\n")
	env.Put("/list", "a@b\n")
	n := 0
	k := verif.Choose("at", 12)
	env.Fault = func(op, path string) error {
		n++
		if n-1 == k {
			return env.ErrIO
		}
		return nil
	}
	zzC28Session(zzCl, zzScript(zzEhlo("h.x"), zzMail("a@b.x"), zzRcpt("u@x.y"), zzData("x")))
}

// the other ways a session ends: dropped by a rule at connect time, stopped
// after too many transactions, with broken rules, with a broken -conncfg file,
// or ended by the client at once; with or without logs; twice
func VerifC28_ends() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "accept all\n")
	if verif.Choose("logs", 2) == 1 {
		env.FlagStr["smtplog"] = "/log/smtp"
		env.FlagStr["l"] = "/log/msg"
		env.FlagInt["dncount"] = 1 + verif.Choose("dncount", 3)
		env.FlagDur["dndur"] = 3600 * 1000000000
		env.FlagStr["dnlog"] = "/log/dn"
		env.FlagStr["minphase"] = "to"
	}
	env.FlagStr["conncfg"] = "/cfg"
	env.Put("/cfg", "* hostname=x\n")
	zzMustBoot()
	var steps []env.Step
	switch verif.Choose("how", 6) {
	case 0:
		env.Put("/rules", "@connect reject all with note x message y\n")
		steps = []env.Step{zzEhlo("h")}
	case 1:
		steps = []env.Step{zzEhlo("h"), zzMail("a@b"), zzMail("a@b"), zzRset, zzMail("a@b"), zzRset, zzMail("a@b"), zzRset, zzMail("a@b"), zzRset, zzMail("a@b"), zzRcpt("c@d")}
	case 2:
		env.Put("/rules", "reject bogus\n")
		steps = []env.Step{zzEhlo("h"), zzMail("a@b")}
	case 3:
		env.Put("/cfg", "x y\n")
		steps = []env.Step{zzEhlo("h"), zzMail("a@b")}
	case 4:
		steps = []env.Step{{Kind: "abort"}}
	case 5:
		env.Put("/rules", "stall all with make-yakker\n")
		steps = []env.Step{zzEhlo("h"), zzMail("a@b")}
	}
	zzC28Session(zzCl, zzScript(steps...))
	zzC28Session(zzCl, zzScript(steps...))
}
