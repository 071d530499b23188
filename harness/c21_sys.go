package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC21Boot: command line certificates (or not), name from -helo
func zzC21Boot(certs bool, file string) {
	zzDefaults()
	env.FlagBool["force-receive"] = true
	env.FlagBool["nostdrules"] = true
	env.FlagStr["helo"] = "cmdline"
	env.FlagStr["conncfg"] = "/cfg"
	for _, x := range []string{"A", "B", "C", "D"} {
		env.Put("/c"+x, "cert "+x)
		env.Put("/k"+x, "key "+x)
	}
	if certs {
		env.FlagStr["c"] = "/cA"
		env.FlagStr["k"] = "/kA"
	}
	env.Put("/cfg", "")
	zzMustBoot()
	env.Put("/cfg", file)
}

// zzC21Get connects to a local address and returns the greeting name and the
// certificates offered ("-" without TLS).
func zzC21Get(local string) (string, string) {
	s := env.NewSession(zzCl, local, zzScript(zzEhlo("h")))
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	if !s.TLSOffer {
		return s.LocalName, "-"
	}
	c := s.TLSCfg.(*tls.Config)
	n := ""
	for _, x := range c.Certificates {
		n += x.ID
	}
	return s.LocalName, n
}

// local addresses to test with, and LOCAL values with the ones they match
var zzC21Addrs = []string{"192.0.2.10:25", "192.0.2.10:26", "192.0.2.11:25", "[2001:db8::5]:25", "[fe80::1%eth0]:25"}
var zzC21Locals = []struct {
	text  string
	match [5]bool
}{
	{"*", [5]bool{true, true, true, true, true}},
	{"192.0.2.10", [5]bool{true, true, false, false, false}},
	{"192.0.2.10:25", [5]bool{true, false, false, false, false}},
	{"192.0.2.10:2", [5]bool{}},
	{"192.0.2.10/31", [5]bool{true, true, true, false, false}},
	{"192.0.2.0/29", [5]bool{}},
	{"2001:db8:0::5", [5]bool{false, false, false, true, false}},
	{"[2001:db8::5]:25", [5]bool{false, false, false, true, false}},
	{"2001:db8::/32", [5]bool{false, false, false, true, false}},
	{"::ffff:192.0.2.11", [5]bool{false, false, true, false, false}},
	{"203.0.113.0/24", [5]bool{}},
	{"fe80::/10", [5]bool{false, false, false, false, true}},
	{"[fe80::1%eth0]:25", [5]bool{false, false, false, false, true}},
	{"0.0.0.0/0", [5]bool{true, true, true, false, false}},
	{"nonsense", [5]bool{}},
}

// zzC21Opts: the settings of a line, with the hostname and certificates
var zzC21Opts = []struct{ text, host, certs string }{
	{"", "", "-"},
	{" hostname=hN", "hN", "-"},
	{"\tcert=/cN key=/kN", "", "N"},
	{" hostname=hN cert=/cN key=/kN", "hN", "N"},
	{"   key=/kN   hostname=hN cert=/cN  ", "hN", "N"},
	{" key=/kN,/kD cert=/cN,/cD", "", "ND"},
	{" hostname=a=b", "a=b", "-"},
}

func zzC21Lines(n int) {
	cmd := verif.Bool("cmdcerts")
	a := verif.Choose("addr", len(zzC21Addrs))
	file := ""
	name, certs := "cmdline", "-"
	if cmd {
		certs = "A"
	}
	found := false
	for i := 0; i < n; i++ {
		l := zzC21Locals[verif.Choose("local", len(zzC21Locals))]
		o := zzC21Opts[verif.Choose("opts", len(zzC21Opts))]
		id := []string{"B", "C", "D"}[i]
		if i == 0 {
			file += []string{"", "# comment\n", "\n", "  \n  # x y z a b c d\n"}[verif.Choose("before", 4)]
		}
		file += l.text + strings.Replace(o.text, "N", id, -1)
		if i < n-1 || verif.Bool("newline") {
			file += "\n"
		}
		if !found && l.match[a] {
			found = true
			if o.host != "" {
				name = strings.Replace(o.host, "N", id, -1)
			}
			certs = strings.Replace(o.certs, "N", id, -1)
		}
	}
	zzC21Boot(cmd, file)
	gn, gc := zzC21Get(zzC21Addrs[a])
	verif.Observe("file", file)
	verif.Observe("got", gn, gc)
	verif.Assert(gn == name, "the greeting name is not that of the first matching line")
	verif.Assert(gc == certs, "the certificates are not those of the first matching line")
}

// one line of each kind (15 LOCALs, 7 settings), with or without comments and
// final newline, 5 local addresses
func VerifC21_one() { zzC21Lines(1) }

// zzC21Order: n lines, every one matching (as address, network, '*' or
// address:port) or not, with or without hostname and certificates
func zzC21Order(n int) {
	cmd := verif.Bool("cmdcerts")
	file := ""
	name, certs := "cmdline", "-"
	if cmd {
		certs = "A"
	}
	found := false
	for i := 0; i < n; i++ {
		id := []string{"B", "C", "D"}[i]
		m := verif.Choose("match", 5)
		line := []string{"192.0.2.1", "192.0.2.10", "192.0.2.8/29", "*", "192.0.2.10:25"}[m]
		h, c := verif.Bool("hostname"), verif.Bool("certs")
		if h {
			line += " hostname=h" + id
		}
		if c {
			line += " cert=/c" + id + " key=/k" + id
		}
		if !found && m > 0 {
			found = true
			if h {
				name = "h" + id
			}
			certs = "-"
			if c {
				certs = id
			}
		}
		file += line
		if i < n-1 || verif.Bool("newline") {
			file += "\n"
		}
	}
	zzC21Boot(cmd, file)
	gn, gc := zzC21Get(zzC21Addrs[0])
	verif.Observe("got", gn, gc)
	verif.Assert(gn == name, "the greeting name is not that of the first matching line")
	verif.Assert(gc == certs, "the certificates are not those of the first matching line")
}

// two lines, each matching or not, with or without hostname and certificates
func VerifC21_order() { zzC21Order(2) }

// three lines
func VerifC21_order_deep() { zzC21Order(3) }

// LOCAL with symbolic octet: address and network, local address symbolic too
func VerifC21_octets() {
	x := verif.StringIn("x", 1, "0123456789")
	u := verif.StringIn("u", 1, "0123456789")
	n := verif.Choose("prefix", 6)
	pat := "192.0.2." + u
	want := verif.EqStr(x, u)
	if n < 5 {
		pat += "/" + []string{"28", "29", "30", "31", "32"}[n]
		sh := uint(4 - n)
		want = (x[0]-'0')>>sh == (u[0]-'0')>>sh
	} else if verif.Bool("port") {
		pat += ":25"
	}
	zzC21Boot(false, pat+" hostname=match\n* hostname=star\n")
	gn, _ := zzC21Get("192.0.2." + x + ":25")
	verif.Assert(verif.Iff(gn == "match", want), "a line does not match exactly its address or network")
}

var zzC21Bad = []string{
	"* hostname\n", "* cert=/cB\n", "* key=/kB\n", "* cert=/cB key=/kC\n", "* cert=/none key=/kB\n", "* cert=/cB key=/none\n",
	"* foo=bar\n", "* hostname=a cert=/cB key=/kB extra\n", "* cert=/cB,/cC key=/kB\n", "a b c d e\n", "* hostname=x # no comment here\n",
}

// a malformed line anywhere makes the whole file ignored (and reported), and
// the server refuses to start with it
func VerifC21_bad() {
	k := verif.Choose("bad", len(zzC21Bad))
	at := verif.Choose("at", 3)
	good := []string{"* hostname=good1 cert=/cB key=/kB\n", "* hostname=good2\n"}
	file := strings.Join(good[:at], "") + zzC21Bad[k] + strings.Join(good[at:], "")
	if at == 2 && verif.Bool("chop") {
		file = file[:len(file)-1]
	}
	if verif.Bool("start") {
		zzDefaults()
		env.FlagBool["force-receive"] = true
		env.FlagStr["conncfg"] = "/cfg"
		for _, x := range []string{"B", "C"} {
			env.Put("/c"+x, "cert "+x)
			env.Put("/k"+x, "key "+x)
		}
		env.Put("/cfg", file)
		verif.Assert(!zzBoot(), "the server starts with a malformed -conncfg file")
		return
	}
	zzC21Boot(true, file)
	gn, gc := zzC21Get(zzC21Addrs[0])
	verif.Assert(gn == "cmdline" && gc == "A", "a malformed -conncfg file is not ignored as a whole")
	verif.Assert(len(env.Stderr) > 0, "a malformed -conncfg file is not reported")
}

// the file missing or unreadable (at any point) after the start
func VerifC21_io() {
	file := "* hostname=good1 cert=/cB key=/kB\n* hostname=good2\n"
	zzC21Boot(true, file)
	switch verif.Choose("how", 3) {
	case 0:
		env.Remove("/cfg")
	case 1:
		env.Fault = func(op, path string) error {
			if op == "open" && path == "/cfg" {
				return env.ErrIO
			}
			return nil
		}
	case 2:
		n := verif.Choose("off", len(file))
		env.ReadFault = func(path string, off int) error {
			if path == "/cfg" && off >= n {
				return env.ErrIO
			}
			return nil
		}
	}
	gn, gc := zzC21Get(zzC21Addrs[0])
	verif.Assert(gn == "cmdline" && gc == "A", "an unreadable -conncfg file is not ignored as a whole")
	verif.Assert(len(env.Stderr) > 0, "an unreadable -conncfg file is not reported")
}

// any text of up to 4 bytes from "\n #*=a" never stops connections
func VerifC21_any() {
	zzC21Boot(true, zzStr("file", 0, 4, "\n #*=a"))
	gn, gc := zzC21Get(zzC21Addrs[0])
	verif.Assert(gn == "cmdline", "the greeting name changes without a hostname setting")
	verif.Assert(gc == "A" || gc == "-", "the certificates change without a cert setting")
}

// without -helo the name is that of the local address, a hostname setting
// wins over it
func VerifC21_lookup() {
	zzDefaults()
	env.FlagBool["force-receive"] = true
	env.FlagStr["helo"] = ""
	env.FlagStr["conncfg"] = "/cfg"
	env.Put("/cfg", "192.0.2.11 hostname=set\n* \n")
	zzMustBoot()
	k := verif.Choose("rdns", 4)
	env.LookupAddr = func(ip string) ([]string, error) {
		if ip == "192.0.2.1" || k == 0 {
			return nil, env.NoHost
		}
		return [][]string{nil, {}, {"a.b.", "c.d."}, {"host"}}[k], nil
	}
	gn, _ := zzC21Get("192.0.2.11:25")
	verif.Assert(gn == "set", "the greeting name is not that of the first matching line")
	gn, _ = zzC21Get("192.0.2.12:25")
	verif.Assert(gn == []string{"192.0.2.12:25", "192.0.2.12:25", "a.b", "host"}[k], "the greeting name is not the default one")
}

// an ordinary client, one that is stalled as a do-nothing client and one that
// meets broken rules: the name in the greeting is the same, whether the line has
// a hostname, certificates or both, or does not match
func VerifC21_state() {
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagInt["dncount"] = 1
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "@helo reject helo r\n")
	k := verif.Choose("line", 4)
	zzC21Boot(verif.Choose("certs", 2) == 1, []string{"* hostname=x\n", "* cert=/cB key=/kB\n", "* hostname=x cert=/cB key=/kB\n", "10.9.9.9 hostname=x\n"}[k])
	name, _ := zzC21Get(zzAddr)
	switch verif.Choose("state", 2) {
	case 0:
		zzRun(zzCl, zzEhlo("r"))
		zzRun(zzCl, zzEhlo("r"))
	case 1:
		env.Put("/rules", "broken\n")
	}
	n2, _ := zzC21Get(zzAddr)
	verif.Assert(n2 == name, "the name of a connection depends on its client's record or the rules")
	verif.Assert((n2 == "x") == (k == 0 || k == 2), "the name of a connection is not that of its line")
}
