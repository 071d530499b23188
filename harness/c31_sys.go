package main

import (
	"strconv"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC31Try connects a client and reports whether 'ip ...' matched.
func zzC31Try(remote string) bool {
	s := zzRun(remote, zzEhlo("h"))
	zzObs(s)
	c := zzReply(s, "ehlo", 0).Class
	verif.Assert(c == 2 || c == 5, "the connection is answered neither way")
	return c == 5
}

// zzOctet is a decimal octet of d digits with its value.
func zzOctet(label string, d int) (string, int) {
	s := verif.StringIn(label, d, "0123456789")
	v := 0
	for i := 0; i < d; i++ {
		v = v*10 + int(s[i]-'0')
	}
	verif.Assume(v <= 255)
	if d > 1 {
		verif.Assume(s[0] != '0')
	}
	return s, v
}

// 'ip A' and 'ip A/n' for IPv4: client 192.0.x.y, pattern 192.0.u.v with
// symbolic x, y, u, v (1 or 2 digits each) and every prefix length 14..32 (and
// no prefix)
func VerifC31_v4() {
	d := 1 + verif.Choose("digits", 2)
	xs, x := zzOctet("x", d)
	ys, y := zzOctet("y", d)
	us, u := zzOctet("u", d)
	vs, v := zzOctet("v", d)
	n := 14 + verif.Choose("prefix", 20)
	pat := "192.0." + us + "." + vs
	want := verif.And(x == u, y == v)
	if n <= 32 {
		pat += "/" + strconv.Itoa(n)
		sh := uint(32 - n)
		want = (x*256+y)>>sh == (u*256+v)>>sh
	}
	zzServeBare("@helo reject ip " + pat + "\n")
	got := zzC31Try("192.0." + xs + "." + ys + ":1000")
	verif.Assert(got == want, "'ip' does not match exactly the address or network")
}

// short prefixes: symbolic first octet, every prefix length 0..10
func VerifC31_v4short() {
	d := 1 + verif.Choose("digits", 3)
	xs, x := zzOctet("x", d)
	us, u := zzOctet("u", d)
	n := verif.Choose("prefix", 11)
	sh := uint(10 - n)
	want := (x*4)>>sh == (u*4)>>sh
	zzServeBare("@helo reject ip " + us + ".0.0.0/" + strconv.Itoa(n) + "\n")
	got := zzC31Try(xs + ".0.0.5:1000")
	verif.Assert(got == want, "'ip' does not match exactly the address or network")
}

// zzHex is a hexadecimal group of d digits.
func zzHex(label string, d int) (string, int) {
	s := verif.StringIn(label, d, "0123456789abcdef")
	v := 0
	for i := 0; i < d; i++ {
		v = v*16 + verif.IteInt(s[i] <= '9', int(s[i]-'0'), int(s[i]-'a')+10)
	}
	return s, v
}

// IPv6: 2001:db8::x with symbolic group, prefix lengths 110..128 and none,
// several spellings of the pattern
func VerifC31_v6() {
	xs, x := zzHex("x", 2)
	us, u := zzHex("u", 2)
	n := 118 + verif.Choose("prefix", 12)
	pat := []string{"2001:db8::", "2001:DB8:0::0:", "2001:0db8:0:0:0:0:0:"}[verif.Choose("spelling", 3)] + us
	want := x == u
	if n <= 128 {
		pat += "/" + strconv.Itoa(n)
		sh := uint(128 - n)
		want = x>>sh == u>>sh
	}
	zzServeBare("@helo reject ip " + pat + "\n")
	got := zzC31Try("[2001:db8::" + xs + "]:1000")
	verif.Assert(got == want, "'ip' does not match exactly the address or network")
}

// zzC31Cases: address family and spelling combinations, with the truth
var zzC31Cases = []struct {
	remote, pat string
	want        bool
}{
	{"192.0.2.1:1", "::ffff:192.0.2.1", true},
	{"192.0.2.1:1", "::ffff:c000:201", true},
	{"192.0.2.1:1", "::192.0.2.1", false},
	{"192.0.2.1:1", "::/0", false},
	{"192.0.2.1:1", "0.0.0.0/0", true},
	{"192.0.2.1:1", "192.0.2.1/32", true},
	{"192.0.2.1:1", "192.0.2.7/24", true},
	{"192.0.2.1:1", "192.0.2.0/25", true},
	{"192.0.2.129:1", "192.0.2.0/25", false},
	{"[::ffff:192.0.2.1]:1", "192.0.2.1", true},
	{"[::ffff:192.0.2.1]:1", "192.0.2.0/24", true},
	{"[::ffff:192.0.2.1]:1", "192.0.3.0/24", false},
	{"[2001:db8::1]:1", "2001:db8::/32", true},
	{"[2001:db8::1]:1", "2001:db9::/32", false},
	{"[2001:db8::1]:1", "0.0.0.0/0", false},
	{"[2001:db8::1]:1", "2001:db8:0:0:0:0:0:1", true},
	{"[2001:db8::1]:1", "2001:db8::1:0", false},
	{"[fe80::1%eth0]:1", "fe80::1", true},
	{"[fe80::1%eth0]:1", "fe80::/10", true},
	{"[fe80::1%eth0]:1", "10.0.0.0/8", false},
	{"[fe80::1%eth0]:1", "fe80::2", false},
	{"[fe80::1%eth0]:1", "2001:db8::/32", false},
}

// the spellings and families of a table of 22 cases, plain or from a file
// (with other entries that do not match, in any position)
func VerifC31_forms() {
	c := zzC31Cases[verif.Choose("case", len(zzC31Cases))]
	arg := c.pat
	if verif.Bool("file") {
		lines := []string{"203.0.113.1", "nonsense", "203.0.113.0/99", "1.2.3", "# comment", ""}
		at := verif.Choose("at", len(lines)+1)
		var l []string
		l = append(l, lines[:at]...)
		l = append(l, c.pat)
		l = append(l, lines[at:]...)
		env.Put("/ips", strings.Join(l, "\n"))
		arg = []string{"/ips", "file:/ips"}[verif.Choose("name", 2)]
	}
	zzServeBare("@helo reject ip " + arg + "\n")
	got := zzC31Try(c.remote)
	verif.Observe("case", c.remote, c.pat)
	verif.Assert(got == c.want, "'ip' does not match exactly the address or network")
}

// invalid entries in files match nothing, for IPv4, IPv6 and link-local
// clients; any entry of 3 bytes from "./:0a "
func VerifC31_invalid() {
	zzServeBare("@helo reject ip /ips\n")
	e := verif.StringIn("entry", 3, " ./0:a")
	env.Put("/ips", e+"\n203.0.113.9\n")
	got := zzC31Try([]string{"192.0.2.1:1", "[2001:db8::1]:1", "[fe80::1%eth0]:1"}[verif.Choose("client", 3)])
	verif.Assert(verif.Implies(!verif.EqStr(e, "::/0"), !got), "an invalid entry of an IP list matches")
}

// zzC31ArgOK: is s a valid argument according to its form? Only for the
// alphabet used below.
func zzC31Digits(s string, max int) bool {
	if len(s) == 0 || len(s) > 3 {
		return false
	}
	ok := true
	v := 0
	for i := 0; i < len(s); i++ {
		ok = verif.And(ok, s[i] >= '0', s[i] <= '9')
		v = v*10 + int(s[i]-'0')
	}
	return verif.And(ok, v <= max)
}

// an argument that is neither an address nor a network nor a filename is
// refused when the rules are loaded: '1.2.3.A' and '1.2.3.4/B' with A, B any
// 1..3 bytes from "-./0123789ax"
func VerifC31_load() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	k := 1 + verif.Choose("len", 3)
	a := verif.StringIn("arg", k, "-0123789ax")
	arg := "1.2.3." + a
	if k > 1 {
		verif.Assume(a[0] != '0') // leading zeros: whatever net accepts
	}
	want := zzC31Digits(a, 255)
	switch verif.Choose("form", 3) {
	case 1:
		arg = "1.2.3.4/" + a
		want = zzC31Digits(a, 32)
	case 2:
		arg = "::/" + a
		want = zzC31Digits(a, 128)
	}
	env.Put("/rules", "reject ip "+arg+"\n")
	got := zzBoot()
	verif.Observe("arg", arg)
	verif.Assert(got == want, "an 'ip' argument is not refused exactly when it is neither address, network nor file")
}

// words that are no address at all
func VerifC31_load2() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	args := []string{"1.2.3", "1.2.3.4.5", "host.name", "1.2.3.0/", "/24", "1.2.3.4/24/8", "fe80::1%eth0", "2001:db8::/129", "::g", "1:2", "file:x", "./x", "/x"}
	i := verif.Choose("arg", len(args))
	env.Put("/rules", "reject ip "+args[i]+"\n")
	got := zzBoot()
	want := i >= 10 || i == 4
	verif.Observe("arg", args[i])
	verif.Assert(got == want, "an 'ip' argument is not refused exactly when it is neither address, network nor file")
}

// three clients one after the other, with arbitrary last octet of one digit,
// and a rule with an address and a network: each is judged on its own
func VerifC31_clients() {
	zzServeBare("@helo reject ip 192.0.2.5 or ip 192.0.2.2/31\n")
	for i := 0; i < 3; i++ {
		x, v := zzOctet("x", 1)
		got := zzC31Try("192.0.2." + x + ":1000")
		verif.Assert(verif.Iff(got, verif.Or(v == 5, v == 2, v == 3)), "a client's address is not judged on its own")
	}
}
