package main

import (
	rnet "net"
	"sort"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC23Rec returns the classes recorded in the saved message, as the lines
// after the given prefix.
func zzC23Rec() (verified, nofwd, incons []string) {
	files := env.Paths("/save")
	verif.Assert(len(files) == 1, "the message is not saved")
	t, _ := env.Get(files[0])
	for _, l := range strings.Split(t, "\n") {
		w := strings.Split(l, " ")
		switch w[0] {
		case "remote-dns":
			verified = append(verified, w[1:]...)
		case "remote-dns-nofwd":
			nofwd = append(nofwd, w[1:]...)
		case "remote-dns-inconsist":
			incons = append(incons, w[1:]...)
		case "from":
			return
		}
	}
	return
}

func zzSame(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// zzC23Run: n names with arbitrary outcomes; the record and the rules must
// agree with the classes
func zzC23Run(n, na int) {
	names := []string{"c.x.", "a.x.", "b.x.", "e.x.", "d.x."}[:n]
	want := map[int][]string{}
	res := map[string]func() ([]rnet.IP, error){}
	for _, nm := range names {
		nm := nm
		k := verif.Choose("fwd", na+3)
		switch {
		case k == 0:
			res[nm] = func() ([]rnet.IP, error) { return nil, env.NoHost }
			want[1] = append(want[1], nm)
		case k == 1: // temporary failure
			res[nm] = func() ([]rnet.IP, error) {
				return nil, &rnet.DNSError{Err: "server misbehaving", Name: nm, IsTemporary: true}
			}
			want[1] = append(want[1], nm)
		default:
			// k-2 addresses, one byte of each arbitrary
			var ips []rnet.IP
			has := false
			for j := 0; j < k-2; j++ {
				x := verif.Byte("x")
				ip := rnet.IP{192, 0, 2, x}
				if j == 1 {
					ip = rnet.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 192, 0, 2, x}
				}
				ips = append(ips, ip)
				has = verif.Or(has, x == 1)
			}
			res[nm] = func() ([]rnet.IP, error) { return ips, nil }
			if has {
				want[0] = append(want[0], nm)
			} else {
				want[2] = append(want[2], nm)
			}
		}
	}
	env.LookupAddr = func(ip string) ([]string, error) {
		if ip != "192.0.2.1" {
			return nil, env.NoHost
		}
		return append([]string{}, names...), nil
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if f := res[name]; f != nil {
			return f()
		}
		return nil, env.NoHost
	}
	zzServeBare("@from reject from probe@ host " + strings.TrimSuffix(names[0], ".") + "\n")
	s := zzRun(zzCl, zzEhlo("h"), zzMail("probe@x"), zzRsetIf, zzRset, zzMail("a@b"), zzRcpt("u@x"), zzData("x"))
	zzObs(s)
	v, nf, ic := zzC23Rec()
	verif.Assert(zzSame(v, want[0]), "the verified names are not exactly those that map back")
	verif.Assert(zzSame(nf, want[1]), "the no-forward names are not exactly those whose lookup fails")
	verif.Assert(zzSame(ic, want[2]), "the inconsistent names are not exactly the others")
	ver := false
	for _, x := range want[0] {
		ver = ver || x == names[0]
	}
	verif.Assert((zzReply(s, "mail", 0).Class == 5) == ver, "'host' does not match exactly the verified names")
}

// 1 or 2 reverse names, each failing (not found or temporarily) or having 0 to
// 2 addresses with an arbitrary byte (one of them in 16 byte form)
func VerifC23_names() { zzC23Run(1+verif.Choose("n", 2), 2) }

// 3 reverse names with 0 or 1 address each
func VerifC23_three() { zzC23Run(3, 1) }

// 4 reverse names with 0 to 2 addresses each
func VerifC23_names_deep() { zzC23Run(4, 2) }

// IPv6 clients (one byte of the address symbolic), other spellings in the
// answer cannot occur: addresses are compared as addresses
func VerifC23_v6() {
	x := verif.Byte("x")
	env.LookupAddr = func(ip string) ([]string, error) { return []string{"a.x."}, nil }
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name != "a.x." {
			return nil, env.NoHost
		}
		return []rnet.IP{{192, 0, 2, 1}, {0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, x}}, nil
	}
	zzServeBare("@helo reject host a.x\n")
	s := zzRun("[2001:db8::1]:1000", zzEhlo("h"))
	zzObs(s)
	verif.Assert(verif.Iff(zzReply(s, "ehlo", 0).Class == 5, x == 1), "a name is not verified exactly when it maps back")
}

// the reverse lookup fails, with or without names: there are none
func VerifC23_fail() {
	k := verif.Choose("how", 4)
	env.LookupAddr = func(ip string) ([]string, error) {
		switch k {
		case 0:
			return nil, env.NoHost
		case 1:
			return nil, &rnet.DNSError{Err: "server misbehaving", IsTemporary: true}
		case 2:
			return []string{"a.x."}, &rnet.DNSError{Err: "DNS response contained records which contain invalid names"}
		}
		return []string{}, nil
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) { return []rnet.IP{{192, 0, 2, 1}}, nil }
	zzServeBare("@helo reject dns exists\n")
	s := zzRun(zzCl, zzEhlo("h"), zzMail("a@b"), zzRcpt("u@x"), zzData("x"))
	zzObs(s)
	verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "a name is verified although the reverse lookup failed")
	v, nf, ic := zzC23Rec()
	verif.Assert(len(v)+len(nf)+len(ic) == 0, "there are names although the reverse lookup failed")
}

// a name given twice stays what it is; the names of another client do not
// matter
func VerifC23_other() {
	y := verif.Byte("y")
	env.LookupAddr = func(ip string) ([]string, error) {
		if ip == "192.0.2.1" {
			return []string{"a.x."}, nil
		}
		return []string{"b.x."}, nil
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name == "a.x." {
			return []rnet.IP{{192, 0, 2, 1}}, nil
		}
		return []rnet.IP{{192, 0, 2, y}}, nil
	}
	zzServeBare("@helo reject host a.x\n@helo stall host b.x\n")
	a := zzRun(zzCl, zzEhlo("h"))
	b := zzRun("192.0.2.2:5", zzEhlo("h"))
	verif.Assert(zzReply(a, "ehlo", 0).Class == 5, "a name is not verified exactly when it maps back")
	verif.Assert(verif.Iff(zzReply(b, "ehlo", 0).Class == 4, y == 2), "a name is not verified exactly when it maps back")
	verif.Assert(zzReply(b, "ehlo", 0).Class != 5, "a client has the name of another")
}

// one name with 1 to 4 (thorough: 6) addresses, each IPv4, IPv4 in 16 bytes or
// IPv6 with an arbitrary last byte; an IPv4 or an IPv6 client
func VerifC23_addrs() {
	m := 4
	if verif.Deep() {
		m = 6
	}
	v6 := verif.Choose("client", 2) == 1
	n := 1 + verif.Choose("n", m)
	var ips []rnet.IP
	has := false
	for i := 0; i < n; i++ {
		x := verif.Byte("x")
		switch verif.Choose("family", 3) {
		case 0:
			ips = append(ips, rnet.IP{192, 0, 2, x})
			has = verif.Or(has, verif.And(!v6, x == 1))
		case 1:
			ips = append(ips, rnet.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 192, 0, 2, x})
			has = verif.Or(has, verif.And(!v6, x == 1))
		case 2:
			ips = append(ips, rnet.IP{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, x})
			has = verif.Or(has, verif.And(v6, x == 1))
		}
	}
	env.LookupAddr = func(ip string) ([]string, error) { return []string{"a.x."}, nil }
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		if name != "a.x." {
			return nil, env.NoHost
		}
		return ips, nil
	}
	zzServeBare("@helo reject host a.x\n@helo stall dns inconsistent\n")
	cl := zzCl
	if v6 {
		cl = "[2001:db8::1]:1000"
	}
	s := zzRun(cl, zzEhlo("h"))
	zzObs(s)
	c := zzReply(s, "ehlo", 0).Class
	verif.Assert(verif.Iff(c == 5, has), "a name is not verified exactly when it maps back")
	verif.Assert(verif.Iff(c == 4, !has), "a name that does not map back is not inconsistent")
}
