package main

import (
	rnet "net"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

var zzHeloAttrs = []string{"none", "bogus", "helo", "ehlo", "nodots", "bareip", "properip", "ip", "myip", "remip", "otherip"}

// specHelo says whether a HELO attribute holds.
func specHelo(at string, isHelo bool, name, rip, lip string) bool {
	ip := rnet.ParseIP(name)
	bare := ip != nil
	proper := false
	if len(name) > 2 && name[0] == '[' && name[len(name)-1] == ']' {
		t := name[1 : len(name)-1]
		if p := rnet.ParseIP(t); p != nil {
			proper = true
			ip = p
		}
	}
	any := bare || proper
	rem := any && ip.Equal(rnet.ParseIP(rip))
	my := any && ip.Equal(rnet.ParseIP(lip)) && !rem
	switch at {
	case "none":
		return name == ""
	case "bogus":
		return name == "."
	case "helo":
		return isHelo
	case "ehlo":
		return !isHelo
	case "nodots":
		return verif.Or(name == ".", verif.And(zzNo(name, '.'), zzNo(name, ':')))
	case "bareip":
		return bare
	case "properip":
		return proper
	case "ip":
		return any
	case "myip":
		return my
	case "remip":
		return rem
	case "otherip":
		return any && !rem && !my
	}
	return false
}

func zzHeloCase(name, remote, local, rip, lip string) {
	at := zzHeloAttrs[verif.Choose("attr", len(zzHeloAttrs))]
	isHelo := verif.Choose("cmd", 2) == 1
	env.FlagArgs = []string{local}
	env.FlagStr["helo"] = "sink.example.com"
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "reject helo-has "+at+"\n")
	zzMustBoot()
	step := zzEhlo(name)
	if isHelo {
		step = zzHelo(name)
	}
	s := env.NewSession(remote, local, zzScript(step))
	env.Dial(local, s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	got := zzReply(s, step.Kind, 0).Class == 5
	verif.Assert(verif.Iff(got, specHelo(at, isHelo, name, rip, lip)), "helo-has "+at+" does not hold exactly when documented")
}

// the whole server: every attribute, HELO or EHLO, every name of up to 4
// (thorough: 6) 7-bit characters
func VerifC04_helo() {
	n := 4
	if verif.Deep() {
		n = 6
	}
	name := verif.String("name", n)
	verif.Assume(zzASCII(name))
	zzHeloCase(name, "1.2.1.2:1000", "2.1.2.1:25", "1.2.1.2", "2.1.2.1")
}

// names that are IPv4 addresses of the form d.d.d.d, bare or in brackets, with
// any digit 1..3 in each place (the client is 1.2.1.2, the server 2.1.2.1)
func VerifC04_ip4() {
	d := func() string { return verif.StringIn("digit", 1, "123") }
	name := d() + "." + d() + "." + d() + "." + d()
	switch verif.Choose("form", 4) {
	case 1:
		name = "[" + name + "]"
	case 2:
		name = "[" + name
	case 3:
		name = name + "]"
	}
	zzHeloCase(name, "1.2.1.2:1000", "2.1.2.1:25", "1.2.1.2", "2.1.2.1")
}

// a client and server with IPv6 addresses; names are IPv6 addresses in
// different spellings of the client's, the server's or another address,
// with one or two digits arbitrary
func VerifC04_ip6() {
	d := verif.StringIn("digit", 1, "129Ff")
	forms := []string{"2001:db8::" + d, "2001:DB8:0::0:" + d, "2001:db8:0:0:0:0:0:" + d, "::ffff:1.2.1." + d, "2001:0db8::000" + d}
	name := forms[verif.Choose("form", len(forms))]
	if verif.Choose("brackets", 2) == 1 {
		name = "[" + name + "]"
	}
	if verif.Choose("family", 2) == 1 {
		zzHeloCase(name, "1.2.1.2:1000", "2.1.2.1:25", "1.2.1.2", "2.1.2.1")
		return
	}
	zzHeloCase(name, "[2001:db8::1]:1000", "[2001:db8::2]:25", "2001:db8::1", "2001:db8::2")
}

var zzDnsAttrs = []string{"nodns", "exists", "noforward", "inconsistent", "good"}

// a link-local client and server, whose addresses come with a zone
func VerifC04_zone() {
	name := []string{"fe80::1", "fe80:0::1", "fe80::2", "fe80::3", "192.0.2.1"}[verif.Choose("name", 5)]
	if verif.Bool("bracket") {
		name = "[" + name + "]"
	}
	zzHeloCase(name, "[fe80::1%eth0]:1000", "[fe80::2%eth0]:25", "fe80::1", "fe80::2")
}

// the whole server: 'dns X' for every attribute with up to 3 reverse names,
// each of which has no forward entry, another address only, or the client's
// address; or a failing reverse lookup
func VerifC04_dns() {
	at := zzDnsAttrs[verif.Choose("attr", len(zzDnsAttrs))]
	n := verif.Choose("names", 4)
	fails := verif.Bool("ptrfails")
	names := []string{"a.example.com.", "b.example.com.", "c.example.com."}[:n]
	var fwd, ok []bool
	for range names {
		fwd = append(fwd, verif.Bool("fwd"))
		ok = append(ok, verif.Bool("ok"))
	}
	env.LookupAddr = func(ip string) ([]string, error) {
		if fails {
			return nil, env.NoHost
		}
		return append([]string{}, names...), nil
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		for i := range names {
			if name == names[i] {
				if !fwd[i] {
					return nil, env.NoHost
				}
				if ok[i] {
					return []rnet.IP{rnet.IPv4(9, 9, 9, 9), rnet.IPv4(192, 0, 2, 1)}, nil
				}
				return []rnet.IP{rnet.IPv4(9, 9, 9, 9)}, nil
			}
		}
		return nil, env.NoHost
	}
	zzServeBare("@helo reject dns " + at + "\n")
	s := zzRun(zzCl, zzEhlo("x.y"))
	zzObs(s)
	got := zzReply(s, "ehlo", 0).Class == 5
	exists, nofwd, incons := false, false, false
	for i := range names {
		exists = verif.Or(exists, verif.And(fwd[i], ok[i]))
		nofwd = verif.Or(nofwd, !fwd[i])
		incons = verif.Or(incons, verif.And(fwd[i], !ok[i]))
	}
	exists, nofwd, incons = verif.And(exists, !fails), verif.And(nofwd, !fails), verif.And(incons, !fails)
	var want bool
	switch at {
	case "nodns":
		want = !exists
	case "exists":
		want = exists
	case "noforward":
		want = nofwd
	case "inconsistent":
		want = incons
	case "good":
		want = verif.And(exists, !nofwd, !incons)
	}
	verif.Assert(verif.Iff(got, want), "dns "+at+" does not hold exactly when documented")
}

// three HELO or EHLO commands in one session with names of different kinds:
// each is judged by its own command and name
func VerifC04_again() {
	at := zzHeloAttrs[verif.Choose("attr", len(zzHeloAttrs))]
	env.FlagArgs = []string{"2.1.2.1:25"}
	env.FlagStr["helo"] = "sink.example.com"
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "reject helo-has "+at+"\n")
	zzMustBoot()
	names := []string{"a.b", "", "[1.2.1.2]"}
	var steps []env.Step
	for i := 0; i < 3; i++ {
		n := names[verif.Choose("name", 3)]
		if verif.Choose("cmd", 2) == 1 {
			steps = append(steps, zzHelo(n))
		} else {
			steps = append(steps, zzEhlo(n))
		}
	}
	s := env.NewSession("1.2.1.2:1000", "2.1.2.1:25", zzScript(steps...))
	env.Dial("2.1.2.1:25", s)
	s.Wait()
	verif.Quiesce()
	zzObs(s)
	nth := map[string]int{}
	for _, st := range steps {
		r := zzReply(s, st.Kind, nth[st.Kind])
		nth[st.Kind]++
		verif.Assert(!r.Own && (r.Class == 5) == specHelo(at, st.Kind == "helo", st.Arg, "1.2.1.2", "2.1.2.1"), "helo-has "+at+" does not hold exactly when documented")
	}
}
