package main

import (
	rnet "net"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// ---- match operations with an arbitrary truth value: 'dnsbl t<i>.bl' is
// true exactly when zzT[i] is

var zzT []bool

// zzTruths makes n match operations with arbitrary truth values; other DNS
// names do not exist.
func zzTruths(n int) {
	zzT = nil
	for i := 0; i < n; i++ {
		zzT = append(zzT, verif.Bool("truth"))
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		for i := range zzT {
			if strings.HasSuffix(name, ".t"+string(rune('0'+i))+".bl.") {
				if zzT[i] {
					return []rnet.IP{rnet.IPv4(127, 0, 0, 2)}, nil
				}
				return nil, env.NoHost
			}
		}
		return nil, env.NoHost
	}
}

// zzOp is the text of match operation i.
func zzOp(i int) string { return "dnsbl t" + string(rune('0'+i)) + ".bl" }

// zzServe boots the server with -d /save, -smtplog /log/smtp, -l /log/msg
// and the given rules.
func zzServe(rules string) {
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["l"] = "/log/msg"
	env.Put("/rules", rules)
	zzMustBoot()
}

// zzServeBare is zzServe without the standard rules.
func zzServeBare(rules string) {
	env.FlagBool["nostdrules"] = true
	zzServe(rules)
}

// zzLog returns a log file.
func zzLog(name string) string {
	s, _ := env.Get(name)
	return s
}

const zzCl = "192.0.2.1:1000"

// zzStrLen picks a length up to max and returns a symbolic string of it.
func zzStr(label string, min, max int, alphabet string) string {
	n := min + verif.Choose(label+".len", max-min+1)
	return verif.StringIn(label, n, alphabet)
}

func zzContains(s, sub string) bool { return strings.Contains(s, sub) }

// zzIs lists the reply classes "2 2 4 ..." for debugging and observation.
func zzClassOK(r env.Reply, want int) bool { return r.Class == want }

type zzIPs = []rnet.IP

var zzPh = []string{"connect", "helo", "from", "to", "data", "message"}
var zzAct = []string{"", "accept", "stall", "reject"}
var zzKind = []string{"", "ehlo", "mail", "rcpt", "data", "msg"}

func zzClass(act int, kind string) int {
	switch act {
	case 2:
		return 4
	case 3:
		return 5
	}
	if kind == "data" {
		return 3
	}
	return 2
}

// zzRDNS makes the client 192.0.2.1 have the given reverse names; name i
// looks up to the client's address if ok[i], to another one otherwise.
func zzRDNS(names []string, ok []bool) {
	env.LookupAddr = func(ip string) ([]string, error) {
		if ip != "192.0.2.1" {
			return nil, env.NoHost
		}
		return append([]string{}, names...), nil
	}
	env.LookupIP = func(name string) ([]rnet.IP, error) {
		for i := range names {
			if verif.EqStr(name, names[i]) {
				if ok[i] {
					return []rnet.IP{rnet.IPv4(198, 51, 100, 7), rnet.IPv4(192, 0, 2, 1)}, nil
				}
				return []rnet.IP{rnet.IPv4(198, 51, 100, 7)}, nil
			}
		}
		return nil, env.NoHost
	}
}

var zzHashes = []string{"all", "full", "msg"}

// zzIDOf is the ID in a reply text.
func zzIDOf(msg string) string {
	for _, w := range []string{"ID ", "called "} {
		if i := strings.LastIndex(msg, w); i >= 0 {
			return msg[i+len(w):]
		}
	}
	return ""
}
