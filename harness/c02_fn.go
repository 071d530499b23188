package main

import "github.com/siebenmann/sinksmtp/zz/verif"

// every 7-bit host name of up to 8 (thorough: 12) bytes, including the empty
// one, against every lower-case 7-bit pattern of 1 to 6 (thorough: 9) bytes
func VerifC02_match() {
	nh, np := 8, 6
	if verif.Deep() {
		nh, np = 12, 9
	}
	host := verif.String("host", nh)
	pat := verif.String("pat", np)
	if len(pat) == 0 {
		verif.Reject()
	}
	verif.Assume(zzASCII(host))
	verif.Assume(zzASCII(pat))
	verif.Assume(verif.EqStr(verif.Lower(pat), pat))
	got := matchHost(host, pat)
	verif.Observe("match", got)
	verif.Assert(verif.Iff(got, specHostMatch(host, pat)), "host match differs from the documented meaning of the pattern")
}
