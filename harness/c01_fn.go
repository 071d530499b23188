package main

import "github.com/siebenmann/sinksmtp/zz/verif"

// every 7-bit address of up to 7 (thorough: 10) bytes against every
// lower-case 7-bit pattern of up to 6 (thorough: 8) bytes
func VerifC01_match() {
	na, np := 7, 6
	if verif.Deep() {
		na, np = 10, 8
	}
	addr := verif.String("addr", na)
	pat := verif.String("pat", np)
	verif.Assume(zzASCII(addr))
	verif.Assume(zzASCII(pat))
	verif.Assume(verif.EqStr(verif.Lower(pat), pat))
	got := matchAddress(addr, pat)
	verif.Observe("match", got)
	verif.Assert(verif.Iff(got, specAddrMatch(addr, pat)), "address match differs from the documented meaning of the pattern")
}
