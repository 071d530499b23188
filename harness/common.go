package main

import "github.com/siebenmann/sinksmtp/zz/verif"

// ascii holds if every byte is 7-bit.
func zzASCII(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = verif.And(ok, s[i] < 0x80)
	}
	return ok
}

// zzHasSuffix without forking on contents.
func zzHasSuffix(s, suf string) bool {
	if len(suf) > len(s) {
		return false
	}
	return verif.EqStr(s[len(s)-len(suf):], suf)
}

func zzHasPrefix(s, pre string) bool {
	if len(pre) > len(s) {
		return false
	}
	return verif.EqStr(s[:len(pre)], pre)
}

// zzNo holds if the byte does not occur.
func zzNo(s string, c byte) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = verif.And(ok, s[i] != c)
	}
	return ok
}
