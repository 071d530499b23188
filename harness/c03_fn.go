package main

import "github.com/siebenmann/sinksmtp/zz/verif"

// the text attributes of every 7-bit address of up to 7 (thorough: 10) bytes
// at once
func VerifC03_attrs() {
	n := 7
	if verif.Deep() {
		n = 10
	}
	a := verif.String("addr", n)
	verif.Assume(zzASCII(a))
	c := newContext(&smtpTransaction{}, nil)
	o := getAddrOpts(a, c)
	verif.Observe("opts", uint64(o))
	w := specAddrAttrs(a)
	verif.Assert(verif.Iff(o&oNoat != 0, w.noat), "noat")
	verif.Assert(verif.Iff(o&oRoute != 0, w.route), "route")
	verif.Assert(verif.Iff(o&oQuoted != 0, w.quoted), "quoted")
	verif.Assert(verif.Iff(o&oUnqualified != 0, w.unqual), "unqualified")
	verif.Assert(verif.Iff(o&oGarbage != 0, w.garbage), "garbage")
	dom := o & (oDomainValid | oDomainInvalid | oDomainTempfail)
	verif.Assert(dom == 0 || dom == oDomainValid || dom == oDomainInvalid || dom == oDomainTempfail, "domain attributes exclude each other")
	verif.Assert(verif.Iff(dom != 0, verif.And(len(a) > 0, w.hasDomain())), "domain attributes are defined exactly for well-formed addresses")
}
