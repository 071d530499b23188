package main

import "github.com/siebenmann/sinksmtp/zz/verif"

// specAddrMatch: the documented meaning of an address pattern.
func specAddrMatch(addr, pat string) bool {
	a := verif.Lower(addr)
	r := verif.EqStr(a, pat)
	if a == "" {
		return verif.Or(r, verif.EqStr(pat, "<>"))
	}
	// no domain: only 'local@'
	r = verif.Or(r, verif.And(zzNo(a, '@'), verif.EqStr(pat, a+"@")))
	// the first '@' is at i
	for i := 1; i < len(a)-1; i++ {
		here := verif.And(zzNo(a[:i], '@'), a[i] == '@')
		dom := a[i+1:]
		m := verif.Or(verif.EqStr(pat, "@"), verif.EqStr(pat, a[:i+1]), verif.EqStr(pat, "@"+dom), verif.EqStr(pat, "@."+dom))
		if len(pat) >= 2 {
			m = verif.Or(m, verif.And(zzHasPrefix(pat, "@."), zzHasSuffix(dom, pat[1:])))
		}
		r = verif.Or(r, verif.And(here, m))
	}
	return r
}

// specHostMatch: the documented meaning of a host name pattern.
func specHostMatch(host, pat string) bool {
	h := verif.Lower(host)
	m := func(h string) bool {
		r := verif.EqStr(h, pat)
		if len(pat) > 0 {
			r = verif.Or(r, verif.And(pat[0] == '.', verif.Or(verif.EqStr(pat[1:], h), zzHasSuffix(h, pat))))
		}
		return r
	}
	if len(h) == 0 || len(pat) == 0 {
		return m(h)
	}
	strip := verif.And(h[len(h)-1] == '.', pat[len(pat)-1] != '.')
	return verif.Or(verif.And(strip, m(h[:len(h)-1])), verif.And(!strip, m(h)))
}

type zzAttrs struct {
	noat, route, quoted, unqual, garbage bool
}

// zzHasSub: two given bytes follow each other somewhere.
func zzHas2(s string, a, b byte) bool {
	r := false
	for i := 0; i+1 < len(s); i++ {
		r = verif.Or(r, verif.And(s[i] == a, s[i+1] == b))
	}
	return r
}

// specAddrAttrs: the attributes of an address.
func specAddrAttrs(a string) (r zzAttrs) {
	if len(a) == 0 {
		return
	}
	lp := len(a) - 1
	r.noat = zzNo(a, '@')
	r.route = verif.And(a[0] == '@', !zzNo(a[1:], '@'))
	r.quoted = !zzNo(a[:lp], '"')
	for i := range a {
		r.unqual = verif.Or(r.unqual, verif.And(zzNo(a[:i], '@'), a[i] == '@', zzNo(a[i+1:], '.')))
	}
	l := a[lp]
	r.garbage = verif.Or(
		verif.And(a[0] == '@', zzNo(a[1:], '@')),
		a[0] == '<', l == '>', l == '"', l == ']', l == '.',
		verif.And(zzNo(a[:lp], '@'), l == '@'),
		zzHas2(a, '.', '.'), zzHas2(a, '@', '@'))
	return
}

// specHasDomain: the DNS attributes are defined.
func (r zzAttrs) hasDomain() bool {
	return verif.And(!r.noat, !r.route, !r.unqual, !r.garbage)
}

// zzIsDomainOf: name is the text after the first '@' with a final dot.
func zzIsDomainOf(name, a string) bool {
	r := false
	for i := range a {
		if len(name) == len(a)-i {
			r = verif.Or(r, verif.And(zzNo(a[:i], '@'), a[i] == '@', verif.EqStr(name, a[i+1:]+".")))
		}
	}
	return r
}
