package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// specLines is the reading of a pattern file (see specList) in this alphabet.
func specLines(s string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		for len(l) > 0 && (l[0] == ' ' || l[0] == '\t' || l[0] == '\r') {
			l = l[1:]
		}
		for len(l) > 0 && (l[len(l)-1] == ' ' || l[len(l)-1] == '\t' || l[len(l)-1] == '\r') {
			l = l[:len(l)-1]
		}
		if len(l) > 0 && l[0] != '#' {
			r = append(r, verif.Lower(l))
		}
	}
	return r
}

// the whole server: any pattern file of up to 4 (thorough: 6) bytes of newline, CR, blank,
// '#', 'A', 'a', 'b' used by helo, from or to rules, and any one- or two-letter
// name: it matches exactly if it is an entry
func VerifC27_rule() {
	n := 4
	if verif.Deep() {
		n = 6
	}
	f := zzStr("file", 0, n, "\n\r #Aab")
	name := zzStr("name", 1, 2, "ab")
	env.Put("/list", f)
	in := false
	for _, e := range specLines(f) {
		in = verif.Or(in, verif.EqStr(e, name))
	}
	op := []string{"helo", "from", "to"}[verif.Choose("op", 3)]
	zzServeBare("@to reject " + op + " " + []string{"/list", "file:/list"}[verif.Choose("spelling", 2)] + "\n")
	ses := zzRun(zzCl, zzEhlo(name), zzMail(name), zzRcpt(name))
	zzObs(ses)
	verif.Observe("in", in)
	verif.Assert(verif.Iff(zzReply(ses, "rcpt", 0).Class == 5, in), "a rule does not match exactly the entries of its file")
}

var zzLists = []string{"aa\nbb\ncc\n", "aa\r\nbb\r\ncc", "# x\n\naa\n \tbb  \n\n#y\n CC", "\n\n\naa\n\nbb\n\ncc\n\n"}

// a pattern file of several entries, one of four layouts, with a read error at
// any offset, at opening, or none: with an error nothing in it matches, without
// one everything does and 'not' is true of the rest (a rule with an
// unreadable file does not match at all, even with 'not')
func VerifC27_fault() {
	f := zzLists[verif.Choose("list", len(zzLists))]
	env.Put("/list", f)
	bad := true
	k := verif.Choose("fault", len(f)+3)
	env.FlagBool["nostdrules"] = true
	neg := verif.Bool("not")
	not := ""
	if neg {
		not = "not "
	}
	zzServe("@helo reject " + not + "helo /list\n")
	switch {
	case k <= len(f):
		env.ReadFault = func(path string, off int) error {
			if path == "/list" && off >= k {
				return env.ErrIO
			}
			return nil
		}
	case k == len(f)+1:
		env.Fault = func(op, path string) error {
			if path == "/list" {
				return env.ErrIO
			}
			return nil
		}
	default:
		bad = false
	}
	name := []string{"aa", "BB", "cc", "dd", "c", "b"}[verif.Choose("name", 6)]
	ses := zzRun(zzCl, zzEhlo(name))
	zzObs(ses)
	want := len(name) == 2 && name != "dd"
	verif.Observe("bad", bad)
	verif.Assert((zzReply(ses, "ehlo", 0).Class == 5) == (!bad && want != neg), "a pattern file with a read error does not match nothing (or a good one not everything in it)")
}

// a missing file matches nothing; a file that appears later is used
func VerifC27_missing() {
	zzServeBare("@from reject from /list\n")
	ses := zzRun(zzCl, zzEhlo("x"), zzMail("a@b"))
	verif.Assert(zzReply(ses, "mail", 0).Class == 2, "a missing pattern file matches")
	env.Put("/list", "a@b")
	ses = zzRun(zzCl, zzEhlo("x"), zzMail("a@b"))
	verif.Assert(zzReply(ses, "mail", 0).Class == 5, "a new pattern file is not used")
	env.Remove("/list")
	ses = zzRun(zzCl, zzEhlo("x"), zzMail("a@b"))
	verif.Assert(zzReply(ses, "mail", 0).Class == 2, "a removed pattern file matches")
}

// a long file: a comment or an entry of 10 to 9000 (thorough: also 70000) bytes, or
// many entries, before the entries in question: these match and the long line
// does, too
func VerifC27_long() {
	lens := []int{10, 255, 4095, 4096, 4097, 9000, 70000}
	if !verif.Deep() {
		lens = lens[:6]
	}
	l := lens[verif.Choose("len", len(lens))]
	long := strings.Repeat("x", l)
	form := verif.Choose("form", 4)
	f := ""
	switch form {
	case 0:
		f = long + "\n"
	case 1:
		f = "# " + long + "\n"
	case 2:
		f = strings.Repeat("q\n", l/20)
	default:
		f = strings.Repeat(" ", l) + "b \n"
	}
	a := verif.StringIn("a", 1, "ab")
	env.Put("/list", f+"zz\n"+a)
	zzServeBare("@helo reject helo /list\n")
	n := verif.Choose("name", 4)
	name := []string{"zz", "a", "b", long}[n]
	ses := zzRun(zzCl, zzEhlo(name))
	want := verif.Or(n == 0, verif.And(n == 1, a[0] == 'a'), verif.And(n == 2, verif.Or(a[0] == 'b', form == 3)), n == 3 && form == 0)
	verif.Assert(verif.Iff(zzReply(ses, "ehlo", 0).Class == 5, want), "an entry of a long pattern file is lost")
}
