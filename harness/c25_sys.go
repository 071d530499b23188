package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// every string of up to 4 (thorough: 6) bytes (blank, newline, tab, quote, backslash,
// '#', punctuation, letters), written as a quoted string with \" and \\ escaped,
// as the argument of a match: it matches the identical EHLO name
func VerifC25_readback() {
	n := 3
	if verif.Deep() {
		n = 5
	}
	s := zzStr("s", 1, n, "\n \"#,\\ab")
	q := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			q += "\\"
		}
		q += s[i : i+1]
	}
	// the client's name is S, or differs from it in one byte
	name := s
	same := verif.Bool("same")
	if !same {
		i := verif.Choose("at", len(s))
		name = s[:i] + "z" + s[i+1:]
	}
	zzServeBare("reject helo \"" + q + "\"\n")
	ses := zzRun(zzCl, zzEhlo(name))
	zzObs(ses)
	r := zzReply(ses, "ehlo", 0)
	verif.Assert((r.Class == 5) == same, "a quoted string is not read back as it was written")
}

// a rule file of two rules, with arbitrary layout between the words: one or two
// blanks, tabs or line continuations; comment lines, blank lines and
// continued blank lines before, between and after; with or without a final
// newline. Match operations with arbitrary truth values.
func VerifC25_layout() {
	zzTruths(2)
	sep := []string{" ", "\t", " \\\n", " \\\n\t\\\n "}
	nl := []string{"\n", "\n\n \n", "\n# a comment \"(,\n", "\n\t# x \\\n", " \n \\\n"}
	txt := ""
	txt += []string{"", "\n", "# c\n", " \\\n"}[verif.Choose("head", 4)]
	one := sep[verif.Choose("sep1", len(sep))]
	two := sep[verif.Choose("sep2", len(sep))]
	txt += "@from" + two + "reject" + one + strings.Replace(zzOp(0), " ", two, -1)
	txt += nl[verif.Choose("nl", len(nl))]
	txt += "@from" + one + "stall" + two + "(" + one + zzOp(1) + ")"
	txt += []string{"", "\n", "\n# c", "\n\\\n", " \\\n"}[verif.Choose("tail", 5)]
	zzServeBare(txt)
	ses := zzRun(zzCl, zzEhlo("x"), zzMail("a@b.example"))
	zzObs(ses)
	want := 2
	if zzT[0] {
		want = 5
	} else if zzT[1] {
		want = 4
	}
	verif.Assert(zzReply(ses, "mail", 0).Class == want, "the layout of a rules file changes its meaning")
}

// every keyword in quotes in the place of a match operator, an action, a phase
// or an option: the rules are refused; in the place of an argument, it is the
// text to match
func VerifC25_quotedkey() {
	w := []string{"from", "all", "helo", "not", "or", "reject", "@from", "on", "with", "message", "nodots", "include"}
	k := w[verif.Choose("word", len(w))]
	var rule string
	arg := false
	switch verif.Choose("place", 6) {
	case 0:
		rule = "reject \"" + k + "\" x"
	case 1:
		rule = "\"" + k + "\" all"
	case 2:
		rule = "reject helo-has \"" + k + "\""
	case 3:
		rule = "reject tls \"" + k + "\""
	case 4:
		rule = "reject all with \"" + k + "\" x"
	default:
		rule = "reject helo \"" + k + "\""
		if verif.Bool("bare") {
			rule = "reject helo " + k
		}
		arg = true
	}
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", rule+"\n")
	ok := zzBoot()
	verif.Observe("rule", rule)
	verif.Observe("ok", ok)
	verif.Assert(ok == arg, "a quoted word is not just a value")
	if ok {
		ses := zzRun(zzCl, zzEhlo(k))
		zzObs(ses)
		verif.Assert(zzReply(ses, "ehlo", 0).Class == 5, "a keyword is not usable as an argument")
	}
}

// commas followed by blank, tab, newline or the end, unterminated quotes and
// an empty file: make the file invalid, wherever they occur; otherwise the
// same text is fine
func VerifC25_errors() {
	pre := []string{"", "reject from x\n", "# c\n"}[verif.Choose("pre", 3)]
	bad := []string{"reject dns nodns,%good", "reject helo-has none,%bogus\n", "reject from \"a%", "reject from \"a%\nreject to b\n", "reject from file:%", "reject from file:%\n"}
	good := []string{"", "", "\"", "\"", "a", "a"}
	ins := []string{" ", "\t", "", "", "", " "}
	k := verif.Choose("err", len(bad))
	isbad := verif.Bool("bad")
	w := good[k]
	if isbad {
		w = ins[k]
	}
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	txt := pre + strings.Replace(bad[k], "%", w, 1)
	env.Put("/rules", txt)
	ok := zzBoot()
	verif.Observe("rules", txt)
	verif.Observe("ok", ok)
	verif.Assert(ok == !isbad, "a lexical error is not recognised exactly where there is one")
}
