package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

func zzC05(tok []string, pre, post string) {
	zzTruths(8)
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", pre+zzExprText(tok)+post)
	want, ok := zzReadExpr(tok)
	up := zzBoot()
	verif.Assert(up == ok, "a rule text is accepted exactly when it follows the grammar")
	if !up || !ok {
		return
	}
	verif.Cover("accepted")
	s := zzRun(zzCl, zzEhlo("x.y"))
	zzObs(s)
	verif.Assert(verif.Iff(zzReply(s, "ehlo", 0).Class == 5, want), "the rule does not mean what the grammar says")
}

// the whole server: '@helo reject EXPR' for every sequence of up to 6 tokens
// (thorough: 8) out of a match operation, not, or, '(' and ')', for every
// truth value of the operations
func VerifC05_seq() {
	n := 6
	if verif.Deep() {
		n = 8
	}
	toks := []string{"T", "not", "or", "(", ")"}
	var tok []string
	for i, l := 0, verif.Choose("len", n+1); i < l; i++ {
		tok = append(tok, toks[verif.Choose("tok", 5)])
	}
	zzC05(tok, "@helo reject ", "\n")
}

var zzExprs = [][]string{
	{"T", "or", "T", "T", "or", "T"},
	{"T", "T", "or", "T", "T"},
	{"not", "T", "or", "T", "T"},
	{"not", "(", "T", "or", "T", ")", "T"},
	{"(", "T", "T", ")", "or", "(", "T", "T", ")"},
	{"T", "or", "(", "T", "T", ")", "or", "T"},
	{"not", "not", "T", "or", "not", "T"},
	{"not", "(", "T", "T", "T", ")"},
	{"T", "not", "T", "not", "T", "or", "not", "T"},
	{"(", "(", "T", "or", "T", ")", "(", "T", "or", "T", ")", ")"},
	{"not", "(", "not", "T", "or", "not", "(", "T", "T", ")", ")"},
	{"T", "or", "T", "or", "T", "or", "T", "T"},
	{"A", "T", "or", "T"},
	{"not", "A", "or", "T"},
	{"T", "or", "A", "not", "T"},
	{"T", "(", "T", "or", "(", "T", "not", "T", ")", ")", "T"},
	{"T", "T", "T", "T", "T"},
	{"not", "T", "not", "T", "not", "T"},
	{"(", "(", "(", "T", ")", ")", ")", "or", "T"},
	{"T", "or", "not", "T", "T", "or", "not", "T"},
}

// 20 longer expressions, as a rule of one line, with a continuation line
// between any two words, and with a rule before and after it
func VerifC05_long() {
	tok := zzExprs[verif.Choose("expr", len(zzExprs))]
	switch verif.Choose("form", 3) {
	case 0:
		zzC05(tok, "@helo reject ", "\n")
	case 1:
		zzC05(tok, "@from reject all\n@helo reject \\\n   ", "with message \"m\"\n@to accept all")
	case 2:
		zzC05(tok, "# c\n\n  @helo stall not all or not all;\n   not all\n@helo reject not all ; ", " ; not all\n")
	}
}

var zzBadTexts = []string{
	"reject\n", "reject with message \"a\"\n", "reject all with\n", "reject all with \n", "reject all with; all\n", "accept all with ; to a@b with note x\n", "reject all; all with\n", "reject all with note x; all with; all\n", "set-with all\n",
	"set-with all with note a; all\n", "reject all;\n", "reject ;all\n", "reject all; ; all\n",
	"reject all with message\n", "reject all with note\n", "reject all with bogus x\n", "reject all all2\n",
	"frobnicate all\n", "all\n", "@helo\n", "@helo all\n", "@rcpt reject all\n", "reject from\n", "reject to\n", "reject helo\n",
	"reject host\n", "reject source\n", "reject ip\n", "reject ip nonsense\n", "reject dnsbl\n", "reject dnsbl nodots\n", "reject dbl a.b\n",
	"reject dbl host\n", "reject dbl host, a.b\n", "reject tls\n", "reject tls maybe\n", "reject dns\n", "reject dns bogus\n", "reject dns good,\n",
	"reject from-has helo\n", "reject helo-has good\n", "reject to-has\n", "reject all or\n", "reject or all\n", "reject not\n", "reject not or all\n",
	"reject ()\n", "reject (all\n", "reject all)\n", "reject (all or)\n", "reject all with tls-opt\n", "reject all with tls-opt on\n",
	"reject all with note \"a\nb\"\n", "reject all with message a message b\n", "reject all with make-yakker make-yakker\n",
	"reject \"helo\" a\n", "\"reject\" all\n", "reject all, all\n", "include\n", "reject all reject all\n", "reject all @helo\n", "reject @helo all\n",
	"reject all with note a extra\n", "accept accept all\n", "reject to a@b with with note a\n", "reject \"all\n", "reject dns , good\n", "reject not not\n",
}

// 68 texts outside the grammar, alone, after a good rule and before one: always
// refused when the server starts
func VerifC05_bad() {
	t := zzBadTexts[verif.Choose("text", len(zzBadTexts))]
	switch verif.Choose("where", 3) {
	case 1:
		t = "accept all\n" + t
	case 2:
		t = t + "accept all\n"
	}
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", t)
	verif.Assert(!zzBoot(), "a text outside the grammar is accepted")
}

// an arbitrary word of 1 to 6 characters 'a'..'z' or '-' where an action or a
// match operation is expected is refused unless it is one of the documented
// words
func VerifC05_word() {
	w := zzStr("word", 1, 6, "-abcdefghijklmnopqrstuvwxyz")
	asOp := verif.Choose("where", 2) == 1
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	var want bool
	if asOp {
		env.Put("/rules", "reject all "+w+"\n")
		want = verif.Or(verif.EqStr(w, "all"))
	} else {
		env.Put("/rules", w+" all\n")
		want = verif.Or(verif.EqStr(w, "accept"), verif.EqStr(w, "reject"), verif.EqStr(w, "stall"))
	}
	verif.Assert(verif.Iff(zzBoot(), want), "an unknown word is refused and a known one is not")
}

// zzWithOK: are these tokens, after 'set-with all with', a rule? Anything can
// be an argument, punctuation included.
func zzWithOK(tok []string) bool {
	i := 0
	ok := true
	for {
		seen := map[string]bool{}
		n := 0
		for i < len(tok) {
			k := tok[i]
			if k != "message" && k != "note" && k != "savedir" && k != "tls-opt" && k != "make-yakker" {
				break
			}
			if seen[k] {
				return false
			}
			seen[k] = true
			n++
			i++
			if k == "make-yakker" {
				continue
			}
			if i == len(tok) {
				return false
			}
			if k == "tls-opt" && tok[i] != "no-client" {
				if len(tok[i]) != 3 {
					return false
				}
				ok = verif.And(ok, verif.EqStr(tok[i], "off"))
			}
			if k == "note" && strings.Contains(tok[i], "\n") {
				return false
			}
			i++
		}
		if n == 0 {
			return false
		}
		if i == len(tok) {
			return ok
		}
		if tok[i] != ";" {
			return false
		}
		i++
		n = 0
		for i < len(tok) && tok[i] == "all" {
			i++
			n++
		}
		if n == 0 || i == len(tok) || tok[i] != "with" {
			return false
		}
		i++
	}
}

// 'set-with all with' followed by every sequence of up to 3 (thorough: 4) of 11
// words (the options, arguments, for tls-opt an arbitrary word of three
// letters f, g, o, ';', 'all', 'with') is accepted exactly if it is
// a list of options, each once and with a proper argument
func VerifC05_with() {
	n := 3
	if verif.Deep() {
		n = 4
	}
	words := []string{"message", "note", "savedir", "tls-opt", "make-yakker", "w", "no-client", "\"a\nb\"", ";", "all", "with"}
	var tok []string
	text := "set-with all with"
	for i, l := 0, verif.Choose("len", n+1); i < l; i++ {
		w := words[verif.Choose("tok", len(words))]
		if w == "w" && i > 0 && tok[i-1] == "tls-opt" {
			w = verif.StringIn("word", 3, "fgo")
		}
		tok = append(tok, w)
		text += " " + tok[i]
	}
	if verif.Choose("more", 2) == 1 {
		// a second clause
		m := []string{";", "all", "with", "note", "w"}
		tok = append(tok, m...)
		text += " ; all with note w"
	}
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", text+"\n")
	verif.Observe("rules", text)
	verif.Assert(verif.Iff(zzBoot(), zzWithOK(tok)), "not exactly the proper lists of options are accepted")
}

// a compact rule of up to 4 clauses of any truth value, separated by ';' with
// or without a line break, comment-like blanks or an option before it, and a
// plain rule after it: it matches exactly when one of its clauses does
func VerifC05_compact() {
	zzTruths(5)
	n := 2 + verif.Choose("clauses", 3)
	text := "@from reject "
	any := false
	for i := 0; i < n; i++ {
		text += zzOp(i)
		any = verif.Or(any, zzT[i])
		if i < n-1 {
			text += []string{" ; ", ";\n", " with note x;\n  ", " with note \"y\" ; "}[verif.Choose("sep", 4)]
		}
	}
	zzServeBare(text + "\n@from stall " + zzOp(4) + "\n")
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"))
	zzObs(s)
	verif.Assert(zzReply(s, "mail", 0).Class == verif.IteInt(any, 5, verif.IteInt(zzT[4], 4, 2)), "a compact rule does not match exactly when one of its clauses does")
}

// up to 3 options, each with one of its possible arguments (a word, a quoted
// text with a line break at its start, its end or within it, for tls-opt off
// and no-client), split in any way over clauses: accepted exactly if no clause
// has an option twice and no note has a line break
func VerifC05_options() {
	opts := []string{"message", "note", "savedir", "tls-opt", "make-yakker"}
	args := []string{"w", "\"\nb\"", "\"a b\n\"", "\"a\nb\""}
	var tok []string
	for i, l := 0, 1+verif.Choose("len", 3); i < l; i++ {
		if i > 0 && verif.Choose("clause", 2) == 1 {
			tok = append(tok, ";", "all", "with")
		}
		o := opts[verif.Choose("option", len(opts))]
		tok = append(tok, o)
		switch o {
		case "make-yakker":
		case "tls-opt":
			tok = append(tok, []string{"off", "no-client"}[verif.Choose("tls", 2)])
		default:
			tok = append(tok, args[verif.Choose("arg", len(args))])
		}
	}
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/rules"
	text := "set-with all with " + strings.Join(tok, " ") + "\n"
	env.Put("/rules", text)
	verif.Observe("rules", text)
	verif.Assert(zzBoot() == zzWithOK(tok), "not exactly the proper lists of options are accepted")
}
