package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// lines that are syntax errors
var zzBrokenLines = []string{
	"reject", "bogus all", "reject from", "accept all with", "set-with all", "reject (all", "reject all)", "reject all or",
	"@from", "@bogus reject all", "reject \"unterminated", "reject from-has bad, noat", "reject dns", "reject not", "accept all with message",
	"@connect reject to a@b", "include", "include /nowhere", "include /broken", "include /loop", "reject all ; ", "reject file:", "reject tls maybe", "reject ip 1.2.3", "accept all with bogus x", "include /ok all",
}

// rules of one file: file i has two rules on operations 2i and 2i+1
func zzC13Lines(i int) []string {
	d := string(rune('0' + i))
	return []string{
		"@from stall " + zzOp(2*i) + " with message m" + d + "s",
		"@from reject " + zzOp(2*i+1) + " with message m" + d + "r",
	}
}

// zzC13Want is the documented verdict of the files in order.
func zzC13Want(n int) (cls int, msg int) {
	cls, msg = 2, -1
	for i := 2*n - 1; i >= 0; i-- {
		c := 4
		if i%2 == 1 {
			c = 5
		}
		cls = verif.IteInt(zzT[i], c, cls)
		msg = verif.IteInt(zzT[i], i, msg)
	}
	return
}

// zzC13Good checks a session under good rules, zzC13Bad one under bad ones.
func zzC13Good(s *env.Session, n int) {
	zzObs(s)
	cls, msg := zzC13Want(n)
	verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "good rule files are treated as broken")
	r := zzReply(s, "mail", 0)
	verif.Assert(r.Class == cls, "the rules of all files in order are not what is in force")
	for i := 0; i < 2*n; i++ {
		want := "m" + string(rune('0'+i/2)) + "sr"[i%2:i%2+1]
		verif.Assert(verif.Iff(r.Msg == want, msg == i), "the rules of all files in order are not what is in force")
	}
}

func zzC13Bad(s *env.Session) {
	zzObs(s)
	verif.Assert(len(s.Replies) > 1, "a connection with broken rule files is dropped")
	for _, r := range s.Replies {
		if r.Kind == "ehlo" || r.Kind == "helo" {
			verif.Assert(r.Class == 4, "broken rule files do not stall everything")
			verif.Assert(r.Msg == "", "a rule of a broken set of files takes effect")
		}
	}
	verif.Assert(zzReply(s, "mail", 0).Own, "a command is processed although rules are broken")
}

// the layout of the files: 0 two files, 1 one file, 2 the first includes the
// second in the middle, 3 the second includes a third
func zzC13Layout(lay int) (files []string, text map[string][]string) {
	text = map[string][]string{}
	switch lay {
	case 0:
		files = []string{"/r0", "/r1"}
		text["/r0"] = zzC13Lines(0)
		text["/r1"] = zzC13Lines(1)
	case 1:
		files = []string{"/r0"}
		text["/r0"] = append(append([]string{"# comment", ""}, zzC13Lines(0)...), zzC13Lines(1)...)
	case 2:
		a, b := zzC13Lines(0), zzC13Lines(1)
		files = []string{"/r0"}
		text["/r0"] = []string{a[0], "include /r1", b[1]}
		text["/r1"] = []string{a[1], b[0]}
	case 3:
		a, b := zzC13Lines(0), zzC13Lines(1)
		files = []string{"/r0", "/r1"}
		text["/r0"] = []string{a[0], a[1]}
		text["/r1"] = []string{"include /r2"}
		text["/r2"] = []string{b[0], b[1]}
	}
	return
}

func zzC13Put(text map[string][]string, nl bool) {
	for f, l := range text {
		s := strings.Join(l, "\n")
		if nl {
			s += "\n"
		}
		env.Put(f, s)
	}
	env.Put("/broken", "accept all\nreject\n")
	env.Put("/loop", "include /loop2\n")
	env.Put("/loop2", "accept all\ninclude /loop\n")
	env.Put("/ok", "accept all\n")
}

func zzC13Boot(files []string) bool {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = strings.Join(files, ",")
	return zzBoot()
}

// two rule files, one, one including another, or one including a third, with
// rules of any truth value: while the server runs one of the files is removed,
// made unreadable, fails while being read, or gets one of 26 broken lines at
// any line; then it is repaired
func VerifC13_reload() {
	zzTruths(4)
	lay := verif.Choose("layout", 4)
	files, text := zzC13Layout(lay)
	zzC13Put(text, true)
	if !zzC13Boot(files) {
		verif.Assert(false, "good rule files are treated as broken at startup")
	}
	all := []string{"/r0", "/r1", "/r2"}
	var names []string
	for _, f := range all {
		if text[f] != nil {
			names = append(names, f)
		}
	}
	f := names[verif.Choose("which", len(names))]
	good, _ := env.Get(f)
	how := verif.Choose("how", 3+len(zzBrokenLines))
	switch how {
	case 0:
		env.Remove(f)
	case 1:
		env.Fault = func(op, path string) error {
			if op == "open" && path == f {
				return env.ErrPermission
			}
			return nil
		}
	case 2:
		env.ReadFault = func(path string, off int) error {
			if path == f && off > 0 {
				return env.ErrIO
			}
			return nil
		}
	default:
		ls := text[f]
		k := verif.Choose("line", len(ls)+1)
		var nl []string
		nl = append(nl, ls[:k]...)
		nl = append(nl, zzBrokenLines[how-3])
		nl = append(nl, ls[k:]...)
		t := strings.Join(nl, "\n")
		if verif.Choose("nl", 2) == 1 {
			t += "\n"
		}
		env.Put(f, t)
	}
	zzC13Bad(zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r"), zzHelo("x.y"), zzMail("q@r")))
	// repaired
	env.Fault, env.ReadFault = nil, nil
	env.Put(f, good)
	zzC13Good(zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r")), 2)
}

// files without an error are never treated as broken and are in force in
// order, with comments, blank lines, continuation lines and blanks, and
// without a newline at the end
func VerifC13_good() {
	zzTruths(4)
	files, text := zzC13Layout(verif.Choose("layout", 4))
	deco := []string{"", "# comment", "#", "  ", "\t# x", "accept not all", "@from accept from \\\n  nobody@nowhere", "accept not all ;\n\t from nobody@nowhere"}
	which := verif.Choose("which", 3)
	for i, f := range []string{"/r0", "/r1", "/r2"} {
		ls := text[f]
		if i == which && ls == nil {
			verif.Reject()
		}
		if ls == nil || (i != which && !verif.Deep()) {
			continue
		}
		k := verif.Choose("line", len(ls)+1)
		d := deco[verif.Choose("deco", len(deco))]
		var nl []string
		nl = append(nl, ls[:k]...)
		nl = append(nl, d)
		nl = append(nl, ls[k:]...)
		text[f] = nl
	}
	zzC13Put(text, verif.Choose("nl", 2) == 1)
	if !zzC13Boot(files) {
		verif.Observe("stderr", string(env.Stderr))
		verif.Assert(false, "good rule files are treated as broken at startup")
	}
	zzC13Good(zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r")), 2)
}

// the built-in rules come before those of the files: with three rule files
// of any truth value and the standard rules on
func VerifC13_builtin() {
	zzTruths(6)
	text := map[string][]string{"/r0": zzC13Lines(0), "/r1": zzC13Lines(1), "/r2": zzC13Lines(2)}
	zzC13Put(text, true)
	zzDefaults()
	env.FlagStr["d"] = "/save"
	env.FlagStr["r"] = "/r0,/r1,/r2"
	env.Put("/fr", "q@r.s\n")
	env.FlagStr["fromreject"] = "/fr"
	zzMustBoot()
	who := verif.StringIn("who", 1, "qrs")
	k := verif.Choose("sender", 2)
	from := who + "@r.s"
	if k == 1 {
		from = who + "@r"
	}
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail(from))
	if k == 1 || who == "q" {
		zzObs(s)
		r := zzReply(s, "mail", 0)
		verif.Assert(verif.And(r.Class == 5, r.Msg == ""), "the built-in rules do not come first")
		return
	}
	zzC13Good(s, 3)
}

// files without any rules (empty, blank or comments only), included or given,
// are no error; a file given twice counts twice
func VerifC13_empty() {
	zzTruths(4)
	blank := []string{"", "\n", "# comment", "# comment\n\n  \n", " ", "\\\n\n"}[verif.Choose("blank", 6)]
	text := map[string][]string{"/r0": zzC13Lines(0), "/r1": zzC13Lines(1)}
	files := []string{"/r0", "/r1"}
	switch verif.Choose("where", 5) {
	case 0:
		files = []string{"/e", "/r0", "/r1"}
	case 1:
		files = []string{"/r0", "/e", "/r1"}
	case 2:
		files = []string{"/r0", "/r1", "/e"}
	case 3:
		text["/r1"] = append([]string{"include /e"}, text["/r1"]...)
	case 4:
		files = []string{"/e"}
	}
	env.Put("/e", blank)
	zzC13Put(text, true)
	if !zzC13Boot(files) {
		verif.Assert(false, "good rule files are treated as broken at startup")
	}
	n := 2
	if len(files) == 1 {
		n = 0
	}
	zzC13Good(zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r")), n)
}

// the same file given, or included, again later: its rules are in force in
// both places
func VerifC13_twice() {
	zzTruths(3)
	inc := verif.Choose("how", 4)
	env.Put("/ra", "set-with "+zzOp(0)+" with note a\n")
	env.Put("/rb", "set-with "+zzOp(1)+" with note b\nset-with "+zzOp(2)+" with note c\n")
	files := []string{"/ra", "/rb", "/ra"}
	switch inc {
	case 1:
		env.Put("/rc", "include /ra\n")
		files = []string{"/ra", "/rb", "/rc"}
	case 2:
		env.Put("/rc", "include /ra\ninclude /rb\ninclude /ra\n")
		files = []string{"/rc"}
	case 3:
		env.Put("/rc", "include /ra\n")
		env.Put("/rb", "set-with "+zzOp(1)+" with note b\nset-with "+zzOp(2)+" with note c\ninclude /rc\n")
		files = []string{"/ra", "/rb"}
	}
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagStr["d"] = "/save"
	env.FlagStr["smtplog"] = "/log/smtp"
	env.FlagStr["r"] = strings.Join(files, ",")
	if !zzBoot() {
		verif.Assert(false, "good rule files are treated as broken at startup")
	}
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r"))
	zzObs(s)
	l := zzLog("/log/smtp")
	has := func(n string) bool { return strings.Contains(l, "rule note: "+n+"\n") }
	verif.Assert(verif.Iff(has("a"), zzT[0]), "rules given twice are not in force twice")
	verif.Assert(verif.Iff(has("c"), verif.And(!zzT[0], zzT[2])), "rules given twice are not in force twice")
	verif.Assert(verif.Iff(has("b"), verif.And(!zzT[0], !zzT[2], zzT[1])), "rules given twice are not in force twice")
}
