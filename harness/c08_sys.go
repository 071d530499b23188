package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzSC reads an expression with F (the operation using the file) and T (an
// operation of any truth value) left to right with short cuts: value, and
// whether F was consulted.
type zzSC struct {
	tok  []string
	pos  int
	f, t bool
}

func (g *zzSC) cur() string {
	if g.pos < len(g.tok) {
		return g.tok[g.pos]
	}
	return ""
}

func (g *zzSC) term() (v, r bool) {
	k := g.cur()
	g.pos++
	switch k {
	case "F":
		return g.f, true
	case "T":
		return g.t, false
	case "A":
		return true, false
	case "not":
		v, r = g.term()
		return !v, r
	case "(":
		v, r = g.andl()
		g.pos++
		return v, r
	}
	return false, false
}

func (g *zzSC) orl() (v, r bool) {
	v, r = g.term()
	if g.cur() == "or" {
		g.pos++
		v2, r2 := g.orl()
		return verif.Or(v, v2), verif.Or(r, verif.And(!v, r2))
	}
	return
}

func (g *zzSC) andl() (v, r bool) {
	v, r = g.orl()
	for g.cur() != "" && g.cur() != ")" {
		v2, r2 := g.orl()
		v, r = verif.And(v, v2), verif.Or(r, verif.And(v, r2))
	}
	return
}

var zzSCExprs = []string{
	"F", "not F", "F T", "T F", "not F T", "T not F", "F or T", "T or F", "not F or T", "T or not F",
	"not ( F or T )", "not ( T or F )", "not ( F T )", "not ( T F )", "A or F", "F or A", "not ( not F )", "T or ( not F A )", "( F or A ) T", "not T or F",
	"F F", "not F not F", "F or F or T",
}

var zzSCOps = []string{"from", "to", "helo", "host", "ip", "source"}
var zzSCHit = []string{"q@r.s", "@v.w", ".Y", "a.example.com", "192.0.2.0/24", ".r.s"}

// zzFile sets up /f with a status: 0 missing, 1 empty, 2 only comments and
// blanks, 3 a matching entry but a read error at the end, 4 only an entry
// that does not match, 5 a matching entry, 6 cannot be opened, 7 a matching
// entry among others without a newline at the end
func zzFile(st int, hit string) (miss, match bool) {
	switch st {
	case 1:
		env.Put("/f", "")
	case 2:
		env.Put("/f", "# "+hit+"\n\n   \n#\n")
	case 3:
		env.Put("/f", hit+"\n"+hit+"\nzork\nzork\nzork\n")
		env.ReadFault = func(path string, off int) error {
			if path == "/f" && off >= 2*len(hit)+9 {
				return env.ErrIO
			}
			return nil
		}
	case 4:
		env.Put("/f", "zork@zork.example\n")
	case 5:
		env.Put("/f", "# c\nzork\n  "+hit+"  \n")
	case 6:
		env.Put("/f", hit+"\n")
		env.Fault = func(op, path string) error {
			if path == "/f" {
				return env.ErrPermission
			}
			return nil
		}
	case 7:
		env.Put("/f", "zork\n"+hit)
	}
	return st < 4 || st == 6, st == 5 || st == 7
}

func zzSCText(tok []string, F string) string {
	s := ""
	for _, t := range tok {
		switch t {
		case "F":
			s += F + " "
		case "T":
			s += zzOp(0) + " "
		case "A":
			s += "all "
		default:
			s += t + " "
		}
	}
	return s
}

// the whole server: 23 expressions with a file operation of each kind (from,
// to, helo, host, ip, source), 8 states of the file, an operation of any truth
// value, as a reject rule or a set-with rule, with a rule of any truth value
// after it
func VerifC08_rule() {
	zzTruths(2)
	l := env.LookupIP
	op := verif.Choose("op", len(zzSCOps))
	tok := strings.Fields(zzSCExprs[verif.Choose("expr", len(zzSCExprs))])
	set := verif.Choose("set", 2) == 1
	st := verif.Choose("file", 8)
	zzRDNS([]string{"a.example.com."}, []bool{true})
	l2 := env.LookupIP
	env.LookupIP = func(n string) (zzIPs, error) {
		if n == "a.example.com." {
			return l2(n)
		}
		return l(n)
	}
	miss, match := zzFile(st, zzSCHit[op])
	fn := "file:/f"
	if verif.Choose("name", 2) == 1 {
		fn = "/f"
	}
	e := zzSCText(tok, zzSCOps[op]+" "+fn)
	text := "@to reject " + e + "with message one\n"
	if set {
		text = "@to set-with " + e + "with message one\n"
	}
	zzServeBare(text + "@to stall " + zzOp(1) + "\n")
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"))
	zzObs(s)
	g := &zzSC{tok: tok, f: match, t: zzT[0]}
	v, r := g.andl()
	if miss {
		v = verif.And(v, !r)
	}
	rep := zzReply(s, "rcpt", 0)
	verif.Assert(verif.Iff(strings.Contains(rep.Msg, "one"), v), "a rule using a bad data file has an effect, or a rule using a good one has none")
	want := verif.IteInt(zzT[1], 4, 2)
	if !set {
		want = verif.IteInt(v, 5, want)
	}
	verif.Assert(rep.Class == want, "the verdict is not that of the unaffected rules")
}

// compact rules and DATA time: a missed file in any of two clauses disables
// the rule once it is consulted; with two recipients
func VerifC08_compact() {
	zzTruths(2)
	st := verif.Choose("file", 8)
	hit := "u@v.w"
	if verif.Choose("second", 2) == 1 {
		hit = "u2@v.w"
	}
	miss, match := zzFile(st, hit)
	var text string
	var want bool
	not := verif.Choose("not", 2) == 1
	F := "to file:/f"
	if not {
		F = "not " + F
	}
	shape := verif.Choose("shape", 3)
	switch shape {
	case 0:
		text = "@data reject " + F + "\n"
	case 1:
		text = "@data reject " + F + " ; to u@v.w " + zzOp(0) + "\n"
	case 2:
		text = "@data reject " + zzOp(0) + " ; " + F + "\n"
	}
	// F for the two recipients
	f1, f2 := match && hit == "u@v.w", match && hit == "u2@v.w"
	if not {
		f1, f2 = !f1, !f2
	}
	switch shape {
	case 0:
		want = verif.And(!miss, verif.Or(f1, f2))
	case 1:
		want = verif.And(!miss, verif.Or(f1, zzT[0], f2))
	case 2:
		want = verif.Or(zzT[0], verif.And(!miss, verif.Or(f1, f2)))
	}
	zzServeBare(text)
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzRcpt("u2@v.w"), zzData("hi\r\n"))
	zzObs(s)
	verif.Assert(verif.Iff(zzReply(s, "data", 0).Class == 5, want), "a data file in a compact rule at DATA time is not handled as documented")
}

// a list with 6 entries of which any one may be the matching one, and a long
// one (400 entries, more than 4096 bytes) where only the last matches: the
// file is used in full
func VerifC08_full() {
	k := verif.Choose("kind", 2)
	var text string
	var want bool
	if k == 0 {
		a := verif.StringIn("who", 1, "abcdefgh")
		text = "a@b\nb@b\n# x\n c@b\nd@\n@.e\nf@b\n"
		env.Put("/f", text)
		zzServeBare("reject from /f\n")
		s := zzRun(zzCl, zzEhlo("x.y"), zzMail(a+"@b"))
		zzObs(s)
		want = verif.Or(a == "a", a == "b", a == "c", a == "d", a == "f")
		verif.Assert(verif.Iff(zzReply(s, "mail", 0).Class == 5, want), "an entry of the list is not used")
		return
	}
	for i := 0; i < 400; i++ {
		text += "user@some.domain\n"
	}
	env.Put("/f", text+"a@b\n")
	zzServeBare("reject from /f\n")
	a := verif.StringIn("who", 1, "ab")
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail(a+"@b"))
	zzObs(s)
	verif.Assert(verif.Iff(zzReply(s, "mail", 0).Class == 5, a == "a"), "the end of a long list is not used")
}

// rules checked at DATA or message time against two recipients in either
// order: 23 expressions where F is an operation on a recipient list file in any
// of 8 states and T an operation on an address, recipients and address any of
// three names, as a stall or set-with rule. The rule is tried for each recipient in turn up to the first
// that matches or consults an unusable file; in the latter case it has no
// effect at all
func VerifC08_recipients() {
	tok := strings.Fields(zzSCExprs[verif.Choose("expr", len(zzSCExprs))])
	st := verif.Choose("file", 8)
	l1, l2 := verif.StringIn("rcpt", 1, "abc"), verif.StringIn("rcpt", 1, "abc")
	lh, lt := "a", verif.StringIn("other", 1, "ab")
	miss, match := zzFile(st, lh+"@v.w")
	set := verif.Choose("set", 2) == 1
	ph := verif.Choose("phase", 2)
	F, T := "to file:/f", "to "+lt+"@v.w"
	e := ""
	for _, t := range tok {
		switch t {
		case "F":
			e += F + " "
		case "T":
			e += T + " "
		case "A":
			e += "all "
		default:
			e += t + " "
		}
	}
	text := []string{"@data ", "@message "}[ph]
	if set {
		text += "set-with "
	} else {
		text += "stall "
	}
	zzServeBare(text + e + "with message one\n")
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt(l1+"@v.w"), zzRcpt(l2+"@v.w"), zzData("hi\r\n"))
	zzObs(s)
	want, off := false, false
	for _, l := range []string{l1, l2} {
		g := &zzSC{tok: tok, f: verif.And(match, verif.EqStr(l, lh)), t: verif.EqStr(l, lt)}
		v, r := g.andl()
		off = verif.Or(off, verif.And(!want, miss, r))
		want = verif.Or(want, verif.And(!off, v))
	}
	rep := zzReply(s, []string{"data", "msg"}[ph], 0)
	verif.Assert(verif.Iff(strings.Contains(rep.Msg, "one"), want), "a rule using a bad recipient list has an effect, or a rule using a good one has none")
	if !set {
		verif.Assert(verif.Iff(rep.Class == 4, want), "the verdict is not that of the unaffected rules")
	}
}

// compact set-with and reject rules with an option in each of three clauses,
// one of which consults a file of any state (negated or not), the others of
// any truth value, in any phase from MAIL FROM on: neither a verdict nor an
// option comes from the rule if the file is consulted and unusable
func VerifC08_clauses() {
	zzTruths(3)
	st := verif.Choose("file", 8)
	miss, match := zzFile(st, "q@r.s")
	F := "from file:/f"
	f := match
	if verif.Choose("not", 2) == 1 {
		F, f = "not "+F, !f
	}
	at := verif.Choose("clause", 3)
	set := verif.Choose("set-with", 2) == 1
	ph := 2 + verif.Choose("phase", 4)
	text := "@" + zzPh[ph] + " " + []string{"reject", "set-with"}[verif.IteInt(set, 1, 0)]
	got := 0 // the clause that decides, 1-3
	for i := 0; i < 3; i++ {
		if i > 0 {
			text += ";"
		}
		t := zzOp(i)
		if i == at {
			t = F
		}
		n := string(rune('1' + i))
		text += " " + t + " with message m" + n
		v := zzT[i]
		if i == at {
			v = f
		}
		if got == 0 && i == at && miss {
			got = -1
		}
		if got == 0 && v {
			got = i + 1
		}
	}
	zzServeBare(text + "\n@" + zzPh[ph] + " stall all\n")
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"), zzRcpt("u@v.w"), zzData("hi\r\n"))
	zzObs(s)
	r := zzReply(s, []string{"", "", "mail", "rcpt", "data", "msg"}[ph], 0)
	want := 4
	if got > 0 && !set {
		want = 5
	}
	verif.Assert(r.Class == want, "a rule using a bad data file has an effect, or a rule using a good one has none")
	for i := 1; i <= 3; i++ {
		verif.Assert(strings.Contains(r.Msg, "m"+string(rune('0'+i))) == (got == i), "a rule using a bad data file sets options, or a rule using a good one does not")
	}
}

// other rules keep their options: a set-with rule of any truth value before
// and one after a reject or set-with rule with a file operation (8 states of
// the file, plain or with not), each with a message, and a stall rule of any
// truth value at the end
func VerifC08_others() {
	zzTruths(3)
	st := verif.Choose("file", 8)
	miss, match := zzFile(st, "q@r.s")
	act := []string{"set-with", "reject"}[verif.Choose("act", 2)]
	not := verif.Choose("not", 2) == 1
	e := "from /f"
	if not {
		e = "not " + e
		match = !match
	}
	hit := match && !miss
	zzServeBare("@from set-with " + zzOp(0) + " with message msg0\n@from " + act + " " + e + " with message msg1\n@from set-with " + zzOp(1) + " with message msg2\n@from stall " + zzOp(2) + "\n")
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"))
	zzObs(s)
	r := zzReply(s, "mail", 0)
	m := verif.IteInt(zzT[0], 0, 9)
	if hit {
		m = 1
	}
	want := 5
	if !hit || act == "set-with" {
		m = verif.IteInt(zzT[1], 2, m)
		want = verif.IteInt(zzT[2], 4, 2)
	}
	verif.Assert(r.Class == want, "a rule's file changes what other rules decide")
	for i := 0; i < 3; i++ {
		verif.Assert(verif.Iff(strings.Contains(r.Msg, "msg"+string(rune('0'+i))), m == i), "a rule's file changes what other rules set")
	}
}

// three rules, each using one of three list files (missing, empty, without or
// with a matching entry, in any combination), with or without not: every rule
// is judged by the state of its own file
func VerifC08_several() {
	names := []string{"/f0", "/f1", "/f2"}
	st := [3]int{}
	for i, n := range names {
		st[i] = verif.Choose("file", 4)
		if st[i] > 0 {
			env.Put(n, []string{"", "", "zork@zork.example\n", "zork\nq@r.s\n"}[st[i]])
		}
	}
	not := verif.Choose("not", 2) == 1
	acts := []string{"reject", "stall", "reject"}
	want, m := 2, ""
	text := ""
	for i, a := range acts {
		k := verif.Choose("which", 3)
		e := "from "
		hit := st[k] == 3
		if not {
			e = "not from "
			hit = st[k] == 2
		}
		text += "@from " + a + " " + e + names[k] + " with message m" + string(rune('0'+i)) + "\n"
		if hit && want == 2 {
			want, m = []int{5, 4, 5}[i], "m"+string(rune('0'+i))
		}
	}
	zzServeBare(text)
	s := zzRun(zzCl, zzEhlo("x.y"), zzMail("q@r.s"))
	zzObs(s)
	r := zzReply(s, "mail", 0)
	verif.Assert(r.Class == want && (m == "" || r.Msg == m), "a rule is not judged by the state of its own file")
}
