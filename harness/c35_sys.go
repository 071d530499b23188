package main

import (
	"strings"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzC35Rules: n connections one after the other; before each the rules file is
// put in an arbitrary state
func zzC35Rules(n int) {
	inc := verif.Choose("included", 2) == 1
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/first,/rules"
	env.Put("/first", "@data reject all\n")
	f := "/rules"
	if inc {
		env.Put("/rules", "include /inc\n")
		f = "/inc"
	}
	good := "@from reject all\n"
	env.Put(f, good)
	zzMustBoot()
	verif.Assert(len(env.Stderr) == 0, "something is reported without a problem")
	last := -1
	for k := 0; k < n; k++ {
		st := verif.Choose("state", 5)
		env.Fault, env.ReadFault = nil, nil
		switch st {
		case 0:
			env.Put(f, good)
		case 1:
			env.Remove(f)
		case 2:
			env.Put(f, good+"reject from\n")
		case 3:
			env.Put(f, good+"\n\nwrong "+verif.StringIn("word", 1, "ab")+"\n")
		case 4:
			env.Put(f, good)
			env.Fault = func(op, path string) error {
				if path == f {
					return env.ErrPermission
				}
				return nil
			}
		}
		before := len(env.Stderr)
		s := zzRun(zzCl, zzEhlo("x.y"))
		said := string(env.Stderr[before:])
		verif.Observe("said", said)
		verif.Assert(verif.Iff(zzReply(s, "ehlo", 0).Class == 4, st != 0), "the rules are not stalling exactly while they are broken")
		if st == 0 || st == last && st != 3 {
			verif.Assert(said == "", "something is reported without a new problem")
		} else if st != last {
			verif.Assert(strings.Count(said, "\n") == 1 && strings.Contains(said, "/rules") && strings.Contains(said, f), "broken rules are not reported with their file")
		}
		if st != 0 {
			last = st
		}
	}
}

// 3 connections with the rules file (or one included by it) good, missing,
// unreadable, or broken in one of three ways before each: every new problem is
// reported with the file name, a repeated one is not
func VerifC35_rules() { zzC35Rules(3) }

// 4 connections
func VerifC35_rules_deep() { zzC35Rules(4) }

// 3 connections; before each of them the list file of a rule is good, empty,
// missing, unreadable or fails while being read: problems other than its
// absence are reported with the file name, the same one only once
func VerifC35_lists() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	opt := verif.Choose("option", 2) == 1
	if opt {
		env.FlagStr["fromreject"] = "/list"
	} else {
		env.FlagStr["r"] = "/rules"
		env.Put("/rules", "@from reject from /list\n")
	}
	zzMustBoot()
	last := -1
	for k := 0; k < 3; k++ {
		st := verif.Choose("state", 6)
		env.Fault, env.ReadFault = nil, nil
		env.Put("/list", "a@b.c\n")
		switch st {
		case 1:
			env.Put("/list", "")
		case 2:
			env.Remove("/list")
		case 3, 5:
			env.Fault = func(op, path string) error {
				if path == "/list" {
					if st == 5 {
						return env.ErrIO
					}
					return env.ErrPermission
				}
				return nil
			}
		case 4:
			env.ReadFault = func(path string, off int) error {
				if path == "/list" && off > 0 {
					return env.ErrIO
				}
				return nil
			}
		}
		before := len(env.Stderr)
		a := verif.StringIn("from", 1, "ax")
		s := zzRun(zzCl, zzEhlo("x.y"), zzMail(a+"@b.c"), zzRset, zzMail(a+"@b.c"))
		said := string(env.Stderr[before:])
		verif.Observe("said", said)
		verif.Assert(verif.Iff(zzReply(s, "mail", 0).Class == 5, verif.And(st == 0, a == "a")), "the list is not used")
		if st < 3 || st == last {
			verif.Assert(said == "", "something is reported without a new problem")
		} else {
			verif.Assert(strings.Count(said, "\n") == 1 && strings.Contains(said, "/list"), "an unreadable list is not reported once with its file")
		}
		if st >= 3 {
			last = st
		}
	}
}

// the -conncfg file becoming missing, unreadable or broken (an arbitrary
// unknown setting): reported with its file name at the next connection, which
// is served all the same
func VerifC35_conncfg() {
	zzDefaults()
	env.FlagBool["nostdrules"] = true
	env.FlagBool["force-receive"] = true
	env.FlagStr["conncfg"] = "/cfg"
	env.Put("/cfg", "* hostname=x.y\n")
	zzMustBoot()
	verif.Assert(len(env.Stderr) == 0, "something is reported without a problem")
	st := verif.Choose("state", 5)
	switch st {
	case 1:
		env.Remove("/cfg")
	case 2:
		env.Put("/cfg", "* hostname=x.y\n* "+verif.StringIn("word", 2, "abwxyz")+"what=z\n")
	case 3:
		env.Put("/cfg", "* cert=/none key=/none\n")
	case 4:
		env.Fault = func(op, path string) error {
			if path == "/cfg" {
				return env.ErrPermission
			}
			return nil
		}
	}
	s := zzRun(zzCl, zzEhlo("x.y"))
	zzObs(s)
	said := string(env.Stderr)
	verif.Observe("said", said)
	verif.Assert(zzReply(s, "ehlo", 0).Class == 2, "a connection is not served")
	if st == 0 {
		verif.Assert(said == "", "something is reported without a problem")
	} else {
		verif.Assert(strings.Contains(said, "/cfg"), "a broken -conncfg file is not reported")
	}
}

// two connections at once while the rules are broken: reported once
func VerifC35_together() {
	zzDefaults()
	env.FlagBool["force-receive"] = true
	env.FlagStr["r"] = "/rules"
	env.Put("/rules", "@from reject all\n")
	zzMustBoot()
	env.Put("/rules", "wrong "+verif.StringIn("word", 1, "ab")+"\n")
	verif.Interleave(1)
	a := env.NewSession(zzCl, zzAddr, zzScript(zzEhlo("x.y")))
	b := env.NewSession("192.0.2.2:1000", zzAddr, zzScript(zzEhlo("x.y")))
	env.Dial(zzAddr, a)
	env.Dial(zzAddr, b)
	a.Wait()
	b.Wait()
	verif.Quiesce()
	verif.Assert(zzReply(a, "ehlo", 0).Class == 4 && zzReply(b, "ehlo", 0).Class == 4, "broken rules do not stall everybody")
	verif.Assert(strings.Count(string(env.Stderr), "/rules") == 1, "a problem is not reported once")
}
