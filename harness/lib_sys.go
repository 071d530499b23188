package main

import (
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// ---- the whole program: main() running against the environment model

const zzAddr = "127.0.0.1:25"

// zzDefaults sets the flags every configuration uses.
func zzDefaults() {
	env.FlagArgs = []string{zzAddr}
	env.FlagStr["helo"] = "sink.example.com"
	env.Mkdir("/save")
	env.Mkdir("/log")
}

// zzBoot runs main() until it waits for connections (or exits); it returns
// false if the program refused to start.
func zzBoot() bool {
	go main()
	verif.Quiesce()
	return !env.Exited && len(env.Listening) > 0
}

// zzMustBoot is for configurations that have to start.
func zzMustBoot() {
	if !zzBoot() {
		verif.Observe("stderr", string(env.Stderr))
		verif.Assert(false, "the server does not start in a valid configuration")
		verif.Reject()
	}
}

// zzScript makes a client that performs the given steps and then quits.
func zzScript(steps ...env.Step) func(*env.Session) env.Step {
	i := 0
	return func(s *env.Session) env.Step {
		// a conditional RSET: only if the last command was refused
		for i < len(steps) && steps[i].Kind == "rset-if-refused" {
			i++
			if s.Last().Class >= 4 {
				return zzRset
			}
		}
		if i < len(steps) {
			i++
			return steps[i-1]
		}
		return env.Step{Kind: "quit"}
	}
}

// zzRun connects a client, lets it finish and waits until the handler ended.
func zzRun(remote string, steps ...env.Step) *env.Session {
	s := env.NewSession(remote, zzAddr, zzScript(steps...))
	env.Dial(zzAddr, s)
	s.Wait()
	verif.Quiesce()
	return s
}

// zzReply returns the n-th (from 0) reply to a kind of step.
func zzReply(s *env.Session, kind string, n int) env.Reply {
	for _, r := range s.Replies {
		if r.Kind == kind {
			if n == 0 {
				return r
			}
			n--
		}
	}
	return env.Reply{}
}

func zzCount(s *env.Session, kind string) int {
	n := 0
	for _, r := range s.Replies {
		if r.Kind == kind {
			n++
		}
	}
	return n
}

func zzHelo(n string) env.Step { return env.Step{Kind: "helo", Arg: n} }
func zzEhlo(n string) env.Step { return env.Step{Kind: "ehlo", Arg: n} }
func zzMail(n string) env.Step { return env.Step{Kind: "mail", Arg: n} }
func zzRcpt(n string) env.Step { return env.Step{Kind: "rcpt", Arg: n} }
func zzData(d string) env.Step { return env.Step{Kind: "data", Data: d} }

var zzQuit = env.Step{Kind: "quit"}
var zzRset = env.Step{Kind: "rset"}
var zzRsetIf = env.Step{Kind: "rset-if-refused"}

func zzObs(s *env.Session) {
	for _, r := range s.Replies {
		verif.Observe("reply", r.Kind, r.Class, r.Msg)
	}
}

// zzRunIn runs a session to its end from inside another client.
func zzRunIn(remote string, steps ...env.Step) *env.Session {
	s := env.NewSession(remote, zzAddr, zzScript(steps...))
	env.Dial(zzAddr, s)
	s.Wait()
	return s
}
