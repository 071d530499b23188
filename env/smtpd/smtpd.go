// Package smtpd models github.com/siebenmann/smtpd: the SMTP state machine
// with commands coming from a scripted client.  It follows the documented
// contract: commands out of sequence are answered by the package itself, a
// command is answered once (later answers are ignored), a command that was
// not answered when Next is called again is accepted, and only an accepted
// command moves the conversation on.
package smtpd

import (
	"fmt"
	"io"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/crypto/tls"
	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/net"
	"github.com/siebenmann/sinksmtp/zz/time"
)

const TimeFmt = "2006-01-02 15:04:05 -0700"

type Command int

const (
	noCmd Command = iota
	BadCmd
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

func (c Command) String() string {
	switch c {
	case HELO:
		return "HELO"
	case EHLO:
		return "EHLO"
	case MAILFROM:
		return "MAIL FROM"
	case RCPTTO:
		return "RCPT TO"
	case DATA:
		return "DATA"
	}
	return "cmd"
}

type Event int

const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

type Limits struct {
	CmdInput, MsgInput, ReplyOut, TLSSetup time.Duration
	MsgSize                                int64
	BadCmds                                int
	NoParams                               bool
}

var DefaultLimits = Limits{}

type AuthConfig struct{}

type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Auth      *AuthConfig
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

type state int

const (
	sInitial state = iota
	sHelo
	sMail
	sRcpt
	sData
	sPost
	sQuit
	sAbort
)

type Conn struct {
	Config   Config
	TLSOn    bool
	TLSState tls.ConnectionState

	conn    net.Conn
	log     io.Writer
	s       *env.Session
	st      state
	nst     state
	curkind string
	curarg  string
	replied bool
	active  bool
	isEhlo  bool
	step    env.Step
	started bool
}

func NewConn(nc net.Conn, cfg Config, log io.Writer) *Conn {
	c := &Conn{Config: cfg, conn: nc, log: log, s: nc.VerifSession()}
	c.s.Started = true
	c.s.HasLog = log != nil
	c.s.LocalName = cfg.LocalName
	c.s.Slow = cfg.Delay > 0
	c.s.TLSCfg = cfg.TLSConfig
	c.s.TLSOffer = cfg.TLSConfig != nil
	if cfg.TLSConfig != nil {
		c.s.ClientAuth = int(cfg.TLSConfig.ClientAuth)
	}
	return c
}

func (c *Conn) logf(dir string, s string) {
	if c.log == nil {
		return
	}
	c.s.Logged = append(c.s.Logged, dir+" "+s)
	c.log.Write([]byte(dir + " " + s + "\n"))
}

func (c *Conn) put(class int, how, msg string, own bool) {
	// every line of a reply is sent and logged by itself
	if c.log != nil {
		for _, l := range strings.Split(msg, "\n") {
			c.logf("w", l)
		}
	}
	c.s.AddReply(env.Reply{Kind: c.curkind, Arg: c.curarg, Class: class, Msg: msg, Own: own, How: how})
}

func (c *Conn) answer(class int, how, msg string) {
	if c.replied || !c.active {
		return
	}
	c.replied = true
	if class == 2 {
		c.st = c.nst
		if c.curkind == "data" {
			class = 3
		}
		if c.curkind == "ehlo" {
			c.s.Offers = append(c.s.Offers, c.Config.TLSConfig != nil && !c.TLSOn)
		}
	} else if c.st == sPost {
		c.st = sHelo
	}
	c.put(class, how, msg, false)
}

func (c *Conn) Accept()   { c.answer(2, "accept", "") }
func (c *Conn) Reject()   { c.answer(5, "reject", "") }
func (c *Conn) Tempfail() { c.answer(4, "tempfail", "") }
func (c *Conn) AcceptMsg(format string, e ...interface{}) {
	c.answer(2, "acceptmsg", fmt.Sprintf(format, e...))
}
func (c *Conn) RejectMsg(format string, e ...interface{}) {
	c.answer(5, "rejectmsg", fmt.Sprintf(format, e...))
}
func (c *Conn) TempfailMsg(format string, e ...interface{}) {
	c.answer(4, "tempfailmsg", fmt.Sprintf(format, e...))
}
func (c *Conn) AcceptData(id string) { c.answer(2, "acceptdata", "I've put it in a can called "+id) }
func (c *Conn) RejectData(id string) { c.answer(5, "rejectdata", "Not put in a can called "+id) }

// Next returns the next event.
func (c *Conn) Next() EventInfo {
	if c.active && !c.replied {
		c.Accept()
	}
	c.active = false
	c.replied = false
	if c.st == sAbort {
		return EventInfo{What: ABORT}
	}
	if c.st == sData {
		// the message itself
		if c.step.Cut {
			c.st = sAbort
			return EventInfo{What: ABORT}
		}
		c.st = sPost
		c.nst = sHelo
		c.curkind, c.curarg = "msg", ""
		c.active = true
		return EventInfo{What: GOTDATA, Arg: c.step.Data}
	}
	if c.st == sQuit {
		return EventInfo{What: DONE}
	}
	if !c.started {
		c.started = true
		// greeting
		c.curkind, c.curarg = "connect", ""
		c.s.TLSOffer = c.Config.TLSConfig != nil
		if c.Config.TLSConfig != nil {
			c.s.ClientAuth = int(c.Config.TLSConfig.ClientAuth)
		}
		c.put(2, "greeting", c.Config.LocalName, true)
	}
	for {
		if c.s.NSteps > 60 {
			c.st = sAbort
			return EventInfo{What: ABORT}
		}
		st := c.s.Client(c.s)
		c.s.NSteps++
		c.step = st
		c.curkind, c.curarg = st.Kind, st.Arg
		c.logf("r", st.Kind+" "+st.Arg)
		cmd := noCmd
		ok := false
		switch st.Kind {
		case "helo", "ehlo":
			cmd = HELO
			if st.Kind == "ehlo" {
				cmd = EHLO
			}
			ok = c.st == sInitial || c.st == sHelo
			c.nst = sHelo
		case "mail":
			cmd = MAILFROM
			ok = c.st == sHelo
			c.nst = sMail
		case "rcpt":
			cmd = RCPTTO
			ok = c.st == sMail || c.st == sRcpt
			c.nst = sRcpt
		case "data":
			cmd = DATA
			ok = c.st == sRcpt
			c.nst = sData
		case "rset":
			if c.st != sInitial {
				c.st = sHelo
			}
			c.put(2, "accept", "", true)
			continue
		case "noop":
			c.put(2, "accept", "", true)
			continue
		case "quit":
			c.put(2, "accept", "", true)
			c.st = sQuit
			return EventInfo{What: DONE}
		case "abort":
			c.st = sAbort
			return EventInfo{What: ABORT}
		case "starttls", "badtls":
			if c.TLSOn || c.Config.TLSConfig == nil || c.st != sHelo {
				c.put(5, "reject", "", true)
				continue
			}
			c.put(2, "accept", "", true)
			if st.Kind == "badtls" {
				c.st = sAbort
				return EventInfo{What: TLSERROR}
			}
			c.TLSOn = true
			if x, ok := st.TLS.(tls.ConnectionState); ok {
				c.TLSState = x
			}
			c.st = sInitial
			continue
		default:
			c.put(5, "reject", "", true)
			continue
		}
		if !ok {
			c.put(5, "reject", "out of sequence", true)
			continue
		}
		c.active = true
		return EventInfo{What: COMMAND, Cmd: cmd, Arg: st.Arg}
	}
}
