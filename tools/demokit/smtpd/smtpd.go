// Package smtpd is a small stand-in for github.com/siebenmann/smtpd (which
// cannot be fetched here): a line-based SMTP server side over a net.Conn with
// the parts of the interface that sinksmtp uses.
package smtpd

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"strings"
	"time"
)

const TimeFmt = "2006-01-02 15:04:05 -0700"

type Command int

const (
	noCmd Command = iota
	BadCmd
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

type Event int

const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

type Limits struct {
	CmdInput, MsgInput, ReplyOut, TLSSetup time.Duration
	MsgSize                                int64
	BadCmds                                int
	NoParams                               bool
}

var DefaultLimits = Limits{}

type AuthConfig struct{}

type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Auth      *AuthConfig
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

const (
	sInit = iota
	sHelo
	sMail
	sRcpt
	sData
	sPost
	sQuit
	sAbort
)

type Conn struct {
	Config   Config
	TLSOn    bool
	TLSState tls.ConnectionState

	nc      net.Conn
	r       *bufio.Reader
	log     io.Writer
	st, nst int
	cur     Command
	active  bool
	replied bool
	greeted bool
}

func NewConn(nc net.Conn, cfg Config, log io.Writer) *Conn {
	return &Conn{Config: cfg, nc: nc, r: bufio.NewReader(nc), log: log}
}

func (c *Conn) lg(d, s string) {
	if c.log != nil {
		c.log.Write([]byte(d + " " + s + "\n"))
	}
}

func (c *Conn) put(code, msg string) {
	ls := strings.Split(strings.TrimSuffix(msg, "\n"), "\n")
	for i, l := range ls {
		sep := "-"
		if i == len(ls)-1 {
			sep = " "
		}
		s := code + sep + l
		c.lg("w", s)
		c.nc.SetDeadline(time.Now().Add(10 * time.Second))
		if _, err := io.WriteString(c.nc, s+"\r\n"); err != nil {
			c.st = sAbort
		}
	}
}

func (c *Conn) answer(ok bool, code, msg string) {
	if c.replied || !c.active {
		return
	}
	c.replied = true
	if ok {
		c.st = c.nst
		if c.cur == DATA {
			code = "354"
		}
		if c.cur == EHLO {
			if c.Config.TLSConfig != nil && !c.TLSOn {
				msg += "\nSTARTTLS"
			}
			msg += "\nHELP"
		}
	} else if c.st == sPost {
		c.st = sHelo
	}
	c.put(code, msg)
}

func (c *Conn) Accept()   { c.answer(true, "250", "Okay") }
func (c *Conn) Reject()   { c.answer(false, "550", "Not accepted") }
func (c *Conn) Tempfail() { c.answer(false, "450", "Not available") }
func (c *Conn) AcceptMsg(f string, e ...interface{}) {
	c.answer(true, "250", fmt.Sprintf(f, e...))
}
func (c *Conn) RejectMsg(f string, e ...interface{}) {
	c.answer(false, "550", fmt.Sprintf(f, e...))
}
func (c *Conn) TempfailMsg(f string, e ...interface{}) {
	c.answer(false, "450", fmt.Sprintf(f, e...))
}
func (c *Conn) AcceptData(id string) {
	c.answer(true, "250", "I've put it in a can called "+id)
}
func (c *Conn) RejectData(id string) {
	c.answer(false, "550", "Not put in a can called "+id)
}

func (c *Conn) line() (string, bool) {
	c.nc.SetDeadline(time.Now().Add(20 * time.Second))
	s, err := c.r.ReadString('\n')
	if err != nil {
		return "", false
	}
	return strings.TrimRight(s, "\r\n"), true
}

func (c *Conn) Next() EventInfo {
	if c.active && !c.replied {
		c.Accept()
	}
	c.active, c.replied = false, false
	if !c.greeted && c.st != sAbort {
		c.greeted = true
		c.put("220", c.Config.LocalName+" ESMTP")
	}
	for {
		switch c.st {
		case sAbort:
			return EventInfo{What: ABORT}
		case sQuit:
			return EventInfo{What: DONE}
		case sData:
			var b strings.Builder
			for {
				l, ok := c.line()
				if !ok {
					c.st = sAbort
					return EventInfo{What: ABORT}
				}
				if l == "." {
					break
				}
				b.WriteString(strings.TrimPrefix(l, ".") + "\n")
			}
			c.st, c.nst, c.active = sPost, sHelo, true
			c.cur = noCmd
			return EventInfo{What: GOTDATA, Arg: b.String()}
		}
		l, ok := c.line()
		if !ok {
			c.st = sAbort
			continue
		}
		c.lg("r", l)
		arg := func(p string) string {
			a := strings.TrimSpace(l[len(p):])
			if strings.HasPrefix(a, "<") && strings.HasSuffix(a, ">") {
				a = a[1 : len(a)-1]
			}
			return a
		}
		u := strings.ToUpper(l)
		cmd, good, a := noCmd, false, ""
		switch {
		case strings.HasPrefix(u, "HELO"):
			cmd, good, a, c.nst = HELO, c.st <= sHelo, strings.TrimSpace(l[4:]), sHelo
		case strings.HasPrefix(u, "EHLO"):
			cmd, good, a, c.nst = EHLO, c.st <= sHelo, strings.TrimSpace(l[4:]), sHelo
		case strings.HasPrefix(u, "MAIL FROM:"):
			cmd, good, a, c.nst = MAILFROM, c.st == sHelo, arg("MAIL FROM:"), sMail
		case strings.HasPrefix(u, "RCPT TO:"):
			cmd, good, a, c.nst = RCPTTO, c.st == sMail || c.st == sRcpt, arg("RCPT TO:"), sRcpt
		case u == "DATA":
			cmd, good, c.nst = DATA, c.st == sRcpt, sData
		case u == "RSET":
			if c.st != sInit {
				c.st = sHelo
			}
			c.put("250", "Okay")
			continue
		case u == "NOOP":
			c.put("250", "Okay")
			continue
		case u == "QUIT":
			c.put("221", "Bye")
			c.st = sQuit
			continue
		case u == "STARTTLS":
			if c.TLSOn || c.Config.TLSConfig == nil || c.st != sHelo {
				c.put("503", "no")
				continue
			}
			c.put("220", "go")
			t := tls.Server(c.nc, c.Config.TLSConfig)
			c.nc.SetDeadline(time.Now().Add(10 * time.Second))
			if err := t.Handshake(); err != nil {
				c.st = sAbort
				return EventInfo{What: TLSERROR, Arg: err.Error()}
			}
			c.nc, c.r = t, bufio.NewReader(t)
			c.TLSOn, c.TLSState, c.st = true, t.ConnectionState(), sInit
			continue
		}
		if cmd == noCmd {
			c.put("500", "what?")
			continue
		}
		if !good {
			c.put("503", "out of sequence")
			continue
		}
		c.cur, c.active = cmd, true
		return EventInfo{What: COMMAND, Cmd: cmd, Arg: a}
	}
}
