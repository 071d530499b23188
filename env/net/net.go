// Package net models the parts of net that reach the network; everything
// else is the real package.
package net

import (
	"errors"
	rnet "net"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/time"
)

type (
	IP                  = rnet.IP
	IPMask              = rnet.IPMask
	IPNet               = rnet.IPNet
	IPAddr              = rnet.IPAddr
	TCPAddr             = rnet.TCPAddr
	Addr                = rnet.Addr
	Error               = rnet.Error
	DNSError            = rnet.DNSError
	OpError             = rnet.OpError
	AddrError           = rnet.AddrError
	ParseError          = rnet.ParseError
	MX                  = rnet.MX
	NS                  = rnet.NS
	UnknownNetworkError = rnet.UnknownNetworkError
	InvalidAddrError    = rnet.InvalidAddrError
	DNSConfigError      = rnet.DNSConfigError
)

const (
	IPv4len = rnet.IPv4len
	IPv6len = rnet.IPv6len
)

var ErrClosed = rnet.ErrClosed

var (
	IPv4zero     = rnet.IPv4zero
	IPv6zero     = rnet.IPv6zero
	IPv6loopback = rnet.IPv6loopback
)

func ParseIP(s string) IP                            { return rnet.ParseIP(s) }
func ParseCIDR(s string) (IP, *IPNet, error)         { return rnet.ParseCIDR(s) }
func SplitHostPort(s string) (string, string, error) { return rnet.SplitHostPort(s) }
func JoinHostPort(h, p string) string                { return rnet.JoinHostPort(h, p) }
func IPv4(a, b, c, d byte) IP                        { return rnet.IPv4(a, b, c, d) }
func CIDRMask(o, b int) IPMask                       { return rnet.CIDRMask(o, b) }
func IPv4Mask(a, b, c, d byte) IPMask                { return rnet.IPv4Mask(a, b, c, d) }

func LookupIP(host string) ([]IP, error) {
	env.NoteDNS("A", host)
	return env.LookupIP(host)
}

func LookupHost(host string) ([]string, error) {
	ips, err := LookupIP(host)
	var r []string
	for _, i := range ips {
		r = append(r, i.String())
	}
	return r, err
}

func LookupMX(name string) ([]*MX, error) {
	env.NoteDNS("MX", name)
	return env.LookupMX(name)
}

func LookupAddr(addr string) ([]string, error) {
	env.NoteDNS("PTR", addr)
	return env.LookupAddr(addr)
}

func LookupTXT(name string) ([]string, error) {
	env.NoteDNS("TXT", name)
	return env.LookupTXT(name)
}

type Conn interface {
	Read(b []byte) (n int, err error)
	Write(b []byte) (n int, err error)
	Close() error
	LocalAddr() Addr
	RemoteAddr() Addr
	SetDeadline(t time.Time) error
	SetReadDeadline(t time.Time) error
	SetWriteDeadline(t time.Time) error
	VerifSession() *env.Session
}

type Listener interface {
	Accept() (Conn, error)
	Close() error
	Addr() Addr
}

type conn struct{ c *env.Conn }

func (c *conn) Read(b []byte) (int, error)         { return 0, errors.New("model: raw read") }
func (c *conn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *conn) Close() error                       { c.c.S.Close(); return nil }
func (c *conn) LocalAddr() Addr                    { return env.Addr(c.c.Local) }
func (c *conn) RemoteAddr() Addr                   { return env.Addr(c.c.Remote) }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
func (c *conn) VerifSession() *env.Session         { return c.c.S }

// NewConn makes a server-side connection for a session.
func NewConn(c *env.Conn) Conn { return &conn{c} }

type listener struct {
	addr string
	c    chan *env.Conn
}

func (l *listener) Accept() (Conn, error) {
	c := <-l.c
	if c == nil {
		return nil, errors.New("accept: too many open files")
	}
	return &conn{c}, nil
}
func (l *listener) Close() error { return nil }
func (l *listener) Addr() Addr   { return env.Addr(l.addr) }

func Listen(network, addr string) (Listener, error) {
	c, err := env.Listen(addr)
	if err != nil {
		return nil, err
	}
	return &listener{addr, c}, nil
}
