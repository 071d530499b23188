package env

import (
	"sync"

	"github.com/siebenmann/sinksmtp/zz/verif"
)

// ---- client connections and scripted SMTP sessions

// Addr is a network address.
type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

// Step is one thing the client does.
type Step struct {
	// Kind: helo ehlo mail rcpt data rset quit abort starttls badtls noop
	Kind string
	Arg  string
	// Data is what follows an accepted DATA; Cut means the connection is
	// lost during the message.
	Data string
	Cut  bool
	// TLS details presented with starttls
	TLS interface{}
}

// Reply is what the server answered.
type Reply struct {
	Kind  string // step kind, or "msg" for the reply after the message
	Arg   string
	Class int // 2, 3, 4, 5
	Msg   string
	Own   bool // generated by the SMTP layer itself, not by the program
	How   string
	// number of file operations performed before the reply
	NOps int
}

// Session is one scripted SMTP conversation.
type Session struct {
	// Client returns the next step; it sees the replies so far.
	Client  func(s *Session) Step
	OnReply func(s *Session, r Reply)
	Replies []Reply
	// Started is set once the SMTP layer is in use
	Started    bool
	TLSOffer   bool // at the greeting
	TLSCfg     interface{}
	ClientAuth int
	LocalName  string
	Slow       bool
	HasLog     bool
	Closed     bool
	NSteps     int
	done       chan bool
	once       sync.Once
	conn       *Conn
	// TLS offered at the time of each EHLO accepted
	Offers []bool
	// lines the SMTP layer gave to its log writer
	Logged []string
}

type Conn struct {
	S      *Session
	Remote string
	Local  string
}

func NewSession(remote, local string, client func(s *Session) Step) *Session {
	s := &Session{Client: client, done: make(chan bool)}
	s.conn = &Conn{S: s, Remote: remote, Local: local}
	return s
}

func (s *Session) Conn() *Conn { return s.conn }

// Wait waits until the server closed the connection.
func (s *Session) Wait() { <-s.done }

func (s *Session) Close() {
	verif.Touch()
	s.once.Do(func() {
		s.Closed = true
		close(s.done)
	})
}

func (s *Session) AddReply(r Reply) {
	verif.Touch()
	fsMu.Lock()
	r.NOps = len(Ops)
	fsMu.Unlock()
	s.Replies = append(s.Replies, r)
	if s.OnReply != nil {
		s.OnReply(s, r)
	}
}

// Last returns the most recent reply.
func (s *Session) Last() Reply {
	if len(s.Replies) == 0 {
		return Reply{}
	}
	return s.Replies[len(s.Replies)-1]
}

// Incoming connections per listening address.
var inMu sync.Mutex
var incoming = map[string]chan *Conn{}
var Listening []string
var ListenErr func(addr string) error

func Listen(addr string) (chan *Conn, error) {
	verif.Touch()
	if ListenErr != nil {
		if err := ListenErr(addr); err != nil {
			return nil, err
		}
	}
	inMu.Lock()
	defer verif.Touch()
	defer inMu.Unlock()
	c := incoming[addr]
	if c == nil {
		c = make(chan *Conn)
		incoming[addr] = c
		Listening = append(Listening, addr)
	}
	return c, nil
}

// Dial delivers a connection to the listener at addr.
func Dial(addr string, s *Session) {
	inMu.Lock()
	c := incoming[addr]
	inMu.Unlock()
	c <- s.conn
}

// AcceptError makes one Accept of the listener at addr fail.
func AcceptError(addr string) {
	inMu.Lock()
	c := incoming[addr]
	inMu.Unlock()
	c <- nil
}
