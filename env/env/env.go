// Package env is the state behind the environment models: DNS answers, the
// file system, the clock, command-line flags and client connections.  The
// harness sets it up; the model packages use it.
package env

import (
	"errors"
	"io/fs"
	rnet "net"
	"sync"
	"syscall"

	"github.com/siebenmann/sinksmtp/zz/verif"
)

// ---- DNS

var NoHost = &rnet.DNSError{Err: "no such host", Name: "x", IsNotFound: true}

var LookupIP = func(name string) ([]rnet.IP, error) { return nil, NoHost }
var LookupMX = func(name string) ([]*rnet.MX, error) { return nil, NoHost }
var LookupAddr = func(ip string) ([]string, error) { return nil, NoHost }
var LookupTXT = func(name string) ([]string, error) { return nil, NoHost }

// DNSLog lists the names looked up, with a type prefix.
var DNSLog []string
var dnsMu sync.Mutex

func NoteDNS(kind, name string) {
	verif.Touch()
	dnsMu.Lock()
	DNSLog = append(DNSLog, kind+" "+name)
	dnsMu.Unlock()
}

// ---- clock

// NowNS is the time in nanoseconds since some epoch; never zero.
var NowNS int64 = 1000000000000000

// OnNow, if set, is called before each reading of the clock.
var OnNow func()

func Now() int64 {
	if OnNow != nil {
		OnNow()
	}
	return NowNS
}

// ---- files

type Inode struct {
	Data []byte
	Dir  bool
}

type FileOp struct {
	Op   string
	Path string
	Err  bool
}

var fsMu sync.Mutex
var Files = map[string]*Inode{}
var Ops []FileOp

// Fault decides whether an operation fails.
var Fault func(op, path string) error

// WritePoints lets other goroutines run before every write (with Interleave).
var WritePoints bool

// WriteFault may shorten a write: it returns the number of bytes written and
// the error.
var WriteFault func(path string, n int) (int, error)

var crashAt = -1

// CrashWrite, called from WriteFault, lets the process die when n bytes are
// written: the writing goroutine never returns.
func CrashWrite(path string, n int) { crashAt = n }

// ReadFault may fail a read at an offset.
var ReadFault func(path string, off int) error

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
	ErrIO         = errors.New("input/output error")
	ErrNoSpace    = errors.New("no space left on device")
)

var _ = syscall.EIO

func fault(op, path string) error {
	verif.Touch()
	var err error
	if Fault != nil {
		err = Fault(op, path)
	}
	fsMu.Lock()
	Ops = append(Ops, FileOp{op, path, err != nil})
	fsMu.Unlock()
	return err
}

func Put(path, data string) {
	fsMu.Lock()
	Files[path] = &Inode{Data: []byte(data)}
	fsMu.Unlock()
}

func Mkdir(path string) {
	fsMu.Lock()
	Files[path] = &Inode{Dir: true}
	fsMu.Unlock()
}

// Get returns the contents of a file.
func Get(path string) (string, bool) {
	fsMu.Lock()
	defer fsMu.Unlock()
	n := Files[path]
	if n == nil || n.Dir {
		return "", false
	}
	return string(n.Data), true
}

// Paths lists the plain files below a directory.
func Paths(dir string) []string {
	fsMu.Lock()
	defer fsMu.Unlock()
	var r []string
	for p, n := range Files {
		if !n.Dir && len(p) > len(dir) && p[:len(dir)] == dir && p[len(dir)] == '/' {
			r = append(r, p)
		}
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200
)

// Handle is an open file.
type Handle struct {
	Path   string
	node   *Inode
	off    int
	app    bool
	closed bool
	wr     bool
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func dirOf(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return ""
}

func OpenFile(path string, flag int) (*Handle, error) {
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	if err := fault(op, path); err != nil {
		return nil, perr("open", path, err)
	}
	fsMu.Lock()
	defer fsMu.Unlock()
	n := Files[path]
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", path, ErrNotExist)
		}
		if d := dirOf(path); d != "" {
			dn := Files[d]
			if dn == nil || !dn.Dir {
				return nil, perr("open", path, ErrNotExist)
			}
		}
		n = &Inode{}
		Files[path] = n
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", path, ErrExist)
		}
		if n.Dir && flag&(O_WRONLY|O_RDWR) != 0 {
			return nil, perr("open", path, errors.New("is a directory"))
		}
		if flag&O_TRUNC != 0 {
			n.Data = nil
		}
	}
	return &Handle{Path: path, node: n, app: flag&O_APPEND != 0, wr: flag&(O_WRONLY|O_RDWR) != 0}, nil
}

func (h *Handle) Read(b []byte) (int, error) {
	if h.closed {
		return 0, perr("read", h.Path, ErrClosed)
	}
	if h.node.Dir {
		return 0, perr("read", h.Path, errors.New("is a directory"))
	}
	if ReadFault != nil {
		if err := ReadFault(h.Path, h.off); err != nil {
			return 0, perr("read", h.Path, err)
		}
	}
	fsMu.Lock()
	defer fsMu.Unlock()
	if h.off >= len(h.node.Data) {
		return 0, errEOF
	}
	end := len(h.node.Data)
	if ReadFault != nil {
		// deliver what comes before the fault
		for i := h.off + 1; i < end; i++ {
			if ReadFault(h.Path, i) != nil {
				end = i
			}
		}
	}
	n := copy(b, h.node.Data[h.off:end])
	h.off += n
	return n, nil
}

func (h *Handle) Write(b []byte) (int, error) {
	verif.Touch()
	if h.closed {
		return 0, perr("write", h.Path, ErrClosed)
	}
	if !h.wr {
		return 0, perr("write", h.Path, errors.New("bad file descriptor"))
	}
	n := len(b)
	var err error
	if WriteFault != nil {
		n, err = WriteFault(h.Path, len(b))
	}
	if crashAt >= 0 {
		// the process dies during this write
		n = crashAt
		crashAt = -1
		fsMu.Lock()
		h.node.Data = append(append([]byte{}, h.node.Data...), b[:n]...)
		fsMu.Unlock()
		verif.Touch()
		select {}
	}
	fsMu.Lock()
	defer fsMu.Unlock()
	Ops = append(Ops, FileOp{"write", h.Path, err != nil})
	if h.app {
		h.off = len(h.node.Data)
	}
	d := append([]byte{}, h.node.Data[:h.off]...)
	d = append(d, b[:n]...)
	if h.off+n < len(h.node.Data) {
		d = append(d, h.node.Data[h.off+n:]...)
	}
	h.node.Data = d
	h.off += n
	if err != nil {
		return n, perr("write", h.Path, err)
	}
	return n, nil
}

func (h *Handle) Sync() error {
	if h.closed {
		return perr("sync", h.Path, ErrClosed)
	}
	if err := fault("sync", h.Path); err != nil {
		return perr("sync", h.Path, err)
	}
	return nil
}

func (h *Handle) Close() error {
	if h.closed {
		return perr("close", h.Path, ErrClosed)
	}
	h.closed = true
	if err := fault("close", h.Path); err != nil {
		return perr("close", h.Path, err)
	}
	return nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		h.off = int(off)
	case 1:
		h.off += int(off)
	case 2:
		h.off = len(h.node.Data) + int(off)
	}
	return int64(h.off), nil
}

func (h *Handle) Size() int64 { return int64(len(h.node.Data)) }
func (h *Handle) IsDir() bool { return h.node.Dir }

func (h *Handle) Truncate(n int) error {
	fsMu.Lock()
	defer fsMu.Unlock()
	if n < len(h.node.Data) {
		h.node.Data = append([]byte{}, h.node.Data[:n]...)
	}
	return nil
}

func Remove(path string) error {
	if err := fault("remove", path); err != nil {
		return perr("remove", path, err)
	}
	fsMu.Lock()
	defer fsMu.Unlock()
	if Files[path] == nil {
		return perr("remove", path, ErrNotExist)
	}
	delete(Files, path)
	return nil
}

func Rename(a, b string) error {
	if err := fault("rename", a); err != nil {
		return perr("rename", a, err)
	}
	fsMu.Lock()
	defer fsMu.Unlock()
	n := Files[a]
	if n == nil {
		return perr("rename", a, ErrNotExist)
	}
	delete(Files, a)
	Files[b] = n
	return nil
}

func Link(a, b string) error {
	if err := fault("link", a); err != nil {
		return perr("link", a, err)
	}
	fsMu.Lock()
	defer fsMu.Unlock()
	n := Files[a]
	if n == nil {
		return perr("link", a, ErrNotExist)
	}
	if Files[b] != nil {
		return perr("link", b, ErrExist)
	}
	Files[b] = n
	return nil
}

func Stat(path string) (*Inode, error) {
	if err := fault("stat", path); err != nil {
		return nil, perr("stat", path, err)
	}
	fsMu.Lock()
	defer fsMu.Unlock()
	n := Files[path]
	if n == nil {
		return nil, perr("stat", path, ErrNotExist)
	}
	return n, nil
}

func MkdirAll(path string) error {
	if err := fault("mkdir", path); err != nil {
		return perr("mkdir", path, err)
	}
	Mkdir(path)
	return nil
}

// ---- standard streams and exit

var Stderr, Stdout []byte
var outMu sync.Mutex

func WriteStd(which int, b []byte) {
	verif.Touch()
	outMu.Lock()
	defer outMu.Unlock()
	if which == 1 {
		Stdout = append(Stdout, b...)
	} else {
		Stderr = append(Stderr, b...)
	}
}

var Exited bool
var ExitCode int

// Exit stops the calling goroutine for good and notes that the program ended.
func Exit(code int) {
	outMu.Lock()
	Exited = true
	ExitCode = code
	outMu.Unlock()
	verif.Touch()
	select {}
}

// ---- flags

var FlagStr = map[string]string{}
var FlagInt = map[string]int{}
var FlagBool = map[string]bool{}
var FlagDur = map[string]int64{}
var FlagArgs []string

// ---- ideal hash function: equal digests if and only if equal data

type hashEnt struct {
	kind int
	data string
}

var hashTab []hashEnt
var hashMu sync.Mutex

func Digest(kind int, data string, size int) []byte {
	hashMu.Lock()
	defer hashMu.Unlock()
	idx := -1
	for i := range hashTab {
		if hashTab[i].kind == kind && len(hashTab[i].data) == len(data) && hashTab[i].data == data {
			idx = i
			break
		}
	}
	if idx < 0 {
		idx = len(hashTab)
		hashTab = append(hashTab, hashEnt{kind, data})
	}
	d := make([]byte, size)
	d[0] = byte(0xd0 + kind)
	d[size-2] = byte(idx >> 8)
	d[size-1] = byte(idx)
	return d
}

var errEOF = ioEOF()
