// Package os models files, standard streams and process exit.
package os

import (
	"errors"
	"io/fs"
	"runtime"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

type FileMode = fs.FileMode
type PathError = fs.PathError

const (
	O_RDONLY      = env.O_RDONLY
	O_WRONLY      = env.O_WRONLY
	O_RDWR        = env.O_RDWR
	O_APPEND      = env.O_APPEND
	O_CREATE      = env.O_CREATE
	O_EXCL        = env.O_EXCL
	O_SYNC        = env.O_SYNC
	O_TRUNC       = env.O_TRUNC
	ModePerm      = fs.ModePerm
	PathSeparator = '/'
	SEEK_SET      = 0
	SEEK_CUR      = 1
	SEEK_END      = 2
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
	ErrInvalid    = fs.ErrInvalid
)

var Args = []string{"sinksmtp"}

type File struct {
	h   *env.Handle
	std int
}

var (
	Stdin  = &File{std: 3}
	Stdout = &File{std: 1}
	Stderr = &File{std: 2}
)

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := env.OpenFile(name, flag)
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std != 0 {
		return 0, errors.New("model: no stdin")
	}
	return f.h.Read(b)
}
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if env.WritePoints {
		runtime.Gosched()
		verif.Jitter()
	}
	if f.std != 0 {
		env.WriteStd(f.std, b)
		return len(b), nil
	}
	return f.h.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	return f.h.Sync()
}
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	return f.h.Close()
}
func (f *File) Name() string {
	if f.std != 0 {
		return "std"
	}
	return f.h.Path
}
func (f *File) Seek(off int64, whence int) (int64, error) { return f.h.Seek(off, whence) }
func (f *File) Truncate(n int64) error                    { return f.h.Truncate(int(n)) }
func (f *File) Chmod(m FileMode) error                    { return nil }
func (f *File) Fd() uintptr                               { return 3 }
func (f *File) Stat() (FileInfo, error)                   { return info{f.h.Path, f.h.Size(), f.h.IsDir()}, nil }

type FileInfo interface {
	Name() string
	Size() int64
	IsDir() bool
	Mode() FileMode
}
type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) IsDir() bool  { return i.dir }
func (i info) Mode() FileMode {
	if i.dir {
		return fs.ModeDir | 0777
	}
	return 0666
}

func Stat(name string) (FileInfo, error) {
	n, err := env.Stat(name)
	if err != nil {
		return nil, err
	}
	return info{name, int64(len(n.Data)), n.Dir}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Remove(name string) error                  { return env.Remove(name) }
func Rename(a, b string) error                  { return env.Rename(a, b) }
func Link(a, b string) error                    { return env.Link(a, b) }
func Mkdir(name string, perm FileMode) error    { return env.MkdirAll(name) }
func MkdirAll(name string, perm FileMode) error { return env.MkdirAll(name) }
func Chmod(name string, perm FileMode) error    { return nil }

var tmpN int

func CreateTemp(dir, pattern string) (*File, error) {
	tmpN++
	return OpenFile(dir+"/"+pattern+string(rune('0'+tmpN%10)), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			if err.Error() == "EOF" {
				return out, nil
			}
			return out, err
		}
	}
}
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func under(err error) error {
	if pe, ok := err.(*PathError); ok {
		return pe.Err
	}
	return err
}
func IsExist(err error) bool      { return err != nil && under(err) == ErrExist }
func IsNotExist(err error) bool   { return err != nil && under(err) == ErrNotExist }
func IsPermission(err error) bool { return err != nil && under(err) == ErrPermission }

func Getpid() int                       { return 4242 }
func Getppid() int                      { return 1 }
func Getuid() int                       { return 1000 }
func Getenv(k string) string            { return "" }
func LookupEnv(k string) (string, bool) { return "", false }
func Hostname() (string, error)         { return "localhost", nil }
func Getwd() (string, error)            { return "/", nil }
func TempDir() string                   { return "/tmp" }
func Exit(code int)                     { env.Exit(code) }
