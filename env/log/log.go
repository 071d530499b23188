package log

import (
	"fmt"
	"io"

	"github.com/siebenmann/sinksmtp/zz/os"
)

const (
	LstdFlags = 3
	Ldate     = 1
	Ltime     = 2
)

var out io.Writer = os.Stderr

type Logger struct {
	w io.Writer
	p string
}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix} }
func (l *Logger) Printf(f string, a ...interface{})    { fmt.Fprintf(l.w, l.p+f+"\n", a...) }
func (l *Logger) Println(a ...interface{})             { fmt.Fprintln(l.w, a...) }
func (l *Logger) Print(a ...interface{})               { fmt.Fprint(l.w, a...) }

func SetFlags(int)                      {}
func SetPrefix(string)                  {}
func SetOutput(w io.Writer)             { out = w }
func Printf(f string, a ...interface{}) { fmt.Fprintf(out, f+"\n", a...) }
func Println(a ...interface{})          { fmt.Fprintln(out, a...) }
func Print(a ...interface{})            { fmt.Fprint(out, a...) }
func Fatalf(f string, a ...interface{}) { Printf(f, a...); os.Exit(1) }
func Fatal(a ...interface{})            { Print(a...); os.Exit(1) }
func Panicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }
