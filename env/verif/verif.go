// Package verif is the interface between harnesses and the checker.  Under
// the symbolic interpreter these functions are built in; the bodies below are
// the native versions, which take the values from a counterexample file and
// are used to replay it against the compiled code.
package verif

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// RuntimeError is the interpreter's stand-in for runtime.Error values.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type input struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	Int   int64  `json:"int"`
	Str   []int  `json:"str"`
}

var mu sync.Mutex
var queue = map[string][]input{}
var trace []string
var activity int64
var missing []string

// RunNative runs the harness named in the environment, if any.
func RunNative(m map[string]func()) {
	jitter = os.Getenv("VERIF_JITTER") != ""
	name := os.Getenv("VERIF_HARNESS")
	if name == "" {
		return
	}
	f := m[name]
	if f == nil {
		fmt.Println("VERIF-NO-HARNESS", name)
		os.Exit(9)
	}
	debug.SetMaxStack(64 << 20)
	if b, err := os.ReadFile(os.Getenv("VERIF_REPLAY")); err == nil {
		var x struct {
			Inputs []input `json:"inputs"`
		}
		if err := json.Unmarshal(b, &x); err != nil {
			fmt.Println("VERIF-BAD-REPLAY", err)
			os.Exit(9)
		}
		for _, i := range x.Inputs {
			queue[i.Label] = append(queue[i.Label], i)
		}
	}
	f()
	finish()
	fmt.Println("VERIF-DONE")
	os.Exit(0)
}

func finish() {
	mu.Lock()
	defer mu.Unlock()
	if t := os.Getenv("VERIF_TRACE"); t != "" {
		os.WriteFile(t, []byte(strings.Join(trace, "\n")), 0644)
	}
}

func pop(label string) (input, bool) {
	mu.Lock()
	defer mu.Unlock()
	q := queue[label]
	if len(q) == 0 {
		missing = append(missing, label)
		return input{}, false
	}
	queue[label] = q[1:]
	return q[0], true
}

func Symbolic() bool { return false }

// Deep reports the thorough tier (larger bounds).
func Deep() bool { return os.Getenv("VERIF_DEEP") != "" }

func Bool(label string) bool { i, _ := pop(label); return i.Int != 0 }
func Byte(label string) byte { i, _ := pop(label); return byte(i.Int) }
func Int(label string, lo, hi int) int {
	i, ok := pop(label)
	if !ok {
		return lo
	}
	return int(i.Int)
}

// Choose forks; it stands for a structural choice.
func Choose(label string, n int) int { i, _ := pop(label); return int(i.Int) }

func str(label string, n int) string {
	i, ok := pop(label)
	b := make([]byte, n)
	for k := range b {
		b[k] = 'a'
		if ok && k < len(i.Str) {
			b[k] = byte(i.Str[k])
		}
	}
	return string(b)
}

func StringN(label string, n int) string { return str(label, n) }

// StringIn has bytes from the given (sorted) alphabet.
func StringIn(label string, n int, alphabet string) string { return str(label, n) }

// String has any length up to max.
func String(label string, max int) string {
	return StringN(label, Choose(label+".len", max+1))
}

func Assume(c bool) {
	if !c {
		Reject()
	}
}

func Reject() {
	fmt.Println("VERIF-ASSUME-FAILED")
	os.Exit(4)
}

func Assert(c bool, msg string) {
	if !c {
		finish()
		fmt.Println("VERIF-ASSERT-FAILED:", msg)
		os.Exit(3)
	}
}

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool   { return !a || b }
func Iff(a, b bool) bool       { return a == b }
func EqStr(a, b string) bool   { return a == b }
func Concrete(s string) string { return s }
func ConcreteInt(i int) int    { return i }
func IsConcrete(s string) bool { return true }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Lower is ASCII lower-casing without forking.
func Lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

func text(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return fmt.Sprintf("%q", x)
	case []string:
		var ss []string
		for _, s := range x {
			ss = append(ss, fmt.Sprintf("%q", s))
		}
		return "[" + strings.Join(ss, ",") + "]"
	case []byte:
		var ss []string
		for _, s := range x {
			ss = append(ss, fmt.Sprint(s))
		}
		return "[" + strings.Join(ss, ",") + "]"
	}
	return fmt.Sprintf("%d", v)
}

// Observe records values; replayed paths must observe the same ones.
func Observe(label string, vals ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	for _, v := range vals {
		if b, ok := v.(bool); ok {
			trace = append(trace, label+"="+fmt.Sprint(b))
			continue
		}
		trace = append(trace, label+"="+text(v))
	}
}

func Cover(label string)   {}
func Races()               {}
func Interleave(n int)     {}
func MapOrder(on bool)     {}
func Unsupported(s string) { fmt.Println("VERIF-UNSUPPORTED", s); os.Exit(6) }

// Goroutines counts the goroutines alive.
func Goroutines() int {
	n := runtime.NumGoroutine()
	for same := 0; same < 10; {
		time.Sleep(2 * time.Millisecond)
		if m := runtime.NumGoroutine(); m == n {
			same++
		} else {
			n, same = m, 0
		}
	}
	return n
}

var jitter bool

// Jitter delays the goroutine at random when a schedule is searched for.
func Jitter() {
	if !jitter {
		return
	}
	switch rand.Intn(6) {
	case 0:
		time.Sleep(time.Duration(rand.Intn(3000)) * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
}

// Touch notes activity of the environment (native quiescence detection).
func Touch() { atomic.AddInt64(&activity, 1) }

// Quiesce waits until every other goroutine is blocked.
func Quiesce() {
	last := atomic.LoadInt64(&activity)
	quiet := 0
	for quiet < 8 {
		time.Sleep(2 * time.Millisecond)
		n := atomic.LoadInt64(&activity)
		if n == last {
			quiet++
		} else {
			quiet = 0
			last = n
		}
	}
}
