// Package flag: values come from the harness.
package flag

import (
	"fmt"

	"github.com/siebenmann/sinksmtp/zz/env"
	"github.com/siebenmann/sinksmtp/zz/os"
	"github.com/siebenmann/sinksmtp/zz/time"
)

var Usage = func() {}
var known = map[string]bool{}
var setters []func()

func BoolVar(p *bool, name string, def bool, usage string) {
	*p = def
	known[name] = true
	setters = append(setters, func() {
		if v, ok := env.FlagBool[name]; ok {
			*p = v
		}
	})
}
func StringVar(p *string, name, def, usage string) {
	*p = def
	known[name] = true
	setters = append(setters, func() {
		if v, ok := env.FlagStr[name]; ok {
			*p = v
		}
	})
}
func IntVar(p *int, name string, def int, usage string) {
	*p = def
	known[name] = true
	setters = append(setters, func() {
		if v, ok := env.FlagInt[name]; ok {
			*p = v
		}
	})
}
func DurationVar(p *time.Duration, name string, def time.Duration, usage string) {
	*p = def
	known[name] = true
	setters = append(setters, func() {
		if v, ok := env.FlagDur[name]; ok {
			*p = time.Duration(v)
		}
	})
}
func Bool(name string, def bool, usage string) *bool {
	p := new(bool)
	BoolVar(p, name, def, usage)
	return p
}
func String(name, def, usage string) *string {
	p := new(string)
	StringVar(p, name, def, usage)
	return p
}
func Int(name string, def int, usage string) *int {
	p := new(int)
	IntVar(p, name, def, usage)
	return p
}
func Duration(name string, def time.Duration, usage string) *time.Duration {
	p := new(time.Duration)
	DurationVar(p, name, def, usage)
	return p
}

func bad(n string) {
	fmt.Fprintf(os.Stderr, "flag provided but not defined: -%s\n", n)
	Usage()
	os.Exit(2)
}

func Parse() {
	for n := range env.FlagStr {
		if !known[n] {
			bad(n)
		}
	}
	for n := range env.FlagBool {
		if !known[n] {
			bad(n)
		}
	}
	for n := range env.FlagInt {
		if !known[n] {
			bad(n)
		}
	}
	for n := range env.FlagDur {
		if !known[n] {
			bad(n)
		}
	}
	for _, s := range setters {
		s()
	}
}
func Parsed() bool   { return true }
func NArg() int      { return len(env.FlagArgs) }
func Args() []string { return env.FlagArgs }
func Arg(i int) string {
	if i < 0 || i >= len(env.FlagArgs) {
		return ""
	}
	return env.FlagArgs[i]
}
func PrintDefaults() {}
