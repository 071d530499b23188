// Package time models the clock.  Instants are int64 nanoseconds; Format
// renders an injective, fixed-width text.
package time

import (
	"fmt"
	"strings"
	rt "time"

	"github.com/siebenmann/sinksmtp/zz/env"
)

type Duration = rt.Duration
type Month = rt.Month
type Weekday = rt.Weekday

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour

	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Stamp       = rt.Stamp
)

type Location struct{}

var UTC = &Location{}
var Local = &Location{}

type Time struct{ ns int64 }

func Now() Time                                { return Time{env.Now()} }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Unix(s, ns int64) Time                    { return Time{s*1000000000 + ns} }
func ParseDuration(s string) (Duration, error) { return rt.ParseDuration(s) }

func (t Time) Sub(u Time) Duration   { return Duration(t.ns - u.ns) }
func (t Time) Add(d Duration) Time   { return Time{t.ns + int64(d)} }
func (t Time) After(u Time) bool     { return t.ns > u.ns }
func (t Time) Before(u Time) bool    { return t.ns < u.ns }
func (t Time) Equal(u Time) bool     { return t.ns == u.ns }
func (t Time) IsZero() bool          { return t.ns == 0 }
func (t Time) Unix() int64           { return t.ns / 1000000000 }
func (t Time) UnixNano() int64       { return t.ns }
func (t Time) UTC() Time             { return t }
func (t Time) Local() Time           { return t }
func (t Time) In(l *Location) Time   { return t }
func (t Time) Round(d Duration) Time { return t }
func (t Time) Truncate(d Duration) Time {
	if d <= 0 {
		return t
	}
	return Time{t.ns - t.ns%int64(d)}
}

// Format renders the instant at the resolution the layout has.
func (t Time) Format(layout string) string {
	res := int64(1)
	has := func(x string) bool { return strings.Contains(layout, x) }
	switch {
	case layout == "" || has(".0") || has(".9"):
	case has("05"):
		res = int64(Second)
	case has("04"):
		res = int64(Minute)
	case has("15") || has("03"):
		res = int64(Hour)
	default:
		res = 24 * int64(Hour)
	}
	n := t.ns
	if layout != "" && !has("02") && !has("_2") {
		n = n % (24 * int64(Hour))
	}
	return fmt.Sprintf("T%016x", uint64(n/res))
}
func (t Time) String() string { return t.Format("") }

func Sleep(d Duration) {}

type Timer struct{ C <-chan Time }

func (t *Timer) Stop() bool            { return true }
func (t *Timer) Reset(d Duration) bool { return true }

func NewTimer(d Duration) *Timer            { return &Timer{C: make(chan Time)} }
func After(d Duration) <-chan Time          { return make(chan Time) }
func AfterFunc(d Duration, f func()) *Timer { return &Timer{} }

type Ticker struct{ C <-chan Time }

func (t *Ticker) Stop()            {}
func NewTicker(d Duration) *Ticker { return &Ticker{C: make(chan Time)} }
func Tick(d Duration) <-chan Time  { return make(chan Time) }
