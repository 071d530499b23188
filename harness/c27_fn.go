package main

import (
	"bufio"
	"errors"
	"strings"

	"github.com/siebenmann/sinksmtp/zz/verif"
)

// specList reads a pattern file.
func specList(s string) []string {
	var r []string
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != '\n' {
			i++
		}
		l := s[:i]
		if i < len(s) {
			i++
		}
		s = s[i:]
		for len(l) > 0 && zzSpace(l[0]) {
			l = l[1:]
		}
		for len(l) > 0 && zzSpace(l[len(l)-1]) {
			l = l[:len(l)-1]
		}
		if len(l) > 0 && l[0] != '#' {
			r = append(r, verif.Lower(l))
		}
	}
	return r
}

func zzSpace(c byte) bool {
	return verif.Or(c == ' ', verif.And(c >= 9, c <= 13))
}

// zzPart gives its text and then the error, in pieces.
type zzPart struct {
	s    string
	n    int
	err  error
	with bool // the error comes together with the last bytes
}

func (p *zzPart) Read(b []byte) (int, error) {
	n := p.n
	if n > len(p.s) {
		n = len(p.s)
	}
	if n == 0 {
		return 0, p.err
	}
	copy(b, p.s[:n])
	p.s = p.s[n:]
	if p.with && len(p.s) == 0 {
		return n, p.err
	}
	return n, nil
}

// every 7-bit file of up to 5 (thorough: 7) bytes
func VerifC27_any() {
	n := 5
	if verif.Deep() {
		n = 7
	}
	s := verif.String("file", n)
	verif.Assume(zzASCII(s))
	zzC27Check(s, strings.NewReader(s))
}

func zzC27Check(s string, rdr interface {
	Read([]byte) (int, error)
}) {
	a, err := readList(bufio.NewReader(rdr))
	want := specList(s)
	verif.Observe("got", len(a), a)
	verif.Observe("want", len(want), want)
	verif.Assert(err == nil, "a readable pattern file gives an error")
	verif.Assert(len(a) == len(want), "a pattern file does not give one entry per line")
	for i := range want {
		if i < len(a) {
			verif.Assert(verif.EqStr(a[i], want[i]), "an entry of a pattern file is not the line")
		}
	}
}

// files of up to 5 (thorough: 7) bytes of newline, blank, '#', 'A', 'b',
// read in pieces of any size; or a read error after any of it
func VerifC27_pieces() {
	n := 5
	if verif.Deep() {
		n = 7
	}
	s := zzStr("file", 0, n, "\n #Ab")
	p := &zzPart{s: s, n: 1 + verif.Choose("piece", 3), err: errors.New("io"), with: verif.Bool("with")}
	a, err := readList(bufio.NewReader(p))
	verif.Observe("got", len(a), a)
	verif.Assert(err != nil, "a read error is taken for the end of a pattern file")
}
