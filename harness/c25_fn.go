package main

import (
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// A reference tokeniser: kinds 'w' word or keyword, 'q' quoted, 'f' file
// name, ',' '(' ')' ';' punctuation, 'n' end of line, 'e' end of text,
// '!' error.
type zzTok struct {
	kind byte
	val  string
	pos  int
}

func zzBlank(c byte) bool { return c == ' ' || c == '\t' }

func zzStop(c byte) bool {
	switch c {
	case '(', ')', ',', ';', '\n', ' ', '\t':
		return true
	}
	return false
}

func specTokens(s string) []zzTok {
	var r []zzTok
	i := 0
	bol := true
	for {
		for i < len(s) && zzBlank(s[i]) {
			i++
		}
		if i == len(s) {
			return append(r, zzTok{'e', "", i})
		}
		c := s[i]
		switch {
		case c == '\\' && i+1 < len(s) && s[i+1] == '\n':
			i += 2
			continue
		case c == '\n':
			if !bol {
				r = append(r, zzTok{'n', "\n", i})
			}
			i++
			bol = true
			continue
		case bol && c == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		bol = false
		switch c {
		case '(', ')', ';', ',':
			r = append(r, zzTok{c, s[i : i+1], i})
			i++
			if c == ',' && (i == len(s) || s[i] == '\n' || zzBlank(s[i])) {
				return append(r, zzTok{'!', "", i})
			}
		case '"':
			at := i
			i++
			var v []byte
			for {
				if i == len(s) {
					return append(r, zzTok{'!', "", at})
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' && i+1 < len(s) && (s[i+1] == '\\' || s[i+1] == '"') {
					i++
				}
				v = append(v, s[i])
				i++
			}
			r = append(r, zzTok{'q', string(v), at})
		default:
			at := i
			for i < len(s) && !zzStop(s[i]) {
				i++
			}
			w := s[at:i]
			if verif.EqStr(w, "file:") {
				return append(r, zzTok{'!', "", at})
			}
			if verif.Or(w[0] == '/', zzHasPrefix(w, "./"), zzHasPrefix(w, "file:")) {
				r = append(r, zzTok{'f', w, at})
			} else {
				r = append(r, zzTok{'w', w, at})
			}
		}
	}
}

var zzWords = []string{"include", "@connect", "@helo", "@from", "@to", "@data", "@message",
	"accept", "reject", "stall", "set-with", "or", "not", "all", "from", "to", "helo", "host",
	"from-has", "to-has", "helo-has", "tls", "dns", "ip", "dnsbl", "source", "dbl", "with",
	"message", "note", "savedir", "tls-opt", "make-yakker", "ehlo", "none", "bogus", "nodots",
	"bareip", "properip", "myip", "remip", "otherip", "nodns", "inconsistent", "noforward",
	"unqualified", "route", "quoted", "noat", "garbage", "resolves", "baddom", "unknown",
	"bad", "on", "off", "good", "exists", "any"}

func zzIsWord(w string) bool {
	r := false
	for _, k := range zzWords {
		r = verif.Or(r, verif.EqStr(w, k))
	}
	return r
}

// zzLexCheck compares the tokens of a text with the reference, and makes sure
// the tokeniser ends.
func zzLexCheck(s string) {
	g0 := verif.Goroutines()
	l := lex(s)
	want := specTokens(s)
	for _, w := range want {
		it := l.nextItem()
		verif.Observe("token", int(it.typ), it.val, it.pos)
		k := byte('w')
		switch it.typ {
		case itemError:
			k = '!'
		case itemEOF:
			k = 'e'
		case itemEOL:
			k = 'n'
		case itemComma:
			k = ','
		case itemLparen:
			k = '('
		case itemRparen:
			k = ')'
		case itemSemicolon:
			k = ';'
		case itemFilename:
			k = 'f'
		}
		wk := w.kind
		if wk == 'q' {
			wk = 'w'
		}
		verif.Observe("want", string(rune(w.kind)), w.val, w.pos)
		verif.Assert(k == wk, "a token is not of the documented kind")
		if k != wk {
			return
		}
		if k == '!' {
			break
		}
		verif.Assert(it.pos == w.pos, "a token does not carry its position")
		if k == 'e' {
			break
		}
		if k != 'n' {
			verif.Assert(verif.EqStr(it.val, w.val), "a token does not have the text it was written as")
		}
		if k == 'w' {
			isk := it.typ > itemKeywords
			verif.Assert(isk || it.typ == itemValue, "a word is neither keyword nor value")
			verif.Assert(verif.Iff(isk, verif.And(w.kind == 'w', zzIsWord(w.val))), "not exactly the unquoted keywords are keywords")
		}
		ln, lp := l.lineInfo(it.pos)
		wl, wp := 1, 1
		for j := 0; j < it.pos; j++ {
			if s[j] == '\n' {
				wl++
				wp = 1
			} else {
				wp++
			}
		}
		verif.Assert(ln == wl && lp == wp, "the line and column of a token are wrong")
	}
	l.drain()
	verif.Quiesce()
	verif.Assert(verif.Goroutines() == g0, "the tokeniser does not end")
}

// every text of up to 3 (thorough: 5) bytes, any byte values
func VerifC25_any() {
	n := 3
	if verif.Deep() {
		n = 5
	}
	zzLexCheck(verif.String("text", n))
}

// every text of up to 4 (thorough: 6) bytes that are blanks, newlines,
// backslashes, quotes, '#', commas, parentheses or letters
func VerifC25_special() {
	n := 4
	if verif.Deep() {
		n = 6
	}
	zzLexCheck(zzStr("text", 0, n, "\t\n \"#,)\\a"))
}

// every quoted string of up to 3 (thorough: 6) bytes from blank, newline, quote, backslash,
// '#', comma and a letter, unterminated ones included, with up to one arbitrary byte behind
func VerifC25_quote() {
	n := 3
	if verif.Deep() {
		n = 6
	}
	zzLexCheck("\"" + zzStr("text", 0, n, "\n \"#,\\a") + "\"" + verif.String("tail", 1))
}

// a backslash before any byte in a quoted string, with up to one (thorough:
// two) arbitrary bytes before and after it inside the quotes
func VerifC25_escape() {
	n := 1
	if verif.Deep() {
		n = 2
	}
	zzLexCheck("x \"" + verif.String("before", n) + "\\" + verif.StringN("escaped", 1) + verif.String("after", n) + "\" y")
}

// every keyword with up to one arbitrary byte before and after, bare and in
// quotes, in place of an argument or at the start of a line
func VerifC25_keyword() {
	k := zzWords[verif.Choose("word", len(zzWords))]
	switch verif.Choose("form", 4) {
	case 0:
		zzLexCheck(verif.String("before", 1) + k)
	case 1:
		zzLexCheck(k + verif.String("after", 1) + " x")
	case 2:
		zzLexCheck("x \"" + k + "\"")
	default:
		i := verif.Choose("at", len(k))
		zzLexCheck(k[:i] + verif.StringN("mut", 1) + k[i+1:])
	}
}

// every word starting file: / . with up to 2 arbitrary bytes behind
func VerifC25_file() {
	p := []string{"file:", "/", "./", ".", "FILE:", "x file:", "file"}[verif.Choose("prefix", 7)]
	zzLexCheck(p + verif.String("rest", 2))
}
