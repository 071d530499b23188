package main

import "github.com/siebenmann/sinksmtp/zz/verif"

// A reference reading of rule expressions: tokens "T" (a match operation),
// "A" ('all'), "not", "or", "(", ")".
type zzGram struct {
	tok []string
	pos int
	n   int // match operations seen
	bad bool
}

func (g *zzGram) cur() string {
	if g.pos < len(g.tok) {
		return g.tok[g.pos]
	}
	return ""
}

func (g *zzGram) term() bool {
	switch g.cur() {
	case "T":
		g.pos++
		g.n++
		return zzT[g.n-1]
	case "A":
		g.pos++
		return true
	case "not":
		g.pos++
		return !g.term()
	case "(":
		g.pos++
		v := g.andl()
		if g.cur() != ")" {
			g.bad = true
		}
		g.pos++
		return v
	}
	g.bad = true
	g.pos++
	return false
}

func (g *zzGram) orl() bool {
	v := g.term()
	for g.cur() == "or" && !g.bad {
		g.pos++
		v = verif.Or(v, g.term())
	}
	return v
}

func (g *zzGram) andl() bool {
	v := g.orl()
	for !g.bad {
		switch g.cur() {
		case "T", "A", "not", "(":
			v = verif.And(v, g.orl())
		default:
			return v
		}
	}
	return v
}

// zzReadExpr returns the meaning of an expression, and whether it has one.
func zzReadExpr(tok []string) (bool, bool) {
	g := &zzGram{tok: tok}
	v := g.andl()
	return v, !g.bad && g.pos == len(g.tok)
}

// zzExprText writes the expression as rule text.
func zzExprText(tok []string) string {
	s := ""
	n := 0
	for _, t := range tok {
		switch t {
		case "T":
			s += zzOp(n) + " "
			n++
		case "A":
			s += "all "
		default:
			s += t + " "
		}
	}
	return s
}
