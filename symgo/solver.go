package main

// A long-lived SMT solver process driven incrementally.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // asserted terms, one push level each
	gen     int64   // definitions issued to this process carry this generation
	bin     []string
	queries int64
	sat     int64
	unsat   int64
	unknown int64
	errs    int64
	lastErr string
	time    time.Duration
	dump    io.Writer
}

var solverGen int64

func newSolver(bin []string) *Solver {
	s := &Solver{bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(s.bin[0], s.bin[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.bin, err))
	}
	s.cmd = cmd
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = s.stack[:0]
	solverGenMu.Lock()
	solverGen++
	s.gen = solverGen
	solverGenMu.Unlock()
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.inRaw.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) send(str string) {
	s.in.WriteString(str)
	if s.dump != nil {
		io.WriteString(s.dump, str)
	}
}

func (s *Solver) define(t *Term) {
	if t.op == opConst || t.defGen == s.gen {
		return
	}
	// iterative post-order to avoid deep host recursion on long chains
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == opConst || f.t.defGen == s.gen {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		for f.i < 3 {
			switch f.i {
			case 0:
				ch = f.t.a
			case 1:
				ch = f.t.b
			case 2:
				ch = f.t.c
			}
			f.i++
			if ch != nil && ch.op != opConst && ch.defGen != s.gen {
				break
			}
			ch = nil
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		x := f.t
		if x.op == opVar {
			s.send("(declare-const " + x.ref() + " " + x.sortName() + ")\n")
		} else {
			s.send("(define-fun " + x.ref() + " () " + x.sortName() + " " + x.body() + ")\n")
		}
		x.defGen = s.gen
		st = st[:len(st)-1]
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if i < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-i))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		s.define(pc[i])
		s.send("(push 1)\n(assert " + pc[i].ref() + ")\n")
		s.stack = append(s.stack, pc[i])
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "eof"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

type Sat int

const (
	Unknown Sat = iota
	IsSat
	IsUnsat
)

// Check decides pc && extra. On sat it returns values of vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Sat, map[*Term]uint64) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	l := s.readLine()
	var res Sat
	var model map[*Term]uint64
	switch l {
	case "sat":
		s.sat++
		res = IsSat
		model = map[*Term]uint64{}
		var known []*Term
		for _, v := range vars {
			if v.defGen == s.gen {
				known = append(known, v)
			}
		}
		if len(known) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range known {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			s.readModel(known, model)
		}
	case "unsat":
		s.unsat++
		res = IsUnsat
	case "unknown":
		s.unknown++
		res = Unknown
	default:
		s.errs++
		s.lastErr = l
		s.unknown++
		s.restart()
		return Unknown, nil
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, model
}

// readModel parses ((|x| #x00) (|y| true)).
func (s *Solver) readModel(vars []*Term, model map[*Term]uint64) {
	byName := make(map[string]*Term, len(vars))
	for _, v := range vars {
		byName[v.name] = v
	}
	depth := 0
	var cur strings.Builder
	var toks []string
	flush := func() {
		if cur.Len() > 0 {
			toks = append(toks, cur.String())
			cur.Reset()
		}
	}
	inbar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.errs++
			s.lastErr = "eof in model"
			return
		}
		if inbar {
			if b == '|' {
				inbar = false
				toks = append(toks, "|"+cur.String())
				cur.Reset()
			} else {
				cur.WriteByte(b)
			}
			continue
		}
		switch b {
		case '|':
			inbar = true
		case '(':
			flush()
			depth++
		case ')':
			flush()
			depth--
			if depth == 0 {
				goto done
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			cur.WriteByte(b)
		}
	}
done:
	for i := 0; i+1 < len(toks); i += 2 {
		n := strings.TrimPrefix(toks[i], "|")
		v, ok := byName[n]
		if !ok {
			s.errs++
			s.lastErr = "model: unknown variable " + n
			return
		}
		val := toks[i+1]
		switch {
		case val == "true":
			model[v] = 1
		case val == "false":
			model[v] = 0
		case strings.HasPrefix(val, "#x"):
			u, _ := strconv.ParseUint(val[2:], 16, 64)
			model[v] = u
		case strings.HasPrefix(val, "#b"):
			u, _ := strconv.ParseUint(val[2:], 2, 64)
			model[v] = u
		default:
			s.errs++
			s.lastErr = "model: bad value " + val
		}
	}
}
