package main

// Path exploration: decision replay, solver queries, work sharing.

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	kind   byte // 'b' branch, 'c' concretise, 'n' choose
	taken  bool
	forced bool
	v      uint64
}

type Item struct {
	dec   []Dec
	model map[string]uint64
}

type InputRec struct {
	label string
	kind  string // "int", "bool", "str", "choose"
	terms []*Term
	off   int64
	val   uint64
}

type obsRec struct {
	label string
	v     Value
}

type Path struct {
	item   *Item
	trail  []Dec
	pc     []*Term
	known  map[*Term]bool
	vars   []*Term
	nlabel map[string]int
	inputs []InputRec
	obs    []obsRec
	concs  map[*Term]uint64
	incon  string
	nocex  bool
}

type Violation struct {
	Kind   string            `json:"kind"`
	Msg    string            `json:"msg"`
	Inputs []ReplayInput     `json:"inputs"`
	Sched  bool              `json:"sched"`
	Info   map[string]string `json:"info,omitempty"`
}

type ReplayInput struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	Int   int64  `json:"int"`
	Str   []int  `json:"str,omitempty"`
}

type Sample struct {
	Inputs []ReplayInput `json:"inputs"`
	Obs    []string      `json:"obs"`
	End    string        `json:"end"`
}

type Worker struct {
	id            int
	ex            *Explorer
	in            *Interp
	stack         []*Item
	merges        int64
	uniq          map[string]*Value
	funcs         map[*ssa.Function]int64
	steps         int64
	solT          time.Duration
	q, qs, qu, qn int64
}

func (w *Worker) touch(f *ssa.Function) { w.funcs[f]++ }

type Explorer struct {
	P        *Prog
	fn       *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	workers  []*Worker
	idle     int
	stop     bool
	deadline time.Time
	maxPaths int64
	maxStep  int64
	solver   []string
	paths    int64
	ends     map[string]int64
	notes    map[string]int64
	covers   map[string]int64
	viol     []*Violation
	violKeys map[string]bool
	maxViol  int
	asserts  int64
	samples  []*Sample
	nSample  int
	seen     int64
	timedOut bool
	t0       time.Time
	wall     time.Duration
}

func newExplorer(P *Prog, fn *ssa.Function, nw int, solver []string) *Explorer {
	ex := &Explorer{P: P, fn: fn, solver: solver, ends: map[string]int64{}, notes: map[string]int64{}, covers: map[string]int64{}, violKeys: map[string]bool{}, maxViol: 6, maxStep: 20000000, nSample: 6}
	ex.cond = sync.NewCond(&ex.mu)
	for i := 0; i < nw; i++ {
		ex.workers = append(ex.workers, &Worker{id: i, ex: ex, funcs: map[*ssa.Function]int64{}})
	}
	return ex
}

func (w *Worker) reset() {
	if w.in != nil && w.in.sol != nil {
		w.addSolver(w.in.sol)
		w.in.sol.close()
	}
	w.uniq = map[string]*Value{}
	in := &Interp{P: w.ex.P, W: w, tt: newTermTable(), fns: map[*ssa.Function]*Fn{}, libs: map[*ssa.Global]*Value{}, libI: map[*ssa.Package]int8{}}
	in.sol = newSolver(w.ex.solver)
	w.in = in
}

func (w *Worker) addSolver(s *Solver) {
	w.q += s.queries
	w.qs += s.sat
	w.qu += s.unsat
	w.qn += s.unknown
	w.solT += s.time
	if s.errs > 0 {
		w.ex.note("solver error: " + s.lastErr)
	}
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) run() {
	ex.t0 = time.Now()
	ex.workers[0].stack = []*Item{{model: map[string]uint64{}}}
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop()
		}(w)
	}
	wg.Wait()
	ex.wall = time.Since(ex.t0)
}

func (ex *Explorer) get(w *Worker) *Item {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return nil
		}
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.timedOut = true
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		if ex.maxPaths > 0 && ex.paths >= ex.maxPaths {
			ex.timedOut = true
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		if n := len(w.stack); n > 0 {
			it := w.stack[n-1]
			w.stack = w.stack[:n-1]
			return it
		}
		// steal the oldest item of the fullest worker
		var best *Worker
		for _, o := range ex.workers {
			if len(o.stack) > 0 && (best == nil || len(o.stack) > len(best.stack)) {
				best = o
			}
		}
		if best != nil {
			it := best.stack[0]
			best.stack = best.stack[1:]
			return it
		}
		ex.idle++
		if ex.idle == len(ex.workers) {
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
		ex.idle--
	}
}

func (ex *Explorer) push(w *Worker, it *Item) {
	ex.mu.Lock()
	w.stack = append(w.stack, it)
	if ex.idle > 0 {
		ex.cond.Signal()
	}
	ex.mu.Unlock()
}

func (w *Worker) loop() {
	defer func() {
		if w.in != nil && w.in.sol != nil {
			w.addSolver(w.in.sol)
			w.in.sol.close()
		}
	}()
	for {
		it := w.ex.get(w)
		if it == nil {
			return
		}
		if w.in == nil || w.in.tt.n > 3000000 {
			w.reset()
		}
		w.runPath(it)
	}
}

func (w *Worker) runPath(it *Item) {
	in := w.in
	ex := w.ex
	in.globals = map[*ssa.Global]*Value{}
	in.gors = nil
	in.steps = 0
	in.noFork, in.noMerge, in.initing = 0, 0, 0
	in.mutexes = map[*Value]*mutexSt{}
	in.wgs = map[*Value]*wgSt{}
	in.onces = map[*Value]bool{}
	in.race = nil
	in.inter = false
	in.preempt = 0
	in.mapOrd = false
	in.maxStep = ex.maxStep
	p := &Path{item: it, known: map[*Term]bool{}, nlabel: map[string]int{}, concs: map[*Term]uint64{}}
	in.path = p
	in.tt.setModel(map[*Term]uint64{})
	end := pathEnd{"done", ""}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x
				case goPanicErr:
					end = pathEnd{"panic", in.panicText(x.val)}
				case specAbort:
					end = pathEnd{"internal", "speculation abort escaped"}
				default:
					end = pathEnd{"internal", fmt.Sprintf("%v\n%s", r, debug.Stack())}
				}
			}
		}()
		g := &Gor{id: 0}
		in.gors = append(in.gors, g)
		in.cur = g
		in.callSync(g, &Closure{fn: ex.P.main.Func("init")}, nil)
		g.st = gRun
		in.pushCall(g, nil, &Closure{fn: ex.fn}, nil, -1, nil)
		in.schedule()
	}()
	w.steps += in.steps
	atomic.AddInt64(&ex.seen, 1)
	// outcome
	switch end.kind {
	case "panic", "deadlock", "race", "stack", "budget":
		w.report(end.kind, end.msg, nil)
	}
	if end.kind == "done" || end.kind == "panic" {
		n := atomic.LoadInt64(&ex.seen)
		if n <= 3 || n%97 == 0 {
			w.sample(end)
		}
	}
	ex.mu.Lock()
	ex.paths++
	ex.ends[end.kind]++
	switch end.kind {
	case "unsupported", "internal", "budget":
		m := end.msg
		if end.kind == "unsupported" {
			m += " @ " + in.where()
		}
		ex.notes[end.kind+": "+m]++
	}
	if p.incon != "" {
		ex.notes["inconclusive: "+p.incon]++
	}
	ex.mu.Unlock()
}

func (in *Interp) where() string {
	g := in.cur
	if g == nil {
		return "?"
	}
	var s []string
	for i := len(g.frames) - 1; i >= 0 && len(s) < 4; i-- {
		fr := g.frames[i]
		pos := ""
		if fr.pc < len(fr.b.ins) {
			pos = in.P.pos(fr.b.ins[fr.pc].i.Pos())
		}
		s = append(s, fr.fn.f.Name()+"("+pos+")")
	}
	return strings.Join(s, "<")
}

// ---- decisions

func (p *Path) replaying() bool { return len(p.trail) < len(p.item.dec) }

func (in *Interp) curModel() map[string]uint64 {
	m := make(map[string]uint64, len(in.tt.model))
	for t, v := range in.tt.model {
		m[t.name] = v
	}
	return m
}

func namedModel(old map[*Term]uint64, m map[*Term]uint64) map[string]uint64 {
	r := make(map[string]uint64, len(old))
	for t, v := range old {
		r[t.name] = v
	}
	for t, v := range m {
		r[t.name] = v
	}
	return r
}

func (in *Interp) query(pc []*Term, extra *Term) (Sat, map[*Term]uint64) {
	return in.sol.Check(pc, extra, in.path.vars)
}

func (in *Interp) branch(v Value) bool {
	var t *Term
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		t = x
	default:
		panic(unsupportedV("branch", v))
	}
	neg := false
	for t.op == opNot {
		t = t.a
		neg = !neg
	}
	if t.isConst() {
		return (t.k != 0) != neg
	}
	if in.path == nil {
		panic(unsupported("symbolic branch outside a path"))
	}
	p := in.path
	if k, ok := p.known[t]; ok {
		return k != neg
	}
	if in.noFork > 0 {
		if in.initing > 0 {
			panic(unsupported("symbolic branch in initialiser"))
		}
		panic(specAbort{})
	}
	if p.replaying() {
		d := p.item.dec[len(p.trail)]
		if d.kind != 'b' {
			panic(pathEnd{"internal", "decision mismatch on replay"})
		}
		p.trail = append(p.trail, d)
		p.known[t] = d.taken
		if !d.forced {
			in.addPC(t, d.taken)
		}
		return d.taken != neg
	}
	val := in.tt.Eval(t) != 0
	other := t
	if val {
		other = in.tt.Not(t)
	}
	res, m := in.query(p.pc, other)
	d := Dec{kind: 'b', taken: val}
	switch res {
	case IsUnsat:
		d.forced = true
	case IsSat:
		alt := make([]Dec, len(p.trail)+1)
		copy(alt, p.trail)
		alt[len(p.trail)] = Dec{kind: 'b', taken: !val}
		in.W.ex.push(in.W, &Item{dec: alt, model: namedModel(in.tt.model, m)})
	default:
		p.incon = "solver unknown on a branch"
	}
	p.trail = append(p.trail, d)
	p.known[t] = val
	if !d.forced {
		in.addPC(t, val)
	}
	return val != neg
}

func (in *Interp) addPC(t *Term, val bool) {
	if !val {
		t = in.tt.Not(t)
	}
	in.path.pc = append(in.path.pc, t)
	in.learn(t)
}

// learn records consequences of an asserted condition.
func (in *Interp) learn(t *Term) {
	p := in.path
	switch t.op {
	case opNot:
		p.known[t.a] = false
		if t.a.op == opOr {
			in.learn(in.tt.Not(t.a.a))
			in.learn(in.tt.Not(t.a.b))
		}
	case opAnd:
		p.known[t] = true
		in.learn(t.a)
		in.learn(t.b)
	default:
		p.known[t] = true
	}
}

// choose forks n ways without involving the solver.
func (in *Interp) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if in.noFork > 0 {
		if in.initing > 0 {
			panic(unsupported("choice in initialiser"))
		}
		panic(specAbort{})
	}
	p := in.path
	if p.replaying() {
		d := p.item.dec[len(p.trail)]
		if d.kind != 'n' {
			panic(pathEnd{"internal", "decision mismatch on replay (choose)"})
		}
		p.trail = append(p.trail, d)
		return int(d.v)
	}
	var mod map[string]uint64
	for k := n - 1; k >= 1; k-- {
		if mod == nil {
			mod = in.curModel()
		}
		alt := make([]Dec, len(p.trail)+1)
		copy(alt, p.trail)
		alt[len(p.trail)] = Dec{kind: 'n', v: uint64(k)}
		in.W.ex.push(in.W, &Item{dec: alt, model: mod})
	}
	p.trail = append(p.trail, Dec{kind: 'n', v: 0})
	return 0
}

func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if in.path == nil {
		panic(unsupported("symbolic value outside a path"))
	}
	p := in.path
	if v, ok := p.concs[t]; ok {
		return v
	}
	if in.noFork > 0 {
		if in.initing > 0 {
			panic(unsupported("symbolic value in initialiser"))
		}
		panic(specAbort{})
	}
	// a Boolean-valued ite chain of constants is cheaper to branch on
	for n := 0; ; n++ {
		if n > 300 {
			panic(pathEnd{"internal", "too many values in concretisation"})
		}
		if p.replaying() {
			d := p.item.dec[len(p.trail)]
			if d.kind != 'c' {
				panic(pathEnd{"internal", "decision mismatch on replay (concretise)"})
			}
			p.trail = append(p.trail, d)
			eq := in.tt.Eq(t, in.tt.Const(d.v, t.w))
			if !d.forced {
				in.addPC(eq, d.taken)
			}
			if d.taken {
				p.concs[t] = d.v
				return d.v
			}
			continue
		}
		v := in.tt.Eval(t)
		eq := in.tt.Eq(t, in.tt.Const(v, t.w))
		if k, ok := p.known[eq]; ok && k {
			p.trail = append(p.trail, Dec{kind: 'c', taken: true, v: v, forced: true})
			p.concs[t] = v
			return v
		}
		res, m := in.query(p.pc, in.tt.Not(eq))
		d := Dec{kind: 'c', taken: true, v: v}
		switch res {
		case IsUnsat:
			d.forced = true
		case IsSat:
			alt := make([]Dec, len(p.trail)+1)
			copy(alt, p.trail)
			alt[len(p.trail)] = Dec{kind: 'c', taken: false, v: v}
			in.W.ex.push(in.W, &Item{dec: alt, model: namedModel(in.tt.model, m)})
		default:
			p.incon = "solver unknown on a concretisation"
		}
		p.trail = append(p.trail, d)
		if !d.forced {
			in.addPC(eq, true)
		}
		p.concs[t] = v
		return v
	}
}

func (in *Interp) concretizeV(v Value) Value {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return in.branch(x)
		}
		return in.concretize(x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(in.concretize(t))
		}
		return string(b)
	}
	return v
}

func (in *Interp) assume(v Value) {
	var t *Term
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathEnd{"assume", ""})
		}
		return
	case *Term:
		t = x
	default:
		panic(unsupportedV("assume", v))
	}
	p := in.path
	if in.noFork > 0 {
		panic(specAbort{})
	}
	if in.tt.Eval(t) != 0 {
		in.addPC(t, true)
		return
	}
	if p.replaying() {
		panic(pathEnd{"internal", "assumption false on replay"})
	}
	res, m := in.query(p.pc, t)
	switch res {
	case IsUnsat:
		panic(pathEnd{"assume", ""})
	case IsSat:
		nm := map[*Term]uint64{}
		for k, v := range in.tt.model {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		in.tt.setModel(nm)
		in.addPC(t, true)
	default:
		p.incon = "solver unknown on an assumption"
		panic(pathEnd{"assume", ""})
	}
}

func (in *Interp) assertCond(v Value, msg string) {
	p := in.path
	if p.replaying() {
		if t, ok := v.(*Term); ok && in.noFork == 0 {
			// already discharged on the path this one branched from
			in.addPC(t, true)
		}
		return
	}
	atomic.AddInt64(&in.W.ex.asserts, 1)
	switch x := v.(type) {
	case bool:
		if !x {
			in.W.report("assert", msg, nil)
			panic(pathEnd{"violation", msg})
		}
	case *Term:
		if k, ok := p.known[x]; ok && k {
			in.learn(x)
			return
		}
		res, m := in.query(p.pc, in.tt.Not(x))
		switch res {
		case IsSat:
			nm := map[*Term]uint64{}
			for k, v := range in.tt.model {
				nm[k] = v
			}
			for k, v := range m {
				nm[k] = v
			}
			in.W.report("assert", msg, nm)
			// continue on the side where it holds, if any
			in.assume(x)
		case IsUnsat:
			in.learn(x) // as on replay
		default:
			p.incon = "solver unknown on an assertion"
			in.learn(x)
		}
	default:
		panic(unsupportedV("assert", v))
	}
}

func (in *Interp) newVar(label string, w uint8, def uint64) *Term {
	p := in.path
	t := in.tt.Var(label, w)
	if v, ok := p.item.model[label]; ok {
		in.tt.model[t] = v
	} else {
		in.tt.model[t] = def
	}
	p.vars = append(p.vars, t)
	return t
}

func (p *Path) label(l string) string {
	n := p.nlabel[l]
	p.nlabel[l] = n + 1
	return fmt.Sprintf("%s#%d", l, n)
}

func (in *Interp) replayInputs(model map[*Term]uint64) []ReplayInput {
	if model != nil {
		save := in.tt.model
		in.tt.setModel(model)
		defer in.tt.setModel(save)
	}
	var out []ReplayInput
	for _, i := range in.path.inputs {
		r := ReplayInput{Label: i.label, Kind: i.kind}
		switch i.kind {
		case "choose":
			r.Int = int64(i.val)
		case "str":
			r.Str = []int{}
			for _, t := range i.terms {
				r.Str = append(r.Str, int(in.tt.Eval(t)))
			}
		default:
			r.Int = int64(in.tt.Eval(i.terms[0])) + i.off
		}
		out = append(out, r)
	}
	return out
}

func (w *Worker) report(kind, msg string, model map[*Term]uint64) {
	in := w.in
	if in.path.nocex {
		return
	}
	v := &Violation{Kind: kind, Msg: msg, Inputs: in.replayInputs(model), Sched: in.inter || in.race != nil}
	if kind != "assert" {
		v.Info = map[string]string{"where": in.where()}
	}
	key := kind + "|" + msg
	if kind != "assert" {
		key = kind + "|" + in.where()
	}
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	// keep up to three candidates per kind of violation, so that one that
	// does not reproduce natively does not hide one that does
	cnt := 0
	for _, o := range ex.viol {
		if o.Info["key"] == key {
			cnt++
		}
	}
	if cnt >= 3 || len(ex.viol) >= 12 {
		return
	}
	if v.Info == nil {
		v.Info = map[string]string{}
	}
	v.Info["key"] = key
	ex.viol = append(ex.viol, v)
	if len(ex.viol) >= 12 {
		ex.stop = true
		ex.cond.Broadcast()
	}
}

func (w *Worker) sample(end pathEnd) {
	in := w.in
	if in.inter || in.race != nil || in.mapOrd {
		return
	}
	ex := w.ex
	ex.mu.Lock()
	full := len(ex.samples) >= ex.nSample
	ex.mu.Unlock()
	if full {
		return
	}
	s := &Sample{Inputs: in.replayInputs(nil), End: end.kind}
	for _, o := range in.path.obs {
		s.Obs = append(s.Obs, o.label+"="+in.concText(o.v))
	}
	ex.mu.Lock()
	ex.samples = append(ex.samples, s)
	ex.mu.Unlock()
}

// concText renders a value under the current model the way the native
// verif.Observe does.
func (in *Interp) concText(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return "<nil>"
		}
		if w, signed, ok := basicInfo(x.T); ok {
			var u uint64
			switch y := x.V.(type) {
			case uint64:
				u = y
			case *Term:
				u = in.tt.Eval(y)
			}
			if signed {
				return fmt.Sprint(sext(u, w))
			}
			return fmt.Sprint(u)
		}
		return in.concText(x.V)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(in.tt.Eval(t))
		}
		return fmt.Sprintf("%q", string(b))
	case bool:
		return fmt.Sprint(x)
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(in.tt.Eval(x) != 0)
		}
		return fmt.Sprint(in.tt.Eval(x))
	case uint64:
		return fmt.Sprint(x)
	case []Value:
		var ss []string
		for _, e := range x {
			ss = append(ss, in.concText(e))
		}
		return "[" + strings.Join(ss, ",") + "]"
	}
	return "?"
}

// ---- results

type Result struct {
	Harness   string           `json:"harness"`
	Paths     int64            `json:"paths"`
	Ends      map[string]int64 `json:"ends"`
	Notes     map[string]int64 `json:"notes"`
	Covers    map[string]int64 `json:"covers"`
	Queries   int64            `json:"queries"`
	Sat       int64            `json:"sat"`
	Unsat     int64            `json:"unsat"`
	Unknown   int64            `json:"unknown"`
	SolverSec float64          `json:"solver_seconds"`
	WallSec   float64          `json:"wall_seconds"`
	Steps     int64            `json:"steps"`
	Merges    int64            `json:"merges"`
	Asserts   int64            `json:"asserts"`
	TimedOut  bool             `json:"timed_out"`
	Funcs     []string         `json:"funcs"`
	Viol      []*Violation     `json:"violations"`
	Samples   []*Sample        `json:"-"`
}

func (ex *Explorer) result() *Result {
	r := &Result{Harness: ex.fn.Name(), Paths: ex.paths, Ends: ex.ends, Notes: ex.notes, Covers: ex.covers, WallSec: ex.wall.Seconds(), Asserts: ex.asserts, TimedOut: ex.timedOut, Viol: ex.viol, Samples: ex.samples}
	fs := map[string]bool{}
	for _, w := range ex.workers {
		r.Queries += w.q
		r.Sat += w.qs
		r.Unsat += w.qu
		r.Unknown += w.qn
		r.SolverSec += w.solT.Seconds()
		r.Steps += w.steps
		r.Merges += w.merges
		for f := range w.funcs {
			if pkgPathOf(f) == userMod {
				pos := ex.P.fset.Position(f.Pos())
				if strings.HasPrefix(baseName(pos.Filename), "zz") {
					continue
				}
				fs[strings.ReplaceAll(f.String(), userMod+".", "")] = true
			}
		}
	}
	for f := range fs {
		r.Funcs = append(r.Funcs, f)
	}
	sort.Strings(r.Funcs)
	return r
}

func baseName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}
