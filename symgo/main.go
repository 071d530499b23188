package main

// Command line: decide one property.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type harnessDecl struct {
	name   string
	file   string
	prop   string
	bounds []string
	deep   bool // thorough tier only
}

var reDecl = regexp.MustCompile(`(?m)((?:^//.*\n)*)^func (Verif(C[0-9]+)_([A-Za-z0-9_]+))\(\) *{`)

func scanHarness(dir string) []harnessDecl {
	var out []harnessDecl
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range reDecl.FindAllSubmatch(b, -1) {
			d := harnessDecl{name: string(m[2]), file: filepath.Base(f), prop: string(m[3])}
			d.deep = strings.HasSuffix(d.name, "_deep")
			for _, l := range strings.Split(string(m[1]), "\n") {
				l = strings.TrimSpace(strings.TrimPrefix(l, "//"))
				if l != "" {
					d.bounds = append(d.bounds, l)
				}
			}
			out = append(out, d)
		}
	}
	return out
}

type replayFile struct {
	Property string        `json:"property"`
	Harness  string        `json:"harness"`
	Kind     string        `json:"kind"`
	Msg      string        `json:"msg"`
	Where    string        `json:"where,omitempty"`
	Native   string        `json:"native_result,omitempty"`
	Deep     bool          `json:"deep"`
	Inputs   []ReplayInput `json:"inputs"`
	HowTo    string        `json:"how_to_replay"`
}

func main() {
	vdir := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("p", "", "property")
	only := flag.String("h", "", "only harnesses matching this regexp")
	tier := flag.String("tier", "", "quick or thorough")
	solver := flag.String("solver", "z3 -in -smt2", "")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	perH := flag.Float64("t", 0, "seconds per harness")
	nomerge := flag.Bool("nomerge", false, "")
	verbose := flag.Bool("v", false, "")
	keep := flag.Bool("keep", false, "keep the scratch directory")
	prof := flag.String("prof", "", "")
	list := flag.Bool("list", false, "")
	replay := flag.String("replay", "", "replay a counterexample file")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run(*vdir, *repo, *prop, *only, *tier, *solver, *nw, *perH, *nomerge, *verbose, *keep, *list, *replay)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func run(vdir, repo, prop, only, tier, solver string, nw int, perH float64, nomerge, verbose, keep, list bool, replay string) int {
	t0 := time.Now()
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	deep := tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	decls := scanHarness(filepath.Join(vdir, "harness"))
	if list {
		for _, d := range decls {
			fmt.Println(d.prop, d.name, d.file)
		}
		return 0
	}
	var rp replayFile
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			return 2
		}
		prop = rp.Property
		only = "^" + rp.Harness + "$"
		deep = rp.Deep
	}
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	var mine []harnessDecl
	files := map[string]bool{}
	for _, d := range decls {
		if d.prop != prop || (re != nil && !re.MatchString(d.name)) || (d.deep && !deep) {
			continue
		}
		mine = append(mine, d)
		files[d.file] = true
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	var want []string
	for f := range files {
		want = append(want, f)
	}
	scratch, err := os.MkdirTemp("", "symgo-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if !keep {
		defer os.RemoveAll(scratch)
	} else {
		fmt.Println("scratch:", scratch)
	}
	P, err := load(PrepOpts{repo: repo, env: filepath.Join(vdir, "env"), harness: filepath.Join(vdir, "harness"), dir: filepath.Join(scratch, "m"), only: want})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot analyse this tree:", err)
		return 2
	}
	P.noMerge = nomerge
	P.deep = deep
	loadS := time.Since(t0).Seconds()

	// native executable, built while the exploration runs
	nat := &native{dir: filepath.Join(scratch, "m"), out: filepath.Join(scratch, "native"), raceOut: filepath.Join(scratch, "native-race"), scratch: scratch, deep: deep}
	nat.start()

	if replay != "" {
		ok, txt := nat.confirm(&Violation{Kind: rp.Kind, Msg: rp.Msg, Inputs: rp.Inputs}, rp.Harness)
		fmt.Println(txt)
		if ok {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}

	limit := perH
	budget := 240.0 // whole check
	if deep {
		budget = 5400
	}
	if limit == 0 {
		limit = budget
	}
	tEnd := time.Now().Add(time.Duration(budget * float64(time.Second)))

	type hres struct {
		d    harnessDecl
		r    *Result
		okS  int
		badS []string
	}
	var results []*hres
	var assumptions []string
	for f, m := range P.dropped {
		assumptions = append(assumptions, fmt.Sprintf("harness file %s does not compile against this tree and was left out: %s", f, m))
	}
	for i, d := range mine {
		fn := P.main.Func(d.name)
		if fn == nil {
			continue
		}
		left := time.Until(tEnd).Seconds()
		// share what is left, but let one harness use what others did not
		share := left / float64(len(mine)-i)
		if share < left/2 {
			share = left / 2
		}
		if share > limit {
			share = limit
		}
		ex := newExplorer(P, fn, nw, strings.Fields(solver))
		if deep {
			ex.nSample = 20
		}
		ex.deadline = time.Now().Add(time.Duration(share * float64(time.Second)))
		ex.run()
		r := ex.result()
		h := &hres{d: d, r: r}
		results = append(results, h)
		if verbose {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
		}
		fmt.Printf("%-34s paths=%d ends=%v asserts=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs wall=%.1fs merges=%d candidates=%d%s\n",
			d.name, r.Paths, r.Ends, r.Asserts, r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverSec, r.WallSec, r.Merges, len(r.Viol), map[bool]string{true: " TIME-LIMIT", false: ""}[r.TimedOut])
		if len(r.Notes) > 0 {
			ks := []string{}
			for k := range r.Notes {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for i, k := range ks {
				if i >= 8 {
					break
				}
				fmt.Printf("    note x%d: %s\n", r.Notes[k], firstLines(k, map[bool]int{true: 30, false: 2}[verbose]))
			}
		}
	}
	if len(results) == 0 {
		fmt.Fprintln(os.Stderr, "no harness of this property compiles against this tree:", P.dropped)
		return 2
	}

	// differential validation of sampled paths
	validated, mism := 0, 0
	var sampleOut []interface{}
	for _, h := range results {
		for _, s := range h.r.Samples {
			ok, txt := nat.diff(s, h.d.name)
			if ok {
				validated++
				h.okS++
			} else if txt != "" {
				mism++
				h.badS = append(h.badS, txt)
				fmt.Printf("    MISMATCH %s: %s\n", h.d.name, txt)
			}
		}
		if len(h.r.Samples) > 0 {
			sampleOut = append(sampleOut, map[string]interface{}{"harness": h.d.name, "inputs": h.r.Samples[0].Inputs, "observed": h.r.Samples[0].Obs, "end": h.r.Samples[0].End})
		}
	}

	// candidate violations
	known := loadKnown(filepath.Join(vdir, "known_findings.txt"), prop)
	nviol, unconf := 0, 0
	var replayPath string
	printedKF := map[string]bool{}
	confirmed := map[string]bool{}
	os.MkdirAll(filepath.Join(vdir, "replays"), 0755)
	var unconfTxt []string
	for _, h := range results {
		for _, v := range h.r.Viol {
			k := h.d.name + "|" + v.Info["key"]
			if confirmed[k] {
				continue
			}
			ok, txt := nat.confirm(v, h.d.name)
			if !ok {
				unconf++
				unconfTxt = append(unconfTxt, fmt.Sprintf("%s: %s %s (%s)", h.d.name, v.Kind, v.Msg, txt))
				fmt.Printf("    unconfirmed candidate in %s: %s: %s [%s] native: %s\n", h.d.name, v.Kind, firstLines(v.Msg, 3), v.Info["where"], firstLines(txt, 4))
				if verbose {
					b, _ := json.Marshal(v.Inputs)
					fmt.Println(string(b))
				}
				continue
			}
			confirmed[k] = true
			if kf := known.match(h.d.name, v); kf != "" {
				if !printedKF[kf] {
					printedKF[kf] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
				}
				continue
			}
			nviol++
			p := filepath.Join(vdir, "replays", fmt.Sprintf("%s-%d.json", prop, nviol))
			rf := replayFile{Property: prop, Harness: h.d.name, Kind: v.Kind, Msg: v.Msg, Where: v.Info["where"], Native: firstLines(txt, 12), Inputs: v.Inputs, Deep: deep, HowTo: "bash /verif/check.sh replay " + p}
			writeJSON(p, rf)
			if replayPath == "" {
				replayPath = p
			}
			fmt.Printf("    violation in %s: %s: %s %s\n      native: %s\n", h.d.name, v.Kind, v.Msg, v.Info["where"], firstLines(txt, 6))
			for _, x := range v.Inputs {
				if x.Kind == "str" {
					bs := make([]byte, len(x.Str))
					for i, c := range x.Str {
						bs[i] = byte(c)
					}
					fmt.Printf("      %s = %q\n", x.Label, bs)
				} else {
					fmt.Printf("      %s = %d\n", x.Label, x.Int)
				}
			}
		}
	}

	// evidence
	var paths, steps, q, qs, qu, qn, asserts, merges int64
	var solS float64
	funcs := map[string]bool{}
	exhaustive := true
	var hs []interface{}
	for _, h := range results {
		r := h.r
		paths += r.Paths
		steps += r.Steps
		q += r.Queries
		qs += r.Sat
		qu += r.Unsat
		qn += r.Unknown
		asserts += r.Asserts
		merges += r.Merges
		solS += r.SolverSec
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		complete := !r.TimedOut && r.Ends["unsupported"] == 0 && r.Ends["internal"] == 0 && r.Ends["budget"] == 0 && r.Unknown == 0
		if !complete {
			exhaustive = false
		}
		hs = append(hs, map[string]interface{}{
			"harness": h.d.name, "bounds": h.d.bounds, "paths": r.Paths, "path_ends": r.Ends, "assertions_decided": r.Asserts,
			"queries": r.Queries, "sat": r.Sat, "unsat": r.Unsat, "unknown": r.Unknown, "solver_s": round3(r.SolverSec), "wall_s": round3(r.WallSec),
			"complete_within_bounds": complete, "time_limit_hit": r.TimedOut, "merged_branches": r.Merges, "covered": r.Covers, "notes": r.Notes,
			"native_samples_agreeing": h.okS, "native_samples_disagreeing": h.badS,
		})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, u := range unconfTxt {
		assumptions = append(assumptions, "solver counterexample not reproduced by the compiled code, so not reported: "+u)
	}
	assumptions = append(assumptions,
		"the outside world (network, DNS, files, clock, flags, TLS, hash functions, the smtpd package) is the model in /verif/env; everything else is the repository's own code and the Go standard library source, or the solver-level models of library functions listed in DESIGN.md",
		"claims hold for the values within the bounds stated per harness; paths ended as unsupported, internal or budget (see path_ends) are outside the claim")
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "traces_disagreeing": mism,
			"samples": sampleOut, "exhaustive": exhaustive && nviol == 0,
			"states_are":          "symbolic paths, each standing for every input that satisfies its path condition",
			"transitions_are":     "SSA instructions executed symbolically",
			"functions_encoded":   fl,
			"functions_encoded_n": len(fl),
			"harnesses":           hs,
			"assertions_decided":  asserts,
			"solver":              solver,
			"queries":             q, "queries_sat": qs, "queries_unsat": qu, "queries_unknown": qn,
			"solver_seconds":         round3(solS),
			"load_seconds":           round3(loadS),
			"branches_merged":        merges,
			"unconfirmed_candidates": unconf,
		},
		"assumptions": assumptions,
		"wall_s":      round3(time.Since(t0).Seconds()),
		"violations":  nviol,
	}
	if replay == "" && re == nil {
		os.MkdirAll(filepath.Join(vdir, "evidence"), 0755)
		if err := writeJSON(filepath.Join(vdir, "evidence", prop+".json"), ev); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if nviol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		return 1
	}
	fmt.Printf("OK property=%s paths=%d queries=%d complete=%v wall=%.1fs\n", prop, paths, q, exhaustive, time.Since(t0).Seconds())
	return 0
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n      ")
}

// ---- known findings

type knownSet []struct{ re, text string }

// lines: finding: property=C13 match=<regexp over "harness kind msg"> text
func loadKnown(path, prop string) knownSet {
	var ks knownSet
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		if !strings.HasPrefix(rest, "match=") {
			continue
		}
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			continue
		}
		ks = append(ks, struct{ re, text string }{strings.TrimPrefix(rest[:i], "match="), rest[i+1:]})
	}
	return ks
}

func (ks knownSet) match(h string, v *Violation) string {
	s := h + "|" + v.Kind + "|" + v.Msg
	for _, k := range ks {
		if ok, _ := regexp.MatchString(k.re, s); ok {
			return k.text
		}
	}
	return ""
}

// ---- native replay

type native struct {
	dir, out, raceOut, scratch string
	jitter                     bool
	deep                       bool
	wg                         sync.WaitGroup
	err                        error
	raceOnce                   sync.Once
	raceErr                    error
	n                          int64
	spent                      time.Duration
}

func (n *native) start() {
	n.wg.Add(1)
	go func() {
		defer n.wg.Done()
		n.err = buildNative(n.dir, n.out, false)
	}()
}

func (n *native) exec(bin string, inputs []ReplayInput, harness string, timeout time.Duration) (code int, out string, trace []string) {
	id := atomic.AddInt64(&n.n, 1)
	rf := filepath.Join(n.scratch, fmt.Sprintf("replay%d.json", id))
	tf := filepath.Join(n.scratch, fmt.Sprintf("trace%d.txt", id))
	writeJSON(rf, map[string]interface{}{"inputs": inputs})
	defer os.Remove(rf)
	defer os.Remove(tf)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = n.scratch
	cmd.Env = append(os.Environ(), "VERIF_HARNESS="+harness, "VERIF_REPLAY="+rf, "VERIF_TRACE="+tf, "GOTRACEBACK=single")
	if n.deep {
		cmd.Env = append(cmd.Env, "VERIF_DEEP=1")
	}
	if n.jitter {
		cmd.Env = append(cmd.Env, "VERIF_JITTER=1")
	}
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	out = buf.String()
	if len(out) > 20000 {
		out = out[:20000]
	}
	if ctx.Err() != nil {
		return -1, out, nil
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		} else {
			code = 99
		}
	}
	if b, e := os.ReadFile(tf); e == nil && len(b) > 0 {
		trace = strings.Split(string(b), "\n")
	}
	return code, out, trace
}

func (n *native) diff(s *Sample, harness string) (bool, string) {
	n.wg.Wait()
	if n.err != nil {
		return false, "native build failed: " + n.err.Error()
	}
	code, out, tr := n.exec(n.out, s.Inputs, harness, 20*time.Second)
	if s.End == "panic" {
		if code == 2 {
			return true, ""
		}
		return false, fmt.Sprintf("symbolic path panics, native exit %d: %s", code, firstLines(out, 3))
	}
	if code != 0 {
		return false, fmt.Sprintf("native exit %d: %s", code, firstLines(out, 5))
	}
	if strings.Join(tr, "\n") != strings.Join(s.Obs, "\n") {
		b, _ := json.Marshal(s.Inputs)
		return false, fmt.Sprintf("observations differ: symbolic %v native %v inputs %s", s.Obs, tr, b)
	}
	return true, ""
}

// raceInProgram says whether the race detector's output has a race between two
// accesses made by the program itself, not by harnesses or the environment.
func raceInProgram(out string) bool {
	for _, rep := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		lines := strings.Split(rep, "\n")
		ours, theirs := 0, 0
		for i := 0; i < len(lines); i++ {
			l := strings.TrimSpace(lines[i])
			if !(strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read") || strings.HasPrefix(l, "Previous write")) {
				continue
			}
			// first frame that is not in the runtime
			for j := i + 1; j+1 < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
				fn, at := strings.TrimSpace(lines[j]), strings.TrimSpace(lines[j+1])
				if strings.HasPrefix(fn, "runtime.") || strings.HasPrefix(fn, "internal/") || strings.HasPrefix(fn, "sync/atomic.") {
					continue
				}
				if strings.HasPrefix(fn, "main.zzRender") {
					ours++ // uses a result of the program as its user would
				} else if strings.Contains(at, "/zz_") || strings.Contains(at, "/zz/") {
					theirs++
				} else {
					ours++
				}
				break
			}
		}
		if ours > 0 && theirs == 0 {
			return true
		}
	}
	return false
}

func (n *native) confirm(v *Violation, harness string) (bool, string) {
	n.wg.Wait()
	if n.err != nil {
		return false, "native build failed: " + n.err.Error()
	}
	bin := n.out
	tries := 1
	if v.Sched || v.Kind == "race" {
		n.raceOnce.Do(func() { n.raceErr = buildNative(n.dir, n.raceOut, true) })
		if n.raceErr == nil {
			bin = n.raceOut
		} else if v.Kind == "race" {
			return false, "race build failed: " + n.raceErr.Error()
		}
		tries = 200
	}
	t0 := time.Now()
	defer func() { n.spent += time.Since(t0) }()
	if tries == 1 {
		code, out, _ := n.exec(bin, v.Inputs, harness, 15*time.Second)
		return reproduces(v, code, out), fmt.Sprintf("exit %d: %s", code, firstLines(out, 12))
	}
	// a schedule: many runs, several at a time, with random delays
	if n.spent > 200*time.Second {
		tries = 8
	}
	n.jitter = true
	defer func() { n.jitter = false }()
	var mu sync.Mutex
	last, found, next := "", false, 0
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if found || next >= tries || next > 0 && time.Since(t0) > 60*time.Second {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				code, out, _ := n.exec(bin, v.Inputs, harness, 15*time.Second)
				ok := reproduces(v, code, out)
				mu.Lock()
				if !found {
					found = ok
					last = fmt.Sprintf("exit %d: %s", code, firstLines(out, 12))
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return found, last
}

// reproduces says whether a native run shows the violation.
func reproduces(v *Violation, code int, out string) bool {
	{
		switch v.Kind {
		case "assert":
			if code == 3 {
				return true
			}
			// the compiled code may fail even harder than the model
			if code == 2 && strings.Contains(out, "panic") {
				return true
			}
		case "race":
			if raceInProgram(out) || strings.Contains(out, "concurrent map") {
				return true
			}
		case "panic":
			if code == 2 && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")) {
				return true
			}
		case "deadlock", "budget":
			if code == -1 || strings.Contains(out, "all goroutines are asleep") {
				return true
			}
			if code == 2 && strings.Contains(out, "stack") {
				return true
			}
		case "stack":
			if code == 2 && strings.Contains(out, "stack") {
				return true
			}
			if code == -1 {
				return true
			}
		}
	}
	return false
}
