package main

// Preparation of the analysed program: the repository's non-test sources are
// copied into a scratch module, imports of packages that talk to the outside
// world are redirected to the environment models in /verif/env, the harness
// files are added, and everything is loaded into go/ssa.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const userMod = "github.com/siebenmann/sinksmtp"

type Prog struct {
	prog      *ssa.Program
	main      *ssa.Package
	verif     *ssa.Package
	fset      *token.FileSet
	rtErr     types.Type
	errStrPtr types.Type
	wrapErr   types.Type
	errIface  *types.Interface
	noMerge   bool
	deep      bool
	dir       string
	dropped   map[string]string // harness file -> compile error
	mcache    sync.Map
	icache    sync.Map
}

type mkey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func (p *Prog) lookupMethod(T types.Type, m *types.Func) *ssa.Function {
	k := mkey{T, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if f, ok := p.mcache.Load(k); ok {
		return f.(*ssa.Function)
	}
	sel := p.prog.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := p.prog.MethodValue(sel)
	if f != nil {
		p.mcache.Store(k, f)
	}
	return f
}

func (p *Prog) methodSet(T types.Type) *types.MethodSet { return p.prog.MethodSets.MethodSet(T) }

type ikey struct {
	t types.Type
	i *types.Interface
}

func (p *Prog) implements(T types.Type, it *types.Interface) bool {
	k := ikey{T, it}
	if r, ok := p.icache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(T, it)
	p.icache.Store(k, r)
	return r
}

func (p *Prog) pos(ps token.Pos) string {
	x := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", filepath.Base(x.Filename), x.Line)
}

// ---- scratch module

// shimmed imports: standard path -> package under zz/
func shimMap(envDir string) map[string]string {
	m := map[string]string{}
	var walk func(dir, rel string)
	walk = func(dir, rel string) {
		ents, _ := os.ReadDir(dir)
		has := false
		for _, e := range ents {
			if e.IsDir() {
				walk(filepath.Join(dir, e.Name()), filepath.Join(rel, e.Name()))
			} else if strings.HasSuffix(e.Name(), ".go") {
				has = true
			}
		}
		if has && rel != "" {
			std := rel
			if rel == "smtpd" {
				std = "github.com/siebenmann/smtpd"
			}
			if rel != "verif" && rel != "env" {
				m[std] = userMod + "/zz/" + rel
			}
		}
	}
	walk(envDir, "")
	return m
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(dst), 0755)
	return os.WriteFile(dst, b, 0644)
}

func rewriteImports(src []byte, fname string, m map[string]string) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, fname, src, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	type ed struct {
		lo, hi int
		s      string
	}
	var eds []ed
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n, ok := m[p]
		if !ok {
			continue
		}
		eds = append(eds, ed{fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset, strconv.Quote(n)})
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].lo > eds[j].lo })
	out := string(src)
	for _, e := range eds {
		out = out[:e.lo] + e.s + out[e.hi:]
	}
	return []byte(out), nil
}

type PrepOpts struct {
	repo, env, harness, dir string
	skipHarness             map[string]bool
	only                    []string // harness files wanted (base names); nil: all
}

// prep fills dir with the scratch module.
func prep(o PrepOpts) error {
	os.RemoveAll(o.dir)
	if err := os.MkdirAll(o.dir, 0755); err != nil {
		return err
	}
	sm := shimMap(o.env)
	gomod := "module " + userMod + "\n\ngo 1.17\n"
	if err := os.WriteFile(filepath.Join(o.dir, "go.mod"), []byte(gomod), 0644); err != nil {
		return err
	}
	// environment
	err := filepath.Walk(o.env, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(o.env, p)
		return copyFile(filepath.Join(o.dir, "zz", rel), p)
	})
	if err != nil {
		return err
	}
	put := func(src, name string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		b, err = rewriteImports(b, src, sm)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(o.dir, name), b, 0644)
	}
	// all packages of the repository (it is a single package today)
	err = filepath.Walk(o.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != o.repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(o.repo, p)
		os.MkdirAll(filepath.Join(o.dir, filepath.Dir(rel)), 0755)
		return put(p, rel)
	})
	if err != nil {
		return err
	}
	hs, _ := filepath.Glob(filepath.Join(o.harness, "*.go"))
	for _, h := range hs {
		b := filepath.Base(h)
		if o.skipHarness[b] {
			continue
		}
		if o.only != nil && b != "common.go" && !strings.HasPrefix(b, "lib_") {
			ok := false
			for _, w := range o.only {
				if w == b {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		if err := put(h, "zz_"+b); err != nil {
			return err
		}
	}
	// entry point table
	return writeEntry(o.dir)
}

var reHarness = regexp.MustCompile(`(?m)^func (Verif[A-Za-z0-9_]+)\(\) *{`)

func writeEntry(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "zz_*.go"))
	var names []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, m := range reHarness.FindAllSubmatch(b, -1) {
			names = append(names, string(m[1]))
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"" + userMod + "/zz/verif\"\n\nfunc init() {\n\tverif.RunNative(map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	return os.WriteFile(filepath.Join(dir, "zzz_entry.go"), []byte(sb.String()), 0644)
}

func goEnv() []string {
	env := os.Environ()
	out := []string{}
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOWORK=") ||
			strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off")
}

// load prepares and loads; harness files that do not compile against the
// current sources are dropped.
func load(o PrepOpts) (*Prog, error) {
	dropped := map[string]string{}
	if o.skipHarness == nil {
		o.skipHarness = map[string]bool{}
	}
	for round := 0; round < 12; round++ {
		if err := prep(o); err != nil {
			return nil, err
		}
		cfg := &packages.Config{
			Mode: packages.LoadAllSyntax,
			Dir:  o.dir,
			Env:  goEnv(),
		}
		pkgs, err := packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.IndexByte(f, ':'); i >= 0 {
					f = f[:i]
				}
				b := filepath.Base(f)
				if strings.HasPrefix(b, "zz_") && filepath.Dir(f) == filepath.Clean(o.dir) {
					if bad[strings.TrimPrefix(b, "zz_")] == "" {
						bad[strings.TrimPrefix(b, "zz_")] = e.Msg
					}
				} else if b != "zzz_entry.go" {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 {
			for b, m := range bad {
				o.skipHarness[b] = true
				dropped[b] = m
			}
			continue
		}
		if len(other) > 0 {
			if len(other) > 8 {
				other = other[:8]
			}
			return nil, fmt.Errorf("load errors: %s", strings.Join(other, "; "))
		}
		prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		P := &Prog{prog: prog, main: spkgs[0], fset: prog.Fset, dir: o.dir, dropped: dropped}
		for _, p := range prog.AllPackages() {
			if isUserPkg(p.Pkg.Path()) {
				p.Build()
			}
			if p.Pkg.Path() == userMod+"/zz/verif" {
				P.verif = p
			}
		}
		if P.verif == nil {
			return nil, fmt.Errorf("verif package not loaded")
		}
		P.rtErr = P.verif.Type("RuntimeError").Type()
		P.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
		if e := prog.ImportedPackage("errors"); e != nil {
			if t := e.Type("errorString"); t != nil {
				P.errStrPtr = types.NewPointer(t.Type())
			}
		}
		if e := prog.ImportedPackage("fmt"); e != nil {
			if t := e.Type("wrapError"); t != nil {
				P.wrapErr = t.Type()
			}
		}
		if P.errStrPtr == nil {
			return nil, fmt.Errorf("errors package not loaded")
		}
		return P, nil
	}
	return nil, fmt.Errorf("too many harness compile rounds: %v", dropped)
}

// buildNative compiles the scratch module into an executable.
func buildNative(dir, out string, race bool) error {
	args := []string{"build", "-o", out}
	env := goEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v: %s", err, b)
	}
	return nil
}

var _ = ast.Print
var _ = json.Marshal
