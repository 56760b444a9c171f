package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Job struct {
	Pkg       string  `json:"pkg"`
	Fn        string  `json:"fn"`
	Args      []int64 `json:"args"`
	Timeout   float64 `json:"timeout"`
	Samples   int     `json:"samples"`
	Steps     int64   `json:"steps"`
	Depth     int     `json:"depth"`
	MaxViol   int     `json:"maxviol"`
	TimeShare bool    `json:"-"`
}

type JobResult struct {
	Job        Job              `json:"job"`
	Complete   bool             `json:"complete"`
	TimedOut   bool             `json:"timed_out"`
	Paths      int64            `json:"paths"`
	Infeasible int64            `json:"infeasible"`
	Pending    int              `json:"pending"`
	Steps      int64            `json:"steps"`
	Branches   int64            `json:"branches"`
	Asserts    map[string]int64 `json:"asserts"`
	AssertQ    int64            `json:"assert_queries"`
	Unknown    int64            `json:"unknown"`
	Queries    int64            `json:"queries"`
	Sat        int64            `json:"sat"`
	Unsat      int64            `json:"unsat"`
	SolverS    float64          `json:"solver_s"`
	MaxQueryS  float64          `json:"max_query_s"`
	Certs      int64            `json:"certified_prunings"`
	Unsup      map[string]int64 `json:"unsupported"`
	Limits     map[string]int64 `json:"limits"`
	Reach      map[string]int64 `json:"reach"`
	Known      map[string]int64 `json:"known"`
	Samples    []Sample         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Functions  []string         `json:"functions"`
	WallS      float64          `json:"wall_s"`
}

type Output struct {
	LoadS   float64     `json:"load_s"`
	Results []JobResult `json:"results"`
}

func main() {
	dir := flag.String("dir", ".", "harness module directory")
	jobsF := flag.String("jobs", "", "JSON job list")
	out := flag.String("out", "", "result file")
	workers := flag.Int("workers", 8, "")
	solver := flag.String("solver", "z3", "")
	prof := flag.String("cpuprofile", "", "")
	dump := flag.String("dump", "", "directory for SMT-LIB transcripts")
	deadline := flag.Float64("deadline", 0, "overall wall limit in seconds")
	overlay := flag.String("overlay", "", "go build overlay JSON")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	var jobs []Job
	b, err := os.ReadFile(*jobsF)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, &jobs); err != nil {
		fatal(err)
	}
	pk := map[string]bool{}
	var pats []string
	for _, j := range jobs {
		if !pk[j.Pkg] {
			pk[j.Pkg] = true
			pats = append(pats, j.Pkg)
		}
	}
	p, err := load(*dir, pats, *overlay)
	if err != nil {
		fatal(err)
	}
	o := Output{LoadS: time.Since(t0).Seconds()}
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", o.LoadS)
	}
	// Std inits once, user package inits per path.
	remaining := len(jobs)
	for _, j := range jobs {
		e := &Explorer{P: p, workers: *workers, solverBin: *solver, maxViol: 60, stepLimit: 20_000_000, maxDepth: 3000, sampleN: j.Samples, dumpDir: *dump}
		if j.Steps > 0 {
			e.stepLimit = j.Steps
		}
		if j.Depth > 0 {
			e.maxDepth = j.Depth
		}
		if j.MaxViol > 0 {
			e.maxViol = j.MaxViol
		}
		to := j.Timeout
		if *deadline > 0 {
			left := (*deadline - time.Since(t0).Seconds())
			if left < 1 {
				left = 1
			}
			if to == 0 || to > left {
				to = left
			}
		}
		remaining--
		if to > 0 {
			e.deadline = time.Now().Add(time.Duration(to * float64(time.Second)))
		}
		sp := p.findPkg(j.Pkg)
		if sp == nil {
			fatal(fmt.Errorf("package %s not loaded", j.Pkg))
		}
		f := sp.Func(j.Fn)
		if f == nil {
			fatal(fmt.Errorf("%s.%s not found", j.Pkg, j.Fn))
		}
		if f.Signature.Params().Len() != len(j.Args) {
			fatal(fmt.Errorf("%s.%s takes %d arguments", j.Pkg, j.Fn, f.Signature.Params().Len()))
		}
		p.initStd(sp)
		h := &harnessRun{Name: j.Pkg + "." + j.Fn, Fn: p.fn(f), ArgsI: j.Args}
		for _, a := range j.Args {
			h.Args = append(h.Args, VInt(uint64(a)))
		}
		e.H = h
		t1 := time.Now()
		e.run()
		r := JobResult{Job: j, TimedOut: e.timedOut, Paths: e.paths, Infeasible: e.infeasible, Pending: len(e.stack), Steps: e.steps, Branches: e.branches,
			Asserts: e.asserts, AssertQ: e.assertQ, Unknown: e.unknown, Queries: int64(e.stats.Queries), Sat: int64(e.stats.Sat), Unsat: int64(e.stats.Unsat),
			SolverS: e.stats.Seconds, MaxQueryS: e.stats.MaxQuery, Certs: e.certs, Unsup: e.unsup, Limits: e.limits, Reach: e.reach, Known: e.known,
			Samples: e.samples, Violations: e.viol, WallS: time.Since(t1).Seconds()}
		r.Complete = !e.timedOut && len(e.stack) == 0 && !e.stop && len(e.unsup) == 0 && e.unknown == 0
		p.mu.Lock()
		for _, fn := range p.fns {
			if e.cover[fn.id] {
				r.Functions = append(r.Functions, fn.name)
			}
		}
		p.mu.Unlock()
		sort.Strings(r.Functions)
		o.Results = append(o.Results, r)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%s%v: %d paths (%d infeasible), %d steps, %d branches, %d queries (%.1fs solver), complete=%v, viol=%d, unsup=%v limits=%v reach=%v asserts=%v %.1fs\n", h.Name, j.Args, r.Paths, r.Infeasible, r.Steps, r.Branches,
				r.Queries, r.SolverS, r.Complete, len(r.Violations), r.Unsup, r.Limits, r.Reach, r.Asserts, r.WallS)
			for i, v := range r.Violations {
				if i > 8 {
					break
				}
				fmt.Fprintf(os.Stderr, "  VIOL %s %s %s at %s inputs=%v %s\n", v.Kind, v.Label, v.Msg, v.Where, v.Inputs, showBytes(v))
			}
		}
	}
	b, _ = json.MarshalIndent(o, "", " ")
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fatal(err)
		}
	} else if !*verbose {
		os.Stdout.Write(b)
	}
	runtime.KeepAlive(p)
}

func showBytes(v Violation) string {
	var sb strings.Builder
	for i, k := range v.Kinds {
		if k == "byte" || k == "u8" {
			sb.WriteByte(byte(v.Inputs[i]))
		}
	}
	return fmt.Sprintf("%q", sb.String())
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "symgo:", err)
	os.Exit(3)
}

func load(dir string, pats []string, overlay string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	cfg.Overlay = map[string][]byte{}
	if overlay != "" {
		var o struct{ Replace map[string]string }
		b, err := os.ReadFile(overlay)
		if err != nil {
			return nil, err
		}
		if err := json.Unmarshal(b, &o); err != nil {
			return nil, err
		}
		for k, v := range o.Replace {
			if cfg.Overlay[k], err = os.ReadFile(v); err != nil {
				return nil, err
			}
		}
	}
	patched := map[string][]byte{}
	patchYaml(dir, patched)
	cfg.ParseFile = func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
		if b, ok := patched[name]; ok {
			src = b
		}
		return parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	}
	// pure-Go variants of assembly-backed code where they exist
	cfg.BuildFlags = append(cfg.BuildFlags, "-tags=purego")
	pats = append(append([]string{}, pats...), "unicode/utf8", "errors", "strconv")
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int{}, perPath: map[*ssa.Package]bool{},
		repoPfx: []string{"github.com/KSpaceer/yamly"}}
	for _, sp := range prog.AllPackages() {
		if isUserPkg(sp.Pkg.Path()) {
			p.perPath[sp] = true
		}
	}
	// every global gets its cell now: the tables are read without a lock
	for _, sp := range prog.AllPackages() {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				p.globalID(g)
			}
		}
	}
	return p, nil
}

func (p *Program) findPkg(path string) *ssa.Package {
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == path {
			return sp
		}
	}
	return nil
}

var initDone = map[*ssa.Package]bool{}

// initStd runs the initialisers of the allowed standard packages reachable from sp, once.
func (p *Program) initStd(sp *ssa.Package) {
	e := &Explorer{P: p, initing: true, stepLimit: 1 << 40, maxDepth: 5000, solverBin: "z3"}
	m := newMachine(p, e)
	m.reset(nil)
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, i := range t.Imports() {
			visit(i)
		}
		if isUserPkg(t.Path()) || !stdInit[t.Path()] {
			return
		}
		s := p.prog.Package(t)
		if s == nil || initDone[s] {
			return
		}
		initDone[s] = true
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "symgo: init of %s: %v\n", t.Path(), r)
				}
			}()
			m.callFn(p.fn(s.Func("init")), nil, nil)
		}()
	}
	visit(sp.Pkg)
	m.sol.Close()
}

// patchYaml replaces the reflection at the entry points of the third-party gopkg.in/yaml.v3 by type
// switches with the same meaning for the values the goyaml engine passes there (nodes and marshalers).
// It is a model of that library for symbolic execution only: native replays use the library itself.
func patchYaml(dir string, ov map[string][]byte) {
	c := exec.Command("go", "list", "-f", "{{.Dir}}", "gopkg.in/yaml.v3")
	c.Dir = dir
	out, err := c.Output()
	if err != nil {
		return
	}
	path := filepath.Join(strings.TrimSpace(string(out)), "yaml.go")
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	s := string(b)
	for _, r := range [][2]string{
		{"\tif node != nil {\n\t\tv := reflect.ValueOf(out)\n", "\tif nn, ok := out.(*Node); ok && nn != nil && node != nil {\n\t\t*nn = *node\n\t} else if node != nil {\n\t\tv := reflect.ValueOf(out)\n"},
		{"\te.marshalDoc(\"\", reflect.ValueOf(in))\n\te.finish()", "\tverifMarshalDoc(e, in)\n\te.finish()"},
		{"\te.encoder.marshalDoc(\"\", reflect.ValueOf(v))\n", "\tverifMarshalDoc(e.encoder, v)\n"},
	} {
		if !strings.Contains(s, r[0]) {
			fmt.Fprintln(os.Stderr, "symgo: yaml.v3 does not look as expected; not patched")
			return
		}
		s = strings.Replace(s, r[0], r[1], 1)
	}
	s += `
func verifMarshalDoc(e *encoder, in interface{}) {
	e.init()
	if n, ok := in.(*Node); ok && n != nil && n.Kind == DocumentNode {
		e.node(n, "")
		return
	}
	yaml_document_start_event_initialize(&e.event, nil, nil, true)
	e.emit()
	verifMarshal(e, in)
	yaml_document_end_event_initialize(&e.event, true)
	e.emit()
}

func verifMarshal(e *encoder, in interface{}) {
	switch v := in.(type) {
	case nil:
		e.nilv()
	case *Node:
		if v == nil {
			e.nilv()
		} else {
			e.node(v, "")
		}
	case Node:
		e.node(&v, "")
	case Marshaler:
		x, err := v.MarshalYAML()
		if err != nil {
			fail(err)
		}
		verifMarshal(e, x)
	default: // by reflection, which is not modelled: something no expectation agrees with, for the native replay to decide
		e.node(&Node{Kind: ScalarNode, Tag: "!!str", Style: DoubleQuotedStyle, Value: "(reflected)"}, "")
	}
}
`
	ov[path] = []byte(s)
}
