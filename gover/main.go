package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var debug = 0

//go:embed shim.txt
var shimText string

// shimPkg is the package of shim.txt.
var shimPkg *ssa.Package

// shims are the functions of shim.txt that stand for library functions.
var shims = map[string]*ssa.Function{}

func loadRepo(dir string) (*ssa.Program, map[string]*ssa.Function, error) {
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Overlay: map[string][]byte{filepath.Join(abs, "internal/verifshim/shim.go"): []byte(shimText)}}
	ps, err := packages.Load(cfg, "./internal/...", "./cmd/...", "./internal/verifshim")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, nil, p.Errors[0]
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.BuilderMode(0))
	prog.Build()
	var tps []*types.Package
	for _, p := range ps {
		tps = append(tps, p.Types)
	}
	declareStructs(tps)
	fns := map[string]*ssa.Function{}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		if p.Pkg.Name() == "verifshim" {
			shims["path/filepath.Walk"] = p.Func("Walk")
			shims["golang.org/x/sync/errgroup.WithContext"] = p.Func("WithContext")
			shims["(*golang.org/x/sync/errgroup.Group).Go"] = p.Func("Go")
			shims["(*golang.org/x/sync/errgroup.Group).Wait"] = p.Func("Wait")
			shimPkg = p
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				fns[fnKey(m)] = m
			case *ssa.Type:
				for _, t := range methodsOf(prog, m) {
					fns[fnKey(t)] = t
				}
			}
		}
	}
	return prog, fns, nil
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2:]))
	}
	if len(os.Args) > 5 && os.Args[1] == "prove" {
		os.Exit(runProve(os.Args[2:]))
	}
	repo, specDir := "/repo", "/verif/spec"
	var only []string
	for _, a := range os.Args[1:] {
		switch {
		case strings.HasPrefix(a, "-repo="):
			repo = a[6:]
		case strings.HasPrefix(a, "-spec="):
			specDir = a[6:]
		case a == "-drafts":
			withDrafts = true
		case a == "-v":
			debug++
		case a == "-vv":
			debug += 2
		default:
			only = append(only, a)
		}
	}
	start := time.Now()
	readKept(specDir)
	prog, fns, err := loadRepo(repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	spec, err := loadSpec(specDir)
	if err != nil {
		fmt.Println("spec:", err)
		os.Exit(2)
	}
	spec.scanLibs()
	cs := collectContracts(spec, fns)
	fmt.Printf("loaded in %.1fs, %d contracts\n", time.Since(start).Seconds(), len(cs))
	var keys []string
	for k := range cs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bad := 0
	for _, k := range keys {
		if len(only) > 0 && !match(only, k) {
			continue
		}
		r := proveUnit(prog, spec, cs, cs[k])
		n, f := 0, 0
		for _, o := range r.obls {
			n++
			if o.By == "" {
				f++
			}
		}
		fmt.Printf("%-40s %4d obligations, %d failed, %.1fs, paths %d, inlined %v %s\n", k, n, f, r.secs, r.paths, r.inlined, r.unsupported)
		for _, o := range r.obls {
			if o.By == "" {
				bad++
				fmt.Printf("   FAILED %s %s: %s (%s)\n", o.Pos, o.Kind, o.Desc, o.Result)
				if debug > 0 {
					fmt.Println("      goal", o.goal)
					for _, p := range o.pc {
						fmt.Println("      pc  ", p)
					}
				}
			}
		}
		if debug > 0 {
			for _, s := range r.notes {
				fmt.Println("   note:", s)
			}
		}
	}
	fmt.Printf("%d failed; %d solver calls, %.1fs solver, %.1fs wall\n", bad, stats.calls, stats.secs, time.Since(start).Seconds())
}

func match(only []string, k string) bool {
	for _, o := range only {
		if strings.Contains(k, o) {
			return true
		}
	}
	return false
}

// unitResult is the outcome of one function.
type unitResult struct {
	key         string
	obls        []*Obligation
	unsupported string
	notes       []string
	inlined     []string
	used        []string
	libs        []string
	secs        float64
	paths       int
}

// withDrafts also verifies contracts whose proof is unfinished.
var withDrafts bool

func verifyUnit(prog *ssa.Program, spec *Spec, cs map[string]*Contract, c *Contract) (r *unitResult) {
	start := time.Now()
	r = &unitResult{key: c.key}
	if c.attach != "" {
		r.unsupported = "contract does not attach: " + c.attach
		return r
	}
	if c.trusted {
		r.unsupported = "trusted"
		return r
	}
	if c.draft && !withDrafts {
		r.unsupported = "the proof is unfinished, the contract is assumed where it is called"
		return r
	}
	x := &Exec{prog: prog, spec: spec, cons: cs, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, notes: map[string]bool{}, inl: map[string]bool{}, used: map[string]bool{}, libs: map[string]bool{}}
	defer func() {
		r.secs = time.Since(start).Seconds()
		r.obls = x.obls
		r.notes = sortedKeys(x.notes)
		r.inlined = sortedKeys(x.inl)
		r.used = sortedKeys(x.used)
		r.libs = sortedKeys(x.libs)
		r.paths = x.ends
		if e := recover(); e != nil {
			u, ok := e.(unsupportedErr)
			if !ok {
				panic(e)
			}
			if os.Getenv("GOVER_STACK") != "" {
				fmt.Println(string(rdebug.Stack()))
			}
			r.unsupported = u.msg + " (at " + x.pos(x.cur) + ")"
		}
	}()
	if c.lemma != nil {
		x.verifyLemma(c)
	} else {
		x.verify(c)
	}
	return r
}

// discharge decides the obligations with the back ends.
// proveUnit verifies a unit and discharges its obligations, with more patience
// when some fail.
func proveUnit(prog *ssa.Program, spec *Spec, cs map[string]*Contract, c *Contract) *unitResult {
	try := func() (*unitResult, bool) {
		r := verifyUnit(prog, spec, cs, c)
		discharge(r.obls)
		for _, o := range r.obls {
			if o.By == "" {
				return r, false
			}
		}
		return r, true
	}
	r, ok := try()
	if ok || impatient || !deadline.IsZero() && time.Until(deadline) < 60*time.Second {
		return r
	}
	patience = 3
	defer func() { patience = 1 }()
	full := deadline
	if !deadline.IsZero() {
		// leave time for the other units
		deadline = time.Now().Add(time.Until(deadline) / 2)
	}
	r2, ok := try()
	deadline = full
	if ok && r2.unsupported == "" {
		return r2
	}
	return r
}

// impatient turns the second try off.
var impatient = os.Getenv("GOVER_IMPATIENT") != ""

func discharge(obls []*Obligation) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, o := range obls {
		if o.By != "" {
			continue
		}
		o := o
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			o.By, o.Result = portfolio(o.text, 10000)
			<-sem
		}()
	}
	wg.Wait()
}
