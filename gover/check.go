package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// checker runs one check: the proof of the contracts behind a property, and
// the bounded replay harness of that property.
type checker struct {
	id, tier string
	seed     int
	repo     string
	verif    string
	work     string // scratch, removed at the end
	start    time.Time
	mu       sync.Mutex
	notes    []string
	round    int               // of the harness, 0 unless repeated
	bins     map[string]string // test binaries by package
	tests    map[string][]string
	yot      string
}

func (c *checker) note(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(f, a...)
	for _, n := range c.notes {
		if n == s {
			return
		}
	}
	c.notes = append(c.notes, s)
}

// harnessRun is what one harness test reported.
type harnessRun struct {
	Property    string   `json:"property"`
	Name        string   `json:"name"`
	Rule        string   `json:"rule"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Samples     []string `json:"samples"`
	Skipped     int      `json:"skipped,omitempty"`
	Violations  []struct {
		What  string `json:"what"`
		Input string `json:"input"`
	} `json:"violations"`
}

type unitEvidence struct {
	Function    string   `json:"function"`
	Properties  []string `json:"properties"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Status      string   `json:"status"`
	Seconds     float64  `json:"seconds"`
	Inlined     []string `json:"inlined,omitempty"`
	Uses        []string `json:"uses_contracts,omitempty"`
	Failed      []string `json:"failed,omitempty"`
}

func runCheck(args []string) int {
	id, tier := args[0], "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	c := &checker{id: id, tier: tier, repo: "/repo", verif: "/verif", start: time.Now(), seed: 1}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		c.verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		c.repo = v
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		c.seed = n
	}
	w, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	c.work = w
	defer os.RemoveAll(w)
	os.Chmod(w, 0o755)

	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	old, _ := filepath.Glob(filepath.Join(c.verif, "evidence", "replay-"+id+"*"))
	for _, f := range old {
		os.Remove(f)
	}

	var wg sync.WaitGroup
	var units []*proved
	var perr error
	var runs []*harnessRun
	var herr error
	wg.Add(2)
	go func() {
		defer wg.Done()
		units, perr = c.prove()
	}()
	go func() {
		defer wg.Done()
		runs, herr = c.harness()
	}()
	wg.Wait()
	if perr != nil {
		c.note("the verifier could not load the code: %v", perr)
	}
	if herr != nil {
		fmt.Println("error:", herr)
		return 2
	}
	runs = c.deepen(units, runs)
	return c.report(units, runs)
}

// deepen repeats the harness with further seeds when the code is not proved
// as it was, in search of an input that shows why.
func (c *checker) deepen(units []*proved, runs []*harnessRun) []*harnessRun {
	open := len(units) == 0
	for _, u := range units {
		if u.Unsupported != "" && u.Unsupported != "trusted" && !strings.HasPrefix(u.Unsupported, "the proof is unfinished") {
			open = true
		}
		for _, o := range u.Obls {
			open = open || o.By == "" && c.concerns(u, o)
		}
	}
	if !open || len(runs) == 0 {
		return runs
	}
	first := time.Now()
	for n := 1; n <= 20; n++ {
		for _, r := range runs {
			if len(r.Violations) > 0 {
				return runs
			}
		}
		if n > 1 && time.Since(c.start) > 330*time.Second || time.Since(first) > 150*time.Second {
			break
		}
		c.round = n
		more := c.runTests()
		for _, r := range more {
			found := false
			for i, q := range runs {
				if q.Name == r.Name {
					found = true
					r.Evaluations += q.Evaluations
					r.Distinct += q.Distinct
					r.Skipped += q.Skipped
					runs[i] = r
				}
			}
			if !found {
				runs = append(runs, r)
			}
		}
	}
	return runs
}

// ---- proof ----

// proved is what the verifier reports of one unit, as one line of JSON.
type proved struct {
	Begin       string // a unit is started, the other fields are empty
	Key         string
	Props       []string
	Unsupported string
	Notes       []string
	Inlined     []string
	Used        []string
	Libs        []string
	Secs        float64
	Obls        []*Obligation
	Calls       int
	SolverSecs  float64
}

// prove runs the verifier in a process of its own, so that a crash of it
// costs one unit only.
func (c *checker) prove() ([]*proved, error) {
	var units []*proved
	done := map[string]bool{}
	var extra []string
	for try := 0; try < 4; try++ {
		arg := []string{"prove", c.id, c.tier, fmt.Sprint(c.start.Unix()), strings.Join(sortedKeys(done), ","), strings.Join(extra, ",")}
		self, err := os.Executable()
		if err != nil {
			return units, err
		}
		ob, eb, err := c.verifier(self, arg)
		begun := ""
		dec := json.NewDecoder(ob)
		for {
			p := &proved{}
			if dec.Decode(p) != nil {
				break
			}
			if p.Begin != "" {
				begun = p.Begin
				continue
			}
			begun = ""
			done[p.Key] = true
			extra = append(extra, p.Used...)
			units = append(units, p)
		}
		if err == nil {
			c.retry(self, units)
			return units, nil
		}
		if begun == "" {
			return units, fmt.Errorf("%v: %s", err, firstLines(eb.String(), 5))
		}
		done[begun] = true
		units = append(units, &proved{Key: begun, Unsupported: "the verifier ended: " + err.Error() + " " + firstLines(eb.String(), 2)})
	}
	return units, nil
}

// verifier runs a verifier process.
func (c *checker) verifier(self string, arg []string) (*bytes.Buffer, *bytes.Buffer, error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Until(c.start.Add(c.limit()+60*time.Second)))
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -v 24000000; ulimit -c 0; exec "$@"`, "sh", self}, arg...)...)
	cmd.WaitDelay = 5 * time.Second
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	return &ob, &eb, err
}

// retry tries each unit that failed once more by itself, in a process of its
// own: what other units left behind (names, numbers, axioms) changes the
// queries a little, and the solvers with them.
func (c *checker) retry(self string, units []*proved) {
	var wg sync.WaitGroup
	sem := make(chan bool, 3)
	for i, u := range units {
		open := false
		for _, o := range u.Obls {
			open = open || o.By == ""
		}
		if !open || u.Unsupported != "" {
			continue
		}
		wg.Add(1)
		go func(i int, key string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if time.Until(c.start.Add(c.limit())) < 5*time.Second {
				return
			}
			ob, _, err := c.verifier(self, []string{"prove", c.id, c.tier, fmt.Sprint(c.start.Unix()), "", "", key})
			if err != nil {
				return
			}
			dec := json.NewDecoder(ob)
			for {
				p := &proved{}
				if dec.Decode(p) != nil {
					return
				}
				if p.Begin != "" || p.Key != key || p.Unsupported != "" {
					continue
				}
				for _, o := range p.Obls {
					if o.By == "" {
						return
					}
				}
				p.Calls, p.SolverSecs = p.Calls+units[i].Calls, p.SolverSecs+units[i].SolverSecs
				units[i] = p
			}
		}(i, u.Key)
	}
	wg.Wait()
}

func (c *checker) limit() time.Duration {
	if c.tier == "thorough" {
		return 1500 * time.Second
	}
	return 420 * time.Second
}

// runProve is the verifier process.
func runProve(args []string) int {
	c := &checker{id: args[0], tier: args[1], repo: "/repo", verif: "/verif"}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		c.verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		c.repo = v
	}
	n, _ := strconv.ParseInt(args[2], 10, 64)
	c.start = time.Unix(n, 0)
	rdebug.SetMaxStack(512 << 20)
	out := json.NewEncoder(os.Stdout)
	readKept(filepath.Join(c.verif, "spec"))
	prog, fns, err := loadRepo(c.repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	spec, err := loadSpec(filepath.Join(c.verif, "spec"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	spec.scanLibs()
	cs := collectContracts(spec, fns)
	var todo []string
	seen := map[string]bool{}
	for _, k := range strings.Split(args[3], ",") {
		seen[k] = true
	}
	add := func(k string) {
		if !seen[k] && cs[k] != nil {
			seen[k] = true
			todo = append(todo, k)
		}
	}
	for _, k := range sortedKeys(cs) {
		for _, p := range cs[k].allProps() {
			if p == c.id {
				add(k)
			}
		}
	}
	for _, k := range strings.Split(args[4], ",") {
		add(k)
	}
	only := ""
	if len(args) > 5 {
		only = args[5]
		todo = []string{only}
	} else {
		impatient = true // the units that fail are tried again by themselves
	}
	deadline = c.start.Add(c.limit())
	for i := 0; i < len(todo); i++ {
		out.Encode(&proved{Begin: todo[i]})
		p := &proved{Key: todo[i], Props: cs[todo[i]].allProps()}
		if pastDeadline() {
			p.Unsupported = "no time left"
			out.Encode(p)
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					p.Unsupported = fmt.Sprintf("verifier error: %v", e)
				}
			}()
			calls, secs := stats.calls, stats.secs
			u := proveUnit(prog, spec, cs, cs[todo[i]])
			p.Unsupported, p.Notes, p.Inlined, p.Used, p.Libs, p.Secs, p.Obls = u.unsupported, u.notes, u.inlined, u.used, u.libs, u.secs, u.obls
			p.Calls, p.SolverSecs = stats.calls-calls, stats.secs-secs
			for _, o := range p.Obls {
				if o.By != "" {
					continue
				}
				o.Goal = clipText(fmt.Sprint(o.goal), 4000)
				for _, t := range o.pc {
					o.Path = append(o.Path, clipText(fmt.Sprint(t), 1000))
				}
			}
			if p.Unsupported == "" && pastDeadline() {
				p.Unsupported = "no time left"
			}
		}()
		out.Encode(p)
		// the contracts used at calls must hold as well
		for _, k := range p.Used {
			if only == "" {
				add(k)
			}
		}
	}
	return 0
}

// concerns tells whether a failed obligation of a unit breaks the property.
func (c *checker) concerns(u *proved, o *Obligation) bool {
	tags := map[string]bool{}
	for _, p := range u.Props {
		tags[p] = true
	}
	if !tags[c.id] {
		return false
	}
	switch o.Kind {
	case "postcondition":
		if len(o.Props) > 0 && !contains(o.Props, c.id) {
			return false
		}
		return c.id != "C24" && (c.id != "C08" || len(tags) == 1)
	case "frame", "sharing", "aliasing":
		return c.id == "C08" || !tags["C08"]
	}
	return c.id == "C24" || !tags["C24"]
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// ---- harness ----

var harnessPkgs = []string{"actions", "builder", "overlays", "instructions", "commands", "e2e"}

func (c *checker) env(extra ...string) []string {
	e := []string{"HOME=/root", "PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GONOSUMDB=*", "GOFLAGS=-mod=mod"}
	for _, k := range []string{"GOCACHE", "GOMODCACHE", "GOROOT", "TMPDIR"} {
		if v := os.Getenv(k); v != "" {
			e = append(e, k+"="+v)
		}
	}
	return append(e, extra...)
}

func (c *checker) overlay(core bool) (string, error) {
	rep := map[string]string{}
	put := func(src, dst string) {
		fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if core && bytes.Contains(b, []byte("//verif:optional")) {
				continue
			}
			rep[filepath.Join(c.repo, "internal", dst, filepath.Base(f))] = f
		}
	}
	put(filepath.Join(c.verif, "spec"), "verifspec")
	put(filepath.Join(c.verif, "harness/gen"), "verifgen")
	for _, p := range harnessPkgs {
		dst := p
		if p == "e2e" {
			dst = "verife2e"
		}
		put(filepath.Join(c.verif, "harness", p), dst)
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	f := filepath.Join(c.work, fmt.Sprintf("overlay-%v.json", core))
	return f, os.WriteFile(f, b, 0o644)
}

func (c *checker) goCmd(args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = c.repo
	cmd.Env = c.env()
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// harness builds and runs the tests of the property.
func (c *checker) harness() ([]*harnessRun, error) {
	pat := regexp.MustCompile(`func (TestVerif_` + c.id + `(_\w+)?)\(`)
	tests := map[string][]string{}
	for _, p := range harnessPkgs {
		fs, _ := filepath.Glob(filepath.Join(c.verif, "harness", p, "*_test.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range pat.FindAllStringSubmatch(string(b), -1) {
				tests[p] = append(tests[p], m[1])
			}
		}
	}
	full, err := c.overlay(false)
	if err != nil {
		return nil, err
	}
	core, err := c.overlay(true)
	if err != nil {
		return nil, err
	}
	yot := filepath.Join(c.work, "yot")
	var wg sync.WaitGroup
	var mu sync.Mutex
	var buildErr error
	bins := map[string]string{}
	for _, p := range harnessPkgs {
		if len(tests[p]) == 0 {
			continue
		}
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p == "e2e" {
				if out, err := c.goCmd("build", "-o", yot, "./cmd/yot"); err != nil {
					mu.Lock()
					buildErr = fmt.Errorf("the code does not build: %s", out)
					mu.Unlock()
					return
				}
			}
			dst := p
			if p == "e2e" {
				dst = "verife2e"
			}
			bin := filepath.Join(c.work, p+".test")
			out, err := c.goCmd("test", "-c", "-vet=off", "-mod=readonly", "-overlay", full, "-o", bin, "./internal/"+dst)
			if err != nil {
				c.note("the tests of %s that name internal functions do not build: %s", p, firstLines(out, 5))
				out, err = c.goCmd("test", "-c", "-vet=off", "-mod=readonly", "-overlay", core, "-o", bin, "./internal/"+dst)
			}
			if err != nil {
				if o, e := c.goCmd("build", "./..."); e != nil {
					mu.Lock()
					buildErr = fmt.Errorf("the code does not build: %s", o)
					mu.Unlock()
					return
				}
				c.note("the harness of %s does not build: %s", p, firstLines(out, 5))
				return
			}
			mu.Lock()
			bins[p] = bin
			mu.Unlock()
		}()
	}
	wg.Wait()
	if buildErr != nil {
		return nil, buildErr
	}
	c.bins, c.tests, c.yot = bins, tests, yot
	return c.runTests(), nil
}

// runTests runs the tests that harness has built.
func (c *checker) runTests() []*harnessRun {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var runs []*harnessRun
	for p, bin := range c.bins {
		for _, t := range c.tests[p] {
			p, bin, t := p, bin, t
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := c.runTest(p, bin, t, c.yot)
				if r != nil {
					mu.Lock()
					runs = append(runs, r)
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	sort.Slice(runs, func(i, j int) bool { return runs[i].Name < runs[j].Name })
	return runs
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// runTest runs one test; a crash is traced to its input by a second run.
func (c *checker) runTest(p, bin, test, yot string) *harnessRun {
	r, out := c.runOnce(p, bin, test, yot, false)
	if r != nil {
		return r
	}
	if strings.Contains(out, "no tests to run") || strings.Contains(out, "warning: no tests") {
		c.note("test %s is not in this build", test)
		return nil
	}
	// it ended without a report
	r, out2 := c.runOnce(p, bin, test, yot, true)
	if r != nil && len(r.Violations) == 0 {
		c.note("test %s ended without a report, but not a second time: %s", test, firstLines(out, 10))
	} else if r == nil {
		c.note("test %s gave no report: %s", test, firstLines(out2, 20))
	}
	return r
}

func (c *checker) runOnce(p, bin, test, yot string, trace bool) (*harnessRun, string) {
	dir, err := os.MkdirTemp(c.work, "run")
	if err != nil {
		c.note("%v", err)
		return nil, ""
	}
	outDir, tmp := filepath.Join(dir, "out"), filepath.Join(dir, "tmp")
	for _, d := range []string{dir, outDir, tmp} {
		os.MkdirAll(d, 0o777)
		os.Chmod(d, 0o777)
	}
	env := []string{"HOME=" + tmp, "PATH=/usr/bin:/bin", "TMPDIR=" + tmp, "VERIF_OUT=" + outDir, "VERIF_TMP=" + tmp, "VERIF_YOT=" + yot,
		"VERIF_SEED=" + fmt.Sprint(c.seed+1000*c.round), "VERIF_TIER=" + c.tier}
	if trace {
		env = append(env, "VERIF_TRACE="+outDir)
	}
	limit := 150
	if c.tier == "thorough" {
		limit = 600
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(limit+20)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 16000000; ulimit -c 0; exec "$@"`, "sh", bin, "-test.run", "^"+test+"$", "-test.timeout", fmt.Sprintf("%ds", limit))
	cmd.Dir = tmp
	cmd.Env = env
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.WaitDelay = 5 * time.Second
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
	}
	err = cmd.Start()
	if err != nil && os.Getuid() == 0 {
		c.note("the harness could not run as an unprivileged user: %v", err)
		cmd2 := exec.CommandContext(ctx, cmd.Path, cmd.Args[1:]...)
		cmd2.Dir, cmd2.Env, cmd2.Stdout, cmd2.Stderr, cmd2.WaitDelay = cmd.Dir, cmd.Env, cmd.Stdout, cmd.Stderr, cmd.WaitDelay
		cmd2.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd = cmd2
		err = cmd.Start()
	}
	if err != nil {
		c.note("%v", err)
		return nil, err.Error()
	}
	err = cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	out := b.String()
	fs, _ := filepath.Glob(filepath.Join(outDir, "*.json"))
	for _, f := range fs {
		t, e := os.ReadFile(f)
		if e != nil {
			continue
		}
		r := &harnessRun{}
		if json.Unmarshal(t, r) == nil {
			return r, out
		}
	}
	if trace {
		fs, _ := filepath.Glob(filepath.Join(outDir, "*.current"))
		crash := ""
		for _, k := range []string{"fatal error: stack overflow", "panic: test timed out", "panic:", "fatal error:"} {
			if i := strings.Index(out, k); i >= 0 {
				crash = firstLines(out[i:], 40)
				break
			}
		}
		if len(fs) > 0 && crash != "" && !strings.Contains(crash, "out of memory") {
			in, _ := os.ReadFile(fs[0])
			r := &harnessRun{Property: c.id, Name: strings.TrimPrefix(test, "TestVerif_"+c.id+"_")}
			r.Violations = append(r.Violations, struct {
				What  string `json:"what"`
				Input string `json:"input"`
			}{"the process ends: " + crash, string(in)})
			return r, out
		}
	}
	return nil, out
}

// ---- report ----

func (c *checker) known() (lines map[string]string) {
	lines = map[string]string{}
	b, _ := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+c.id+" ") {
			continue
		}
		// finding: property=ID key=<hash or text> <what fails>
		rest := strings.TrimPrefix(l, "finding: property="+c.id+" ")
		k, what, _ := strings.Cut(rest, " ")
		lines[strings.TrimPrefix(k, "key=")] = what
	}
	return
}

func (c *checker) report(units []*proved, runs []*harnessRun) int {
	var ev struct {
		Property    string                 `json:"property"`
		Tier        string                 `json:"tier"`
		Seed        int                    `json:"seed"`
		Level       string                 `json:"level"`
		Coverage    map[string]interface{} `json:"coverage"`
		Assumptions []string               `json:"assumptions"`
		Wall        float64                `json:"wall_s"`
		Violations  int                    `json:"violations"`
	}
	ev.Property, ev.Tier, ev.Seed = c.id, c.tier, c.seed
	cov := map[string]interface{}{}
	obls, done := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	var us []unitEvidence
	trusted, libs, notes, inl := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	own, calls, secs := 0, 0, 0.0
	complete := true
	var failed []*Obligation
	for _, u := range units {
		e := unitEvidence{Function: u.Key, Properties: u.Props, Status: "proved", Seconds: round(u.Secs), Inlined: u.Inlined, Uses: u.Used}
		calls += u.Calls
		secs += u.SolverSecs
		mine := contains(e.Properties, c.id)
		if u.Unsupported == "trusted" {
			trusted["contract of "+u.Key+" is assumed, not verified"] = true
			e.Status = "trusted"
			us = append(us, e)
			continue
		}
		for _, o := range u.Obls {
			e.Obligations++
			kinds[o.Kind]++
			if o.By != "" {
				e.Discharged++
				by[o.By]++
				continue
			}
			e.Failed = append(e.Failed, fmt.Sprintf("%s %s: %s (%s)", o.Pos, o.Kind, o.Desc, o.Result))
			if c.concerns(u, o) && !strings.HasPrefix(o.Result, noTime) {
				failed = append(failed, o)
			}
		}
		if u.Unsupported != "" {
			e.Status = "not verified: " + u.Unsupported
			complete = false
		} else if e.Discharged < e.Obligations {
			e.Status = "not verified: obligations fail"
			complete = false
		} else if mine {
			own++
		}
		obls += e.Obligations
		done += e.Discharged
		for _, s := range u.Libs {
			libs[s] = true
		}
		for _, s := range u.Notes {
			notes[s] = true
		}
		for _, s := range u.Inlined {
			inl[s] = true
		}
		us = append(us, e)
	}
	if len(units) == 0 {
		complete = false
	}
	cov["obligations"], cov["discharged"] = obls, done
	cov["functions_under_contract"] = us
	cov["discharged_by"] = by
	cov["obligation_kinds"] = kinds
	cov["solver_calls"], cov["solver_seconds"] = calls, round(secs)
	cov["checker_cmd"] = fmt.Sprintf("/verif/check.sh %s %s", c.id, c.tier)
	tb := []string{"the verifier /verif/gover and its SSA semantics (golang.org/x/tools/go/ssa)", "the solvers that discharge the obligations", "the Go compiler and runtime"}
	for _, l := range sortedKeys(libs) {
		tb = append(tb, "library function "+l+" is a function of its arguments")
	}
	tb = append(tb, sortedKeys(trusted)...)
	cov["trusted_base"] = tb
	cov["inlined_functions"] = sortedKeys(inl)

	evals, dist := 0, 0
	var rules, samples []string
	type bounded struct {
		Name     string `json:"test"`
		Rule     string `json:"rule"`
		Evals    int    `json:"evaluations"`
		Distinct int    `json:"distinct_nontrivial"`
		Skipped  int    `json:"skipped,omitempty"`
	}
	var bs []bounded
	for _, r := range runs {
		evals += r.Evaluations
		dist += r.Distinct
		rules = append(rules, r.Name+": "+r.Rule)
		samples = append(samples, r.Samples...)
		bs = append(bs, bounded{r.Name, r.Rule, r.Evaluations, r.Distinct, r.Skipped})
	}
	if samples == nil {
		samples = []string{}
	}
	cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = evals, dist, strings.Join(rules, " | "), samples
	cov["bounded_stand_ins"] = bs
	if complete && own > 0 && manifestLevel(c.verif, c.id) == "proof" {
		ev.Level = "proof"
	} else {
		ev.Level = "exploration"
	}
	cov["explanation"] = "obligations and discharged count the proof obligations of the listed functions; evaluations count the cases of the bounded replay harness, which runs the real code against the same specification functions and is never counted as proved"
	ev.Assumptions = append(sortedKeys(notes), c.notes...)
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}

	known := c.known()
	code := 0
	replay := func(name, text string) string {
		f := filepath.Join(c.verif, "evidence", "replay-"+c.id+"-"+name+".txt")
		os.WriteFile(f, []byte(text), 0o644)
		return f
	}
	printed := map[string]bool{}
	for _, r := range runs {
		for _, v := range r.Violations {
			h := fmt.Sprintf("%x", sha256.Sum256([]byte(v.Input)))[:12]
			if what, ok := known[h]; ok {
				if !printed[h] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, what)
				}
				printed[h] = true
				continue
			}
			ev.Violations++
			f := replay(r.Name, fmt.Sprintf("property %s, test TestVerif_%s_%s, seed %d, tier %s\nkey %s\n\nwhat fails:\n%s\n\ninput:\n%s\n", c.id, c.id, r.Name, c.seed+1000*c.round, c.tier, h, v.What, v.Input))
			fmt.Printf("%s %s: %s\n", c.id, r.Name, firstLines(v.What, 3))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, f)
			code = 1
		}
	}
	if len(failed) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: proof obligations that the verifier does not accept\n", c.id)
		for _, o := range failed {
			fmt.Fprintf(&b, "\n%s: %s at %s\n  %s\n  solver: %s\n  goal: %s\n  path:\n", o.Unit, o.Kind, o.Pos, o.Desc, o.Result, o.Goal)
			for _, p := range o.Path {
				fmt.Fprintf(&b, "    %s\n", p)
			}
		}
		f := replay("proof", b.String())
		fmt.Printf("%s: %d proof obligations fail, first: %s %s %s: %s\n", c.id, len(failed), failed[0].Unit, failed[0].Pos, failed[0].Kind, failed[0].Desc)
		if code == 0 {
			ev.Violations++
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.id, f)
			code = 1
		}
	}
	ev.Wall = round(time.Since(c.start).Seconds())
	ev.Coverage = cov
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s %s: %d/%d obligations discharged over %d functions, %d bounded cases, %.1fs\n", c.id, c.tier, done, obls, len(us), evals, ev.Wall)
	if code == 0 && evals == 0 && !complete {
		// nothing was decided
		fmt.Println("error: nothing could be checked:", strings.Join(c.notes, "; "))
		return 2
	}
	return code
}

func manifestLevel(dir, id string) string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	b, _ := os.ReadFile(filepath.Join(dir, "MANIFEST.json"))
	json.Unmarshal(b, &m)
	for _, k := range m.Checks {
		if k.Property == id {
			return k.Level
		}
	}
	return ""
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func round(f float64) float64 { return float64(int(f*10+0.5)) / 10 }
