package verife2e

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	g "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifgen"
	s "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifspec"
	"gopkg.in/yaml.v3"
)

// ov is an overlay as written in an instructions file.
type ov struct {
	text  string // YAML, one field per line
	model *g.Overlay
}

// docEntry is an entry of "documents".
type docEntry struct {
	hasPath  bool
	path     int
	overlays []*ov
}

// entry is an entry of "yamlFiles".
type entry struct {
	path     string // as written
	overlays []*ov
	docs     []docEntry
	out      string
}

// scenario is one run.
type scenario struct {
	dir    string
	files  map[string]string // relative path, text
	dirs   []string          // empty directories
	links  map[string]string // symbolic links
	full   bool              // standard output is a full device
	instr  string            // relative path of the instructions file; "" for none
	raw    string            // text of the instructions file, instead of a generated one
	common []*ov
	yamls  []entry
	args   []string
	env    []string
	cwd    string // relative
	stdin  string
	adhoc  *ov
	path   string // -p
	out    string // -o as written; "" for the default
	stdout bool
	noFlag bool // standard output selected by another source than the flag
	remove bool
	style  int // combined style; 0: the default
	indent int
	inject bool
	root   bool // /dev/null is listed too
}

var yot = os.Getenv("VERIF_YOT")
var tmp = os.Getenv("VERIF_TMP")

func workDir() string {
	d, err := ioutil.TempDir(tmp, "e2e")
	if err != nil {
		panic(err)
	}
	os.Chmod(d, 0777)
	return d
}

func indentText(t string, n int) string {
	pad := strings.Repeat(" ", n)
	return pad + strings.ReplaceAll(strings.TrimRight(t, "\n"), "\n", "\n"+pad) + "\n"
}

func overlayList(os []*ov, n int) string {
	var b strings.Builder
	for _, o := range os {
		t := indentText(o.text, n+2)
		b.WriteString(strings.Repeat(" ", n) + "- " + t[n+2:])
	}
	return b.String()
}

// instructions is the text of the instructions file.
func (c *scenario) instructions() string {
	if c.raw != "" {
		return c.raw
	}
	var b strings.Builder
	if len(c.common) > 0 {
		b.WriteString("commonOverlays:\n" + overlayList(c.common, 0))
	}
	if len(c.yamls) > 0 {
		b.WriteString("yamlFiles:\n")
	}
	for i, e := range c.yamls {
		fmt.Fprintf(&b, "- name: f%d\n  path: %q\n", i, e.path)
		if e.out != "" {
			fmt.Fprintf(&b, "  outputPath: %q\n", e.out)
		}
		if len(e.overlays) > 0 {
			b.WriteString("  overlays:\n" + overlayList(e.overlays, 2))
		}
		if len(e.docs) > 0 {
			b.WriteString("  documents:\n")
		}
		for j, d := range e.docs {
			fmt.Fprintf(&b, "  - name: d%d\n", j)
			if d.hasPath {
				fmt.Fprintf(&b, "    path: %d\n", d.path)
			}
			if len(d.overlays) > 0 {
				b.WriteString("    overlays:\n" + overlayList(d.overlays, 4))
			}
		}
	}
	if c.root {
		b.WriteString("- path: /dev/null\n")
	}
	if b.Len() == 0 {
		return "{}\n"
	}
	return b.String()
}

// describe is the scenario in words, to be reproduced.
func (c *scenario) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "in directory %q: yot %q env %q\n", c.cwd, c.allArgs(), c.env)
	for _, k := range g.Keys(c.files) {
		fmt.Fprintf(&b, "== %s\n%s\n", k, c.files[k])
	}
	for k, t := range c.links {
		fmt.Fprintf(&b, "== %s is a link to %s\n", k, t)
	}
	if c.full {
		b.WriteString("standard output is /dev/full\n")
	}
	if c.instr != "" {
		fmt.Fprintf(&b, "== %s\n%s", c.instr, c.instructions())
	}
	if c.stdin != "" {
		fmt.Fprintf(&b, "== standard input\n%s", c.stdin)
	}
	return b.String()
}

func (c *scenario) allArgs() []string {
	var a []string
	if c.instr != "" {
		r, _ := filepath.Rel("/"+c.cwd, "/"+c.instr)
		a = append(a, "-i", r)
	}
	if c.out != "" {
		a = append(a, "-o", c.out)
	}
	if c.stdout && !c.noFlag {
		a = append(a, "-s")
	}
	if c.remove {
		a = append(a, "--remove-comments")
	}
	if c.path != "" {
		a = append(a, "-p", c.path)
	}
	return append(a, c.args...)
}

// result is what a run did.
type result struct {
	code   int
	stdout string
	stderr string
	files  map[string]string // what is there afterwards and was not put there
	lost   []string          // files put there that are gone or changed
}

func (c *scenario) setup() {
	for k, t := range c.files {
		p := filepath.Join(c.dir, k)
		os.MkdirAll(filepath.Dir(p), 0777)
		if c.links[k] == "" {
			ioutil.WriteFile(p, []byte(t), 0666)
		}
	}
	for _, d := range c.dirs {
		os.MkdirAll(filepath.Join(c.dir, d), 0777)
	}
	for k, t := range c.links {
		os.MkdirAll(filepath.Dir(filepath.Join(c.dir, k)), 0777)
		os.Symlink(t, filepath.Join(c.dir, k))
	}
	os.MkdirAll(filepath.Join(c.dir, c.cwd), 0777)
	if c.instr != "" {
		p := filepath.Join(c.dir, c.instr)
		os.MkdirAll(filepath.Dir(p), 0777)
		ioutil.WriteFile(p, []byte(strings.ReplaceAll(c.instructions(), "@ROOT@", c.dir)), 0666)
	}
}

func (c *scenario) run() *result {
	c.dir = filepath.Join(workDir(), "r", "s", "t") // room for relative paths that go up
	os.MkdirAll(c.dir, 0777)
	c.setup()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	args := c.allArgs()
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "@ROOT@", c.dir)
	}
	cmd := exec.CommandContext(ctx, yot, args...)
	cmd.Dir = filepath.Join(c.dir, c.cwd)
	cmd.Env = append([]string{"HOME=" + c.dir + "/home", "PATH=/usr/bin:/bin"}, c.env...)
	for i := range cmd.Env {
		cmd.Env[i] = strings.ReplaceAll(cmd.Env[i], "@ROOT@", c.dir)
	}
	cmd.Stdin = strings.NewReader(c.stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if c.full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err == nil {
			cmd.Stdout = f
			defer f.Close()
		}
	}
	err := cmd.Run()
	r := &result{stdout: o.String(), stderr: e.String(), files: map[string]string{}}
	if err != nil {
		r.code = cmd.ProcessState.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
	}
	base := filepath.Dir(filepath.Dir(filepath.Dir(c.dir)))
	filepath.Walk(base, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(c.dir, p)
		if c.links[rel] != "" {
			return nil
		}
		b, _ := ioutil.ReadFile(p)
		if rel == c.instr || c.links[rel] != "" {
			return nil
		}
		if c.root {
			rel = strings.ReplaceAll(rel, c.dir[1:], "ROOT")
		}
		if t, ok := c.files[rel]; ok && t == string(b) {
			return nil
		}
		r.files[rel] = string(b)
		return nil
	})
	for k := range c.files {
		if _, err := os.Stat(filepath.Join(c.dir, k)); err != nil {
			r.lost = append(r.lost, k)
		}
	}
	os.RemoveAll(base)
	return r
}

// ---- the model ----

// mfile is a file to process.
type mfile struct {
	path     string
	key      string
	overlays []*ov
	docs     []docEntry
	out      string
	nodes    []*yaml.Node
}

// want is what a run must do.
type want struct {
	fails   bool
	files   map[string][]*yaml.Node // output path, documents
	failed  map[string]bool         // outputs of files whose overlays fail
	order   []string
	unknown bool
}

func parseDocs(text string) ([]*yaml.Node, error) {
	d := yaml.NewDecoder(strings.NewReader(text))
	var r []*yaml.Node
	for {
		var n yaml.Node
		err := d.Decode(&n)
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return nil, err
		}
		r = append(r, &n)
	}
}

// expand lists the files of one path, which is relative to the scenario.
func (c *scenario) expand(p string) ([]string, bool) {
	if _, ok := c.files[p]; ok {
		return []string{p}, true
	}
	isDir := false
	for _, d := range c.dirs {
		if d == p || strings.HasPrefix(d, p+"/") || p == "." {
			isDir = true
		}
	}
	all := map[string]string{}
	for k := range c.files {
		all[k] = ""
	}
	if c.instr != "" {
		all[c.instr] = ""
	}
	var r []string
	for k := range all {
		if p == "." || strings.HasPrefix(k, p+"/") {
			isDir = true
			if path.Ext(k) == ".yaml" || path.Ext(k) == ".yml" {
				r = append(r, k)
			}
		}
	}
	// the order of a walk: names compared component by component
	sort.Slice(r, func(i, j int) bool {
		a, b := strings.Split(r[i], "/"), strings.Split(r[j], "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return r, isDir
}

func (c *scenario) rel(p, base string) string {
	p = strings.ReplaceAll(p, "@ROOT@", "/")
	if !path.IsAbs(p) {
		p = path.Join("/", base, p)
	}
	p = path.Clean(p)
	if p == "/" {
		return "."
	}
	return p[1:]
}

func commonDir(paths []string) string {
	var d []string
	for i, p := range paths {
		x := strings.Split(path.Dir(p), "/")
		if path.Dir(p) == "." {
			x = nil
		}
		if i == 0 {
			d = x
			continue
		}
		k := 0
		for k < len(d) && k < len(x) && d[k] == x[k] {
			k++
		}
		d = d[:k]
	}
	return strings.Join(d, "/")
}

func (c *scenario) model() *want {
	w := &want{files: map[string][]*yaml.Node{}, failed: map[string]bool{}}
	var fs []*mfile
	byPath := map[string]*mfile{}
	add := func(f *mfile) {
		if o := byPath[f.path]; o != nil {
			o.overlays = append(o.overlays, f.overlays...)
			o.docs = append(o.docs, f.docs...)
			if f.out != "" {
				o.out = f.out
			}
			return
		}
		byPath[f.path] = f
		fs = append(fs, f)
	}
	entries := c.yamls
	base := path.Dir(c.instr)
	if c.path != "" && c.path != "-" {
		entries = append(entries[:len(entries):len(entries)], entry{path: c.path})
		if c.instr == "" {
			base = c.cwd
		}
	}
	for _, e := range entries {
		if e.path == "-" {
			add(&mfile{path: "-", overlays: append([]*ov{}, e.overlays...), docs: append([]docEntry{}, e.docs...), out: e.out})
			continue
		}
		p := c.rel(e.path, base)
		fl, ok := c.expand(p)
		if !ok {
			w.fails = true
			return w
		}
		if _, isFile := c.files[p]; !isFile && path.Ext(e.out) != "" {
			w.fails = true
			return w
		}
		for _, x := range fl {
			add(&mfile{path: x, overlays: append([]*ov{}, e.overlays...), docs: append([]docEntry{}, e.docs...), out: e.out})
		}
	}
	if c.path == "-" {
		add(&mfile{path: "-", out: "stdin.yaml"})
	}
	for _, f := range fs {
		t, ok := c.files[f.path]
		if f.path == "-" {
			t, ok = c.stdin, true
		}
		if f.path == c.instr {
			t, ok = c.instructions(), true
		}
		if !ok {
			w.fails = true
			return w
		}
		n, err := parseDocs(t)
		if err != nil {
			w.fails = true
			return w
		}
		f.nodes = n
	}
	var ps []string
	for _, f := range fs {
		if f.path != "-" {
			ps = append(ps, f.path)
		}
	}
	common := c.common
	if c.adhoc != nil {
		common = append(common[:len(common):len(common)], c.adhoc)
	}
	dir := commonDir(ps)
	if c.root {
		dir = ""
	}
	outDir := c.out
	if outDir == "" {
		outDir = "./output"
	}
	for _, f := range fs {
		out := f.out
		if out == "" {
			out = strings.TrimPrefix(strings.TrimPrefix(f.path, dir), "/")
			if c.root {
				out = "ROOT/" + out
			}
		} else if path.Ext(out) == "" {
			out = path.Join(out, path.Base(f.path))
		}
		if !path.IsAbs(strings.ReplaceAll(out, "@ROOT@", "/")) {
			if path.IsAbs(strings.ReplaceAll(outDir, "@ROOT@", "/")) {
				out = path.Join(outDir, out)
			} else {
				out = path.Join(c.cwd, outDir, out)
			}
		}
		f.out = c.rel(out, "")
		if strings.HasPrefix(out, "..") {
			f.out = path.Clean(out)
		}
	}
	for _, f := range fs {
		bad := false
		for i, n := range f.nodes {
			if c.remove {
				for _, x := range g.Nodes(n) {
					x.HeadComment, x.LineComment, x.FootComment = "", "", ""
				}
			}
			do := func(o *ov) {
				if !bad && g.Apply(o.model, n, c.inject) {
					bad = true
				}
			}
			sel := func(o *ov) bool {
				if !o.model.HasIndex {
					return true
				}
				for _, x := range o.model.Index {
					if x == i {
						return true
					}
				}
				return false
			}
			for _, o := range common {
				if sel(o) {
					do(o)
				}
			}
			for _, o := range f.overlays {
				if sel(o) {
					do(o)
				}
			}
			for _, d := range f.docs {
				if d.path == i {
					for _, o := range d.overlays {
						do(o)
					}
				}
			}
		}
		if bad {
			w.fails = true
			w.failed[f.out] = true
			continue
		}
		var docs []*yaml.Node
		for _, n := range f.nodes {
			if len(n.Content) > 0 {
				docs = append(docs, n)
			}
		}
		if len(docs) == 0 {
			continue
		}
		if _, dup := w.files[f.out]; dup {
			w.unknown = true
		}
		w.files[f.out] = docs
		w.order = append(w.order, f.out)
	}
	return w
}

// emitted is what parsing the emitted documents gives.
func (c *scenario) emitted(docs []*yaml.Node) ([]s.Node, string) {
	var b bytes.Buffer
	b.WriteString("---\n")
	e := yaml.NewEncoder(&b)
	n := c.indent
	if n == 0 {
		n = 2
	}
	e.SetIndent(n)
	st := c.style
	if st == 0 {
		st = 64
	}
	for _, d := range docs {
		d = g.Clone(d)
		m := g.NewIDs(d)
		m.Put(d, s.Styled(st, m.Spec(d)))
		if err := e.Encode(d); err != nil {
			return nil, ""
		}
	}
	e.Close()
	r, err := views(b.String())
	if err != nil {
		return nil, ""
	}
	return r, b.String()
}

func views(text string) ([]s.Node, error) {
	// each document by itself: a comment next to a document marker would
	// otherwise belong to either document
	var r []s.Node
	for i, d := range strings.Split("\n"+strings.TrimRight(text, "\n"), "\n---\n") {
		d += "\n"
		if i > 0 {
			d = "---\n" + d
		} else if strings.TrimSpace(d) == "" {
			continue
		}
		ns, err := parseDocs(d)
		if err != nil {
			return nil, err
		}
		for _, n := range ns {
			r = append(r, g.Short(n))
		}
	}
	return r, nil
}

// expected is what each output must hold.
func (c *scenario) expected(w *want) (map[string][]s.Node, map[string]string) {
	exp := map[string][]s.Node{}
	txt := map[string]string{}
	for f, docs := range w.files {
		exp[f], txt[f] = c.emitted(docs)
		if exp[f] == nil {
			return nil, nil
		}
	}
	return exp, txt
}

// check runs the scenario and compares with the model.
func (c *scenario) check(r *g.Rec, nontrivial bool) *result {
	r.Case(nontrivial, c.describe())
	w := c.model()
	if w.unknown {
		r.Skip()
		return nil
	}
	exp, txt := c.expected(w)
	if exp == nil {
		r.Skip() // the emitter itself fails or does not give YAML
		return nil
	}
	res := c.run()
	if d := c.compare(w, exp, txt, res); d != "" {
		r.Fail(d+"\nexit status "+fmt.Sprint(res.code)+"\nstandard error:\n"+clip(res.stderr)+"\nstandard output:\n"+clip(res.stdout), c.describe())
	}
	return res
}

func clip(t string) string {
	if len(t) > 2000 {
		return t[:2000] + "..."
	}
	return t
}

func (c *scenario) compare(w *want, exp map[string][]s.Node, txt map[string]string, res *result) string {
	if len(res.lost) > 0 {
		return fmt.Sprintf("input files are gone: %q", res.lost)
	}
	if w.fails {
		if res.code == 0 {
			return "the run must fail, but the exit status is 0"
		}
		if strings.TrimSpace(res.stderr) == "" {
			return "the run failed without a message"
		}
		for f := range res.files {
			if w.failed[f] {
				return "output " + f + " was written for a file one of whose overlays failed"
			}
			if exp[f] == nil {
				return "unexpected file " + f + " was written"
			}
			if d := same(res.files[f], exp[f]); d != "" {
				return "file " + f + ": " + d
			}
		}
		if c.stdout && len(w.failed) > 0 && len(exp) == 0 && strings.TrimSpace(res.stdout) != "" {
			return "output was written for a file one of whose overlays failed"
		}
		return ""
	}
	if res.code != 0 {
		return "the run fails, but should succeed"
	}
	if strings.Contains(res.stderr, "panic:") {
		return "panic"
	}
	if c.stdout {
		for f := range res.files {
			return "file " + f + " was written in spite of --stdout"
		}
		got, err := views(res.stdout)
		if err != nil {
			return "standard output is no YAML: " + err.Error()
		}
		return c.permuted(got, exp)
	}
	for f, want := range exp {
		t, ok := res.files[f]
		if !ok {
			if c.files[f] != "" && same(c.files[f], want) == "" {
				continue // it had this content already
			}
			return fmt.Sprintf("file %s was not written (written: %q)\nshould be\n%s", f, keys(res.files), txt[f])
		}
		if d := same(t, want); d != "" {
			return "file " + f + ": " + d + "\nis\n" + t + "\nshould be\n" + txt[f]
		}
	}
	for f, t := range res.files {
		if exp[f] == nil {
			return "unexpected file " + f + " was written or changed\n" + t
		}
	}
	return ""
}

func keys(m map[string]string) []string { return g.Keys(m) }

func same(text string, want []s.Node) string {
	got, err := views(text)
	if err != nil {
		return "is no YAML: " + err.Error()
	}
	if len(got) != len(want) {
		return fmt.Sprintf("has %d documents, should have %d", len(got), len(want))
	}
	for i := range got {
		if d := g.Diff(got[i], want[i]); d != "" {
			return fmt.Sprintf("document %d %s", i, d)
		}
	}
	return ""
}

// permuted: got is the documents of the files, the files in any order.
func (c *scenario) permuted(got []s.Node, exp map[string][]s.Node) string {
	if len(exp) == 0 {
		if len(got) != 0 {
			return "output, but no document has content"
		}
		return ""
	}
	total := 0
	for f, want := range exp {
		total += len(want)
		if len(want) > len(got) {
			continue
		}
		ok := true
		for i := range want {
			if g.Diff(got[i], want[i]) != "" {
				ok = false
			}
		}
		if ok {
			rest := map[string][]s.Node{}
			for k, v := range exp {
				if k != f {
					rest[k] = v
				}
			}
			if c.permuted(got[len(want):], rest) == "" {
				return ""
			}
		}
	}
	return fmt.Sprintf("standard output has %d documents that are not the %d documents of the %d files, each file's in order", len(got), total, len(exp))
}
