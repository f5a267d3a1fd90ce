package verife2e

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"
	"testing"

	g "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifgen"
	"gopkg.in/yaml.v3"
)

// makeOverlay writes an overlay; value is YAML flow text ("" for none).
func makeOverlay(name string, m g.Overlay, value string) *ov {
	var b strings.Builder
	q, _ := json.Marshal(m.Queries)
	if len(m.Queries) == 1 {
		q, _ = json.Marshal(m.Queries[0])
	}
	fmt.Fprintf(&b, "name: %s\nquery: %s\n", name, q)
	if m.Action != "" {
		b.WriteString("action: " + m.Action + "\n")
	}
	if value != "" {
		b.WriteString("value: " + value + "\n")
		var n yaml.Node
		if err := yaml.Unmarshal([]byte("value: "+value+"\n"), &n); err != nil {
			panic(err)
		}
		m.Value = n.Content[0].Content[1]
	} else {
		m.Value = &yaml.Node{}
	}
	if m.OnMissing != "" || m.Inject != nil {
		b.WriteString("onMissing:\n")
		if m.OnMissing != "" {
			b.WriteString("  action: " + m.OnMissing + "\n")
		}
		if m.Inject != nil {
			j, _ := json.Marshal(m.Inject)
			b.WriteString("  injectPath: " + string(j) + "\n")
		}
	}
	if m.HasIndex {
		x := m.Index
		if x == nil {
			x = []int{}
		}
		j, _ := json.Marshal(x)
		b.WriteString("documentIndex: " + string(j) + "\n")
	}
	return &ov{b.String(), &m}
}

var seq int

// logOverlay appends its own name to the log of the document.
func logOverlay(r *g.Rec, index bool) *ov {
	seq++
	name := fmt.Sprintf("o%d", seq)
	m := g.Overlay{Queries: []string{"log"}, Action: g.Pick(r.R, "", "merge")}
	if index && r.R.Intn(3) == 0 {
		m.HasIndex = true
		for k := r.R.Intn(3); k > 0; k-- {
			m.Index = append(m.Index, r.R.Intn(4))
		}
	}
	return makeOverlay(name, m, "["+name+"]")
}

func logOverlays(r *g.Rec, max int, index bool) []*ov {
	var os []*ov
	for k := r.R.Intn(max + 1); k > 0; k-- {
		os = append(os, logOverlay(r, index))
	}
	return os
}

func logDocs(r *g.Rec, name string) string {
	n := 1 + r.R.Intn(3)
	t := ""
	for i := 0; i < n; i++ {
		t += fmt.Sprintf("---\nname: %s-%d\nlog: [start]\n", name, i)
	}
	return t
}

func docEntries(r *g.Rec) []docEntry {
	var ds []docEntry
	for k := r.R.Intn(3); k > 0; k-- {
		d := docEntry{hasPath: r.R.Intn(4) > 0, overlays: logOverlays(r, 2, false)}
		if d.hasPath {
			d.path = r.R.Intn(3)
		}
		ds = append(ds, d)
	}
	return ds
}

// spell spells a path relative to the directory of the instructions file in
// another way.
func spell(r *g.Rec, p string) string {
	switch r.R.Intn(6) {
	case 0:
		return "./" + p
	case 1:
		return "x/../" + p
	case 2:
		return strings.Replace(p, "/", "//", 1)
	case 3:
		return strings.Replace(p, "/", "/./", 1)
	}
	return p
}

func TestVerif_C09_scope(t *testing.T) {
	r := g.Start(t, "C09", "scope", "instruction sets of 1-4 files, directories and repeated entries with 0-4 common, 0-3 file and document overlays that each append their name to a log in the document; non-trivial: at least two overlays")
	r.Run(r.N(880, 3000), func(int) {
		c := &scenario{instr: "i/instructions.yaml", files: map[string]string{}, dirs: []string{"i/x"}, out: "out", stdout: r.R.Intn(5) == 0}
		n := 1 + r.R.Intn(4)
		for k := 0; k < n; k++ {
			c.files[fmt.Sprintf("i/m/f%d.yaml", k)] = logDocs(r, fmt.Sprint("f", k))
		}
		c.common = logOverlays(r, 4, true)
		for k := 0; k < n; k++ {
			p := fmt.Sprintf("m/f%d.yaml", k)
			if r.R.Intn(8) == 0 {
				p = "m"
			}
			c.yamls = append(c.yamls, entry{path: p, overlays: logOverlays(r, 3, true), docs: docEntries(r)})
			if r.R.Intn(4) == 0 {
				c.yamls = append(c.yamls, entry{path: p, overlays: logOverlays(r, 2, true), docs: docEntries(r)})
			}
		}
		if r.R.Intn(2) == 0 {
			c.adhoc = &ov{"", &g.Overlay{Queries: []string{"log"}, Value: g.Seq(g.Str("adhoc"))}}
			c.args = append(c.args, "-q", "log", "-x", "[adhoc]")
		}
		if r.R.Intn(5) == 0 {
			// a file given on the command line besides, listed or not
			c.path = g.Pick(r.R, "m/f0.yaml", "m/f0.yaml", "m/f1.yaml", "./m/../m/f0.yaml", "m", "m/more.yaml")
			c.files["i/m/more.yaml"], c.files["i/m/f1.yaml"] = logDocs(r, "more"), logDocs(r, "f1")
		}
		c.check(r, seq > 1)
	})
}

func TestVerif_C11_documents(t *testing.T) {
	r := g.Start(t, "C11", "documents", "files of 1-4 documents with overlays limited to index lists (absent, empty, repeated, out of range) and document entries; non-trivial: an index list or a document entry")
	r.Run(r.N(800, 3000), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{}, out: "out"}
		t := ""
		n := 1 + r.R.Intn(4)
		for i := 0; i < n; i++ {
			if r.R.Intn(6) == 0 {
				t += "---\n" + g.Pick(r.R, "", "# comment\n", "null\n", "{}\n", "[]\n", "~\n")
				continue
			}
			t += fmt.Sprintf("---\nname: d%d\nlog: []\n", i)
		}
		c.files["a.yaml"] = t
		nt := false
		lists := func(max int) []*ov {
			var os []*ov
			for k := r.R.Intn(max + 1); k > 0; k-- {
				seq++
				name := fmt.Sprintf("o%d", seq)
				m := g.Overlay{Queries: []string{"log"}, HasIndex: r.R.Intn(4) > 0}
				if m.HasIndex {
					nt = true
					for j := r.R.Intn(4); j > 0; j-- {
						m.Index = append(m.Index, r.R.Intn(n+2))
					}
				}
				os = append(os, makeOverlay(name, m, "["+name+"]"))
			}
			return os
		}
		c.common = lists(2)
		c.yamls = []entry{{path: "a.yaml", overlays: lists(3), docs: docEntries(r)}}
		c.check(r, nt || len(c.yamls[0].docs) > 0)
	})
}

func TestVerif_C12_default(t *testing.T) {
	r := g.Start(t, "C12", "default", "an overlay whose query matches or not, with every source of the default missing-match action (flag, environment, configuration file, none); non-trivial: the query misses")
	r.Run(r.N(480, 1500), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{"a.yaml": "a: {b: 1}\nz: [1]\n"}, out: "out"}
		m := g.Overlay{Queries: []string{g.Pick(r.R, "a.b", "a.c", "n.m", "q[*]", "z[0]", "a['d']")}, Action: g.Pick(r.R, "", "merge", "replace", "delete", "combine"),
			OnMissing: g.Pick(r.R, "", "", "ignore", "inject")}
		if r.R.Intn(3) == 0 {
			m.Inject = []string{"inj.x"}
		}
		switch r.R.Intn(4) {
		case 0:
			c.args, c.inject = []string{"--default-on-missing-action", "inject"}, true
		case 1:
			c.env, c.inject = []string{"YOT_DEFAULT_ON_MISSING_ACTION=inject"}, true
		case 2:
			c.files["yot.config"], c.inject = "defaultOnMissingAction: inject\n", true
		}
		c.common = []*ov{makeOverlay("o", m, "7")}
		c.yamls = []entry{{path: "a.yaml"}}
		c.check(r, !strings.Contains(m.Queries[0], "a.b") && !strings.Contains(m.Queries[0], "z"))
	})
}

func TestVerif_C13_run(t *testing.T) {
	r := g.Start(t, "C13", "run", "whole runs that inject one path into several files and documents; non-trivial: every run")
	r.Run(r.N(320, 1000), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{}, out: "out"}
		for k := 0; k < 2; k++ {
			f := fmt.Sprintf("m/f%d.yaml", k)
			c.files[f] = g.Pick(r.R, "a: {b: {x: 1}}\n", "a: {q: 1}\nk: 2\n---\nz: 1\n", "{}\n", "m: 1 # c\n", "a:\n  # h\n  b: {}\n")
			c.yamls = append(c.yamls, entry{path: f})
		}
		p := g.Pick(r.R, "a.b.c", "$.a.b['c.d']", "new", "a['x','y'].z", "a.b.c.d.e", "['q/r'].s")
		m := g.Overlay{Queries: []string{p}, OnMissing: "inject", Action: g.Pick(r.R, "", "replace")}
		if r.R.Intn(3) == 0 {
			m.Queries, m.Inject = []string{"nothing[*]"}, []string{p, "other.place"}
		}
		c.common = []*ov{makeOverlay("o", m, g.Pick(r.R, "1", "{u: 1, v: [2]}", "[x, {y: z}]", "text"))}
		c.check(r, true)
	})
}

// tree of input files.
func inputs(r *g.Rec, c *scenario, base string) []string {
	dirs := []string{"", "", "d/", "d/e/", "dx/", "d/e2/", "deep/a/b/c/", ".hidden/", "d/.h/x/", "d.yaml/", "Dir/", "D/"}
	var fs []string
	for k := 1 + r.R.Intn(5); k > 0; k-- {
		p := dirs[r.R.Intn(len(dirs))] + g.Pick(r.R, "a", "b", "c", "name.with.dots", "with space", ".dot", "_a", "A", "..b", "-c", "é") + g.Pick(r.R, ".yaml", ".yml", ".yaml")
		if c.files[base+p] == "" {
			c.files[base+p] = logDocs(r, strings.ReplaceAll(p, " ", "_"))
			fs = append(fs, p)
		}
	}
	return fs
}

func TestVerif_C14_files(t *testing.T) {
	r := g.Start(t, "C14", "files", "trees of files (.yaml, .yml and others) listed as files and directories, repeatedly and in different spellings, with log overlays, document entries and output paths; non-trivial: a directory or a repeated file")
	r.Run(r.N(960, 3000), func(int) {
		c := &scenario{instr: g.Pick(r.R, "i/instructions.yaml", "instructions.txt", "i/j/instructions.yaml"), files: map[string]string{}, out: "out", cwd: g.Pick(r.R, "", "w", "i")}
		up := "./"
		if strings.HasPrefix(c.instr, "i/j") {
			up = "../../"
		} else if strings.HasPrefix(c.instr, "i/") {
			up = "../"
		}
		fs := inputs(r, c, "m/")
		for k := r.R.Intn(3); k > 0; k-- {
			c.files["m/"+g.Pick(r.R, "d/readme.md", "x.json", "d/y.yaml.bak", "yaml", "d/e/z.YAML", ".yamlx")] = "not: [yaml\n"
		}
		c.dirs = []string{"m/x", "m/empty", "i/x"}
		nt := false
		switch r.R.Intn(6) {
		case 0: // a file that is a symbolic link
			c.files["src/real.txt"] = logDocs(r, "linked")
			f := g.Pick(r.R, "m/d/linked.yaml", "m/linked.yml", "m/d/e/linked.yaml")
			c.files[f] = c.files["src/real.txt"]
			c.links = map[string]string{f: strings.Repeat("../", strings.Count(f, "/")) + "src/real.txt"}
			fs = append(fs, f[2:])
		case 1: // a file without content
			f := g.Pick(r.R, "m/d/none.yaml", "m/none.yml")
			c.files[f] = g.Pick(r.R, "", "", "# a comment\n", "---\n")
			fs = append(fs, f[2:])
		}
		for k := 1 + r.R.Intn(4); k > 0; k-- {
			p := "m/" + fs[r.R.Intn(len(fs))]
			if r.R.Intn(3) == 0 {
				d := strings.Split(p, "/")
				p = strings.Join(d[:len(d)-1], "/")
				if r.R.Intn(8) == 0 {
					p = "m/empty"
				}
				if r.R.Intn(3) == 0 {
					p += "/"
				}
				nt = true
			}
			e := entry{path: up + p, overlays: logOverlays(r, 2, true), docs: docEntries(r)}
			switch r.R.Intn(5) {
			case 0:
				e.path = up + "m/x/.." + p[1:]
			case 1:
				e.path = strings.ReplaceAll(up+p, "/m/", "/./m//")
			case 2:
				e.path = "@ROOT@/" + strings.Replace(p, "m", g.Pick(r.R, "m", "m", "m/x/..", "./m/", "m/../m"), 1)
			case 3:
				if strings.Contains(p, "d/") {
					e.path = up + strings.Replace(p, "d/", "d/../d/", 1)
				}
			}
			if r.R.Intn(4) == 0 {
				e.out = g.Pick(r.R, "od", "od/sub", "named.yaml", "od2", "od", "od2/x", "od3", "n.yml", "n.json", "o.d/sub", ".hid")
			}
			c.yamls = append(c.yamls, e)
		}
		if r.R.Intn(8) == 0 {
			// standard input, once or twice
			c.stdin = logDocs(r, "stdin")
			for k := 1 + r.R.Intn(2); k > 0; k-- {
				at := r.R.Intn(len(c.yamls) + 1)
				c.yamls = append(c.yamls[:at:at], append([]entry{{path: "-", out: "from-stdin.yaml", overlays: logOverlays(r, 2, true), docs: docEntries(r)}}, c.yamls[at:]...)...)
			}
		}
		if len(c.yamls) > 1 {
			nt = true
		}
		if r.R.Intn(2) == 0 {
			c.common = logOverlays(r, 2, true)
		}
		if r.R.Intn(5) == 0 {
			// a path on the command line besides
			p := "m/" + fs[r.R.Intn(len(fs))]
			if r.R.Intn(3) == 0 {
				p = path.Dir(p)
			}
			c.path = g.Pick(r.R, up, up+"m/x/../../", "@ROOT@/", "@ROOT@//./") + p
			nt = true
		}
		c.check(r, nt)
	})
}

func TestVerif_C15_outputs(t *testing.T) {
	r := g.Start(t, "C15", "outputs", "sets of input files at several depths and in sibling directories with common name prefixes, spelled in several ways, with and without explicit output paths; the set of written files is compared; non-trivial: at least two files")
	r.Run(r.N(960, 3000), func(int) {
		c := &scenario{instr: g.Pick(r.R, "i/instructions.yaml", "instructions.txt"), files: map[string]string{}, cwd: g.Pick(r.R, "", "w")}
		c.out = g.Pick(r.R, "", "out", "./out/deep", "@ROOT@/abs/out", "out/", "../o2")
		if c.cwd == "" && c.out == "../o2" {
			c.out = "out"
		}
		up := ""
		if c.instr[0] == 'i' && c.instr[1] == '/' {
			up = "../"
		}
		dirs := []string{"m/", "m/", "m/a/", "m/ab/", "m/a/b/", "m/abc/", "n/", "m/a.b/", "m/ab/c/d/", "M/A/", "m/.h/", "m/..x/", "m/-/", "m/ a/"}
		if r.R.Intn(3) == 0 {
			dirs = []string{"m/ab/", "m/abc/", "m/abd/x/"}
		}
		for k := 1 + r.R.Intn(4); k > 0; k-- {
			f := dirs[r.R.Intn(len(dirs))] + g.Pick(r.R, "a.yaml", "b.yaml", "ab.yml", "x", "a.yaml", "b.yaml", "Ab.Yaml", ".b.yml", "..yaml", "-.yaml", "é x.yaml", "a%20.yaml")
			if c.files[f] != "" || c.expandConflict(f) {
				continue
			}
			c.files[f] = "file: " + f + "\nlog: []\n"
			e := entry{path: up + f}
			switch r.R.Intn(6) {
			case 0:
				e.path = up + strings.Replace(f, "m/", "m/./", 1)
			case 1:
				e.path = up + strings.Replace(f, "m/", "m//", 1)
			case 2:
				e.path = "@ROOT@/" + g.Pick(r.R, f, "./"+f, "/"+f, strings.Replace(f, "m/", "m/../m/", 1), strings.Replace(f, "m/", "m/.//", 1))
			case 3:
				e.path = up + strings.Replace(f, "m/", "m/../m/", 1)
			}
			if r.R.Intn(4) == 0 {
				e.out = g.Pick(r.R, "renamed.yaml", "odir", "odir/two", "a/b/c.yml", "./odd/../even", "dir.d/file.yaml", "Odir/X", "Re.YAML", ".o", "@ROOT@/abs/dir", "@ROOT@/abs/named.yaml", "@ROOT@/out/in")
			}
			c.yamls = append(c.yamls, e)
		}
		if r.R.Intn(4) == 0 && len(c.yamls) > 0 {
			// a directory as a whole
			c.yamls = []entry{{path: up + "m"}}
			if _, ok := c.expand("m"); !ok {
				c.yamls[0].path = up + "n"
			}
		}
		if r.R.Intn(8) == 0 && len(c.yamls) > 0 {
			// from the command line, without instructions
			c.yamls, c.instr = nil, ""
			for f := range c.files {
				if c.path == "" || f < c.path {
					c.path = f
				}
			}
			if c.cwd != "" {
				c.path = "../" + c.path
			}
			c.path = g.Pick(r.R, c.path, "./"+c.path, strings.Replace(c.path, "m/", "m//./", 1))
		} else if r.R.Intn(8) == 0 {
			// on the command line besides
			for f := range c.files {
				if c.path == "" || up+f < c.path {
					c.path = up + f
				}
			}
		}
		if r.R.Intn(12) == 0 && c.path == "" {
			// standard input besides
			c.path, c.stdin = "-", "from: stdin\nlog: []\n"
		}
		c.check(r, len(c.yamls) > 1)
	})
	// inputs whose only common directory is the root
	r.Run(r.N(60, 200), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{}, out: "out", root: true}
		for k := 1 + r.R.Intn(2); k > 0; k-- {
			f := g.Pick(r.R, "m/a.yaml", "m/b/c.yaml", "n.yaml")
			c.files[f] = "file: " + f + "\n"
			c.yamls = append(c.yamls, entry{path: g.Pick(r.R, "", "@ROOT@/") + f})
			if r.R.Intn(3) == 0 {
				c.yamls[len(c.yamls)-1].out = g.Pick(r.R, "renamed.yaml", "odir")
			}
		}
		c.check(r, true)
	})
}

func (c *scenario) expandConflict(f string) bool {
	for k := range c.files {
		if strings.HasPrefix(k, f+"/") || strings.HasPrefix(f, k+"/") {
			return true
		}
	}
	return false
}

func TestVerif_C16_documents(t *testing.T) {
	r := g.Start(t, "C16", "documents", "up to 48 files of 0-5 documents, some empty, some long or emptied by deleting the root, to files (some existing and longer) or standard output; non-trivial: a document is emptied")
	r.Run(r.N(880, 3000), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{}, out: "out", stdout: r.R.Intn(2) == 0}
		nt := false
		files := 1 + r.R.Intn(3)
		if r.R.Intn(25) == 0 {
			files = 9 + r.R.Intn(40)
		}
		for k := files; k > 0; k-- {
			f := fmt.Sprintf("m/f%d.yaml", k)
			n := r.R.Intn(5)
			t := ""
			for i := 0; i < n; i++ {
				t += g.Pick(r.R, "---\n", "---\n", "---\n", "--- # doc\n") + g.Pick(r.R, fmt.Sprintf("name: f%d-%d\nlog: [1]\n", k, i), fmt.Sprintf("name: f%d-%d\nlog: [1]\n", k, i), "", "# only a comment\n", fmt.Sprintf("[a, %d]\n", i), "scalar\n", "{}\n", "null\n")
			}
			c.files[f] = t
			e := entry{path: f}
			for i := 0; i < n; i++ {
				if r.R.Intn(3) == 0 {
					m := g.Overlay{Queries: []string{"$"}, Action: "delete", HasIndex: true, Index: []int{i}}
					e.overlays = append(e.overlays, makeOverlay(fmt.Sprint("del", i), m, ""))
					nt = true
				}
			}
			e.overlays = append(e.overlays, logOverlays(r, 1, true)...)
			c.yamls = append(c.yamls, e)
			if r.R.Intn(150) == 0 { // a long file
				c.files[f] = t + "---\nname: long\nlog: [1]\ntext:\n" + strings.Repeat("- line of a long file\n", 4000) + "---\nname: last\n"
			}
			if r.R.Intn(3) == 0 {
				c.files["out/"+fmt.Sprintf("f%d.yaml", k)] = strings.Repeat("old: content\n---\n", 30)
			}
		}
		if r.R.Intn(6) == 0 {
			c.path, c.stdin = "-", strings.Repeat(logDocs(r, "in"), g.PickInt(r.R, 1, 1, 2, 20, 120))
		}
		if r.R.Intn(10) == 0 {
			m := g.Overlay{Queries: []string{"$"}, Action: "delete"}
			c.common = append(c.common, makeOverlay("all", m, ""))
			nt = true
		}
		if c.stdout {
			switch r.R.Intn(4) {
			case 0:
				c.env = []string{"YOT_STDOUT=" + g.Pick(r.R, "true", "1", "TRUE")}
				c.noFlag = true
			case 1:
				c.files["yot.config"] = "stdout: true\n"
				c.noFlag = true
			}
		}
		c.check(r, nt)
	})
}

func TestVerif_C17_failures(t *testing.T) {
	r := g.Start(t, "C17", "failures", "runs with one fault at a random place: an unreadable or unparsable file, values file or instructions file, a failing overlay at any position on any document, an output that cannot be written; and runs without fault; non-trivial: a fault")
	r.Run(r.N(1040, 3000), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{}, out: "out", stdout: r.R.Intn(5) == 0}
		n := 1 + r.R.Intn(3)
		if r.R.Intn(25) == 0 {
			n = 9 + r.R.Intn(20)
		}
		for k := 0; k < n; k++ {
			f := fmt.Sprintf("m/f%d.yaml", k)
			c.files[f] = logDocs(r, fmt.Sprint("f", k))
			c.yamls = append(c.yamls, entry{path: f, overlays: logOverlays(r, 2, true), docs: docEntries(r)})
			if r.R.Intn(3) == 0 {
				c.files["out/"+fmt.Sprintf("f%d.yaml", k)] = "old: 1\n"
			}
		}
		c.common = logOverlays(r, 2, true)
		bad := func() *ov {
			switch r.R.Intn(4) {
			case 0:
				return makeOverlay("bad", g.Overlay{Queries: []string{"log"}, Action: "combine"}, "x")
			case 1:
				return makeOverlay("bad", g.Overlay{Queries: []string{"name"}, Action: "combine"}, "[x]")
			case 2:
				return makeOverlay("bad", g.Overlay{Queries: []string{"n"}, Action: "combine"}, "9223372036854775807")
			}
			return makeOverlay("bad", g.Overlay{Queries: []string{"n", "log"}, Action: "combine"}, "1")
		}
		kind := r.R.Intn(15)
		mustFail := true
		switch kind {
		case 0:
			// a broken document at some place of some file
			t := ""
			for k := r.R.Intn(5); k > 0; k-- {
				t += g.Pick(r.R, "---\nname: x\nlog: [start]\n", "---\n", "---\nok: 1\n", "--- # c\n[]\n")
			}
			t += "---\n" + g.Pick(r.R, "a: [1\n", "b: }\n", "\tx: 1\n", "a: 1\nb\n", "*x\n", "'open\n", "a: b: c\n", "%%\n", "&a &b c\n", "a: \"\\q\"\n")
			for k := r.R.Intn(3); k > 0; k-- {
				t += "---\nname: x\nlog: [start]\n"
			}
			c.files[fmt.Sprintf("m/f%d.yaml", r.R.Intn(n))] = t
		case 1:
			c.yamls[r.R.Intn(n)].path = "m/missing.yaml"
		case 2:
			c.raw = g.Pick(r.R, "yamlFiles: [\n", "yamlFiles:\n- path: m/f0.yaml\n  overlays:\n  - query: 'a['\n", "commonOverlays:\n- query: a\n  action: explode\n", "yamlFiles: 7\n", "commonOverlays:\n- query: a\n  documentIndex: x\n",
				"commonOverlays:\n- query: [name, 'b[']\n  value: 1\n", "commonOverlays:\n- query: name\n  value: 1\n  onMissing: {injectPath: [name, 'b[']}\n", "commonOverlays:\n- query: name\n  value: 1\n  documentQuery:\n  - conditions:\n    - query: 'b['\n      value: 1\n",
				"commonOverlays: {a: 1}\n", "commonOverlays:\n- query: {a: 1}\n", "commonOverlays:\n- query: a\n  action: [merge]\n", "yamlFiles:\n- path: m/f0.yaml\n  documents:\n  - path: x\n", "yamlFiles:\n- path: m/f0.yaml\n  documents: 7\n", "- a\n", "text\n")
		case 3:
			k := r.R.Intn(3)
			for j := 0; j < 3; j++ {
				v := fmt.Sprintf("values%d.yaml", j)
				if j != k && r.R.Intn(2) == 0 {
					c.files[v] = fmt.Sprintf("v%d: 1\n", j)
					c.args = append(c.args, "-f", v)
				} else if j == k {
					c.args = append(c.args, "-f", v)
					if r.R.Intn(3) > 0 {
						c.files[v] = g.Pick(r.R, "a: [\n", "a: }\n", "a: 1\nb\n", "'x\n")
					}
				}
			}
		case 4:
			// the directory of the output is a file
			c.files["out/sub"] = "a file\n"
			c.yamls[r.R.Intn(n)].out = "sub/x.yaml"
			c.stdout = false
		case 5:
			c.stdout = false
			k := r.R.Intn(n)
			c.yamls[k].out = "full.yaml"
			switch r.R.Intn(3) {
			case 0:
				c.dirs = append(c.dirs, "out/full.yaml")
			case 1:
				// the device is full
				c.links = map[string]string{"out/full.yaml": "/dev/full"}
			case 2:
				c.stdout = true
				c.full = true
			}
		case 6, 7, 8, 9:
			o := bad()
			if o.model.Queries[0] == "n" {
				for f, t := range c.files {
					if strings.HasPrefix(f, "m/") {
						c.files[f] = strings.ReplaceAll(t, "log:", "n: 5\nlog:")
					}
				}
			}
			if r.R.Intn(3) == 0 {
				o.model.HasIndex = true
				o.model.Index = []int{r.R.Intn(3)}
				o.text += fmt.Sprintf("documentIndex: [%d]\n", o.model.Index[0])
			}
			k := r.R.Intn(n)
			switch r.R.Intn(3) {
			case 0:
				p := r.R.Intn(len(c.common) + 1)
				c.common = append(c.common[:p:p], append([]*ov{o}, c.common[p:]...)...)
			case 1:
				os := c.yamls[k].overlays
				p := r.R.Intn(len(os) + 1)
				c.yamls[k].overlays = append(os[:p:p], append([]*ov{o}, os[p:]...)...)
			case 2:
				c.yamls[k].docs = append(c.yamls[k].docs, docEntry{true, r.R.Intn(2), append(logOverlays(r, 1, false), o)})
			}
			mustFail = false // as the model says
		case 10:
			// an overlay on the command line that cannot be read
			kind = 3
			c.args = append(c.args, "-q", "log", "-x", g.Pick(r.R, "[1", "a: b: c", "}", "\"x"))
		case 11:
			// a template that cannot be rendered
			c.files["v.yaml"] = "a: 1\n"
			c.args = append(c.args, "-f", "v.yaml")
			t := c.instructions()
			p := strings.Index(t+"\n", "\n") + 1
			if r.R.Intn(2) == 0 || p > len(t) {
				p = len(t)
			}
			c.raw = t[:p] + "# " + g.Pick(r.R, "{{ .a.b.c }}", "{{ fail \"stop\" }}", "{{ index .list 7 }}", "{{ .a", "{{ nofunc }}", "{{ end }}") + "\n" + t[p:]
			kind = 3
		case 12:
			// a configuration file that cannot be read
			c.files["yot.config"] = g.Pick(r.R, "stdout: [\n", "a: }\n", "a: 1\nb\n", "\tx: 1\n", "'open\n")
			if r.R.Intn(3) == 0 {
				c.files["sub/x.cfg"] = c.files["yot.config"]
				delete(c.files, "yot.config")
				if r.R.Intn(3) == 0 {
					delete(c.files, "sub/x.cfg")
				}
				c.args = append(c.args, "--config", "sub/x.cfg")
			}
			kind = 3
		default:
			mustFail = false
		}
		if !mustFail {
			w := c.model()
			c.check(r, w.fails)
			return
		}
		r.Case(true, c.describe())
		res := c.run()
		switch {
		case res.code == 0:
			r.Fail("the run must fail, but the exit status is 0\nstandard error:\n"+res.stderr, c.describe())
		case strings.TrimSpace(res.stderr) == "":
			r.Fail("the run failed without a message", c.describe())
		case strings.Contains(res.stderr, "panic:") || strings.Contains(res.stderr, "goroutine "):
			r.Fail("the run crashed:\n"+clip(res.stderr), c.describe())
		case kind < 4 && len(res.files) > 0 && !c.stdout:
			r.Fail(fmt.Sprintf("outputs %q were written, though the inputs cannot be read", keys(res.files)), c.describe())
		}
	})
}

var commented = []string{
	"# head of doc\n\n# head a\na: 1 # line a\n# foot a\n\nb: # line b\n  # head c\n  c: [x, y] # line c\n  # foot c\n# end\n",
	"# only\na:\n- 1 # one\n# between\n- 2\n# after\n- {k: v} # flow\n",
	"a: |  # lit\n  text # no comment\n  more\nb: '# no'\nc: \"x # y\"\n",
	"--- # start\n# h\nx: &a # anchor\n  k: v # kv\ny: *a # alias\n# f\n",
	"- # dash\n  a: 1\n# two\n- b: 2 # bb\n",
	"# t\na: !!str 12 # tagged\nb: !custom {k: !!int \"3\"} # c\nc: !!seq [x] # s\nd: !!binary aGk= # b\n",
	"# q\na: \"x\" # dq\nb: 'y' # sq\nc: >- # fold\n  some\n  text\nd: | # lit\n  t\ne: {a: 1} # flow\nf: # block\n  a: 1\n? [k] # complex\n: v # cv\n",
	"scalar # sc\n", "# nothing else\n", "{a: 1, # in flow\n b: 2}\n", "? # key\n  k\n: # val\n  v\n",
}

// commentedText is a random block document with comments on many lines.
func commentedText(r *g.Rec, indent, depth int) string {
	pad := strings.Repeat(" ", indent)
	var b strings.Builder
	line := func() string {
		if r.R.Intn(2) == 0 {
			return ""
		}
		return " # line " + fmt.Sprint(r.R.Intn(100))
	}
	seq := r.R.Intn(2) == 0
	for k := 0; k < 1+r.R.Intn(3); k++ {
		if r.R.Intn(3) == 0 {
			fmt.Fprintf(&b, "%s# head %d\n", pad, r.R.Intn(100))
		}
		start := pad + "- "
		if !seq {
			start = fmt.Sprintf("%sk%d: ", pad, k)
		}
		switch n := r.R.Intn(6); {
		case n < 2 && depth > 0:
			b.WriteString(strings.TrimRight(start, " ") + line() + "\n" + commentedText(r, indent+2, depth-1))
		case n == 2:
			b.WriteString(start + "[a, b]" + line() + "\n")
		case n == 3:
			b.WriteString(start + "{x: 1, y: [2]}" + line() + "\n")
		case n == 4:
			b.WriteString(start + "[\n" + pad + "    a," + line() + "\n" + pad + "    b" + line() + "\n" + pad + "  ]" + line() + "\n")
		default:
			b.WriteString(start + g.Pick(r.R, "7", "text", "'# quoted'", "null", "true") + line() + "\n")
		}
		if r.R.Intn(4) == 0 {
			fmt.Fprintf(&b, "%s# foot %d\n\n", pad, r.R.Intn(100))
		}
	}
	return b.String()
}

func TestVerif_C18_run(t *testing.T) {
	r := g.Start(t, "C18", "run", "runs over commented documents with --remove-comments (flag, environment or configuration file), with overlays that bring comments; non-trivial: comments are removed")
	r.Run(r.N(640, 2000), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{}, out: "out", stdout: r.R.Intn(4) == 0}
		c.remove = r.R.Intn(4) > 0
		t := ""
		for k := 1 + r.R.Intn(3); k > 0; k-- {
			if t != "" {
				t += "---\n"
			}
			t += strings.TrimPrefix(commented[r.R.Intn(len(commented))], "--- # start\n")
		}
		c.files["m/a.yaml"] = t
		c.files["m/b.yaml"] = commented[r.R.Intn(len(commented))]
		if r.R.Intn(2) == 0 {
			c.files["m/b.yaml"] = commentedText(r, 0, 3)
		}
		c.yamls = []entry{{path: "m/a.yaml"}, {path: "m/b.yaml"}}
		if r.R.Intn(2) == 0 {
			c.common = []*ov{makeOverlay("o", g.Overlay{Queries: []string{"a"}}, g.Pick(r.R, "7 # from the overlay", "{n: 1} # from", "[z] # from the overlay"))}
		}
		nt := c.remove
		if c.remove && r.R.Intn(3) == 0 {
			// through another source
			c.env = []string{"YOT_REMOVE_COMMENTS=true"}
			c.check2(r, nt)
			return
		}
		c.check(r, nt)
	})
}

// check2 is check with comment removal requested by the environment only.
func (c *scenario) check2(r *g.Rec, nt bool) {
	w := c.model()
	exp, txt := c.expected(w)
	c.remove = false
	r.Case(nt, c.describe())
	if exp == nil {
		r.Skip()
		return
	}
	res := c.run()
	if d := c.compare(w, exp, txt, res); d != "" {
		r.Fail(d+"\n"+clip(res.stderr), c.describe())
	}
}

func TestVerif_C19_run(t *testing.T) {
	r := g.Start(t, "C19", "run", "runs with every combination of output styles given by flag, environment or configuration file; the written documents must have the style and be otherwise the same; non-trivial: a style is given")
	names := []string{"normal", "tagged", "doublequoted", "singlequoted", "literal", "folded", "flow"}
	vals := []int{64, 1, 2, 4, 8, 16, 32}
	r.Run(r.N(640, 2000), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{}, out: "out"}
		t := ""
		for k := 1 + r.R.Intn(3); k > 0; k-- {
			if t != "" {
				t += "---\n"
			}
			t += g.Pick(r.R, "a: {b: [1, \"x\", 'y'], c: text}\nd: |\n  lines\n  more\n", "- 1\n- true\n- {k: v}\n- 'q'\n", "plain text\n", "a: 1\nb: {c: {d: [e]}}\n", "x: null\ny: ''\n")
		}
		c.files["a.yaml"] = t
		c.yamls = []entry{{path: "a.yaml"}}
		var ss []string
		for k := r.R.Intn(3); k > 0; k-- {
			i := r.R.Intn(7)
			ss = append(ss, names[i])
			c.style |= vals[i]
		}
		if len(ss) > 0 {
			switch r.R.Intn(3) {
			case 0:
				c.args = []string{"-S", strings.Join(ss, ",")}
			case 1:
				for _, x := range ss {
					c.args = append(c.args, "--output-style="+x)
				}
			case 2:
				c.env = []string{"YOT_OUTPUT_STYLE=" + strings.Join(ss, ",")}
			}
		}
		c.check(r, len(ss) > 0)
	})
}

func TestVerif_C20_values(t *testing.T) {
	r := g.Start(t, "C20", "values", "0-3 values files with overlapping keys and templates that use the values, Sprig functions and undefined values; the rendered overlay shows in the output; non-trivial: at least one values file")
	r.Run(r.N(800, 2500), func(int) {
		c := &scenario{files: map[string]string{"a.yaml": "r: {}\n"}, out: "out", instr: g.Pick(r.R, "instructions.yaml", "i/instr.tmpl")}
		vals := map[string]string{}
		n := r.R.Intn(4)
		own := make([]map[string]string, n) // what each file says
		for k := 0; k < n; k++ {
			own[k] = map[string]string{}
			t := ""
			for _, key := range []string{"a", "b", "c", "d"} {
				if r.R.Intn(2) == 0 {
					v := fmt.Sprintf("%s%d", key, k)
					own[k][key] = v
					t += key + ": " + v + "\n"
				}
			}
			m := ""
			for _, key := range []string{"x", "y", "z"} {
				if r.R.Intn(2) == 0 {
					v := fmt.Sprintf("%s%d", key, k)
					own[k]["m."+key] = v
					m += "  " + key + ": " + v + "\n"
				}
			}
			if m != "" {
				t += "m:\n" + m
			}
			if t == "" {
				t = "other: 1\n"
			}
			if r.R.Intn(20) == 0 { // a long values file
				t = "list:\n" + strings.Repeat("- a long line of text in a values file\n", 3000) + t
			}
			c.files[fmt.Sprintf("v%d.yaml", k)] = t
		}
		use := func(k int) {
			c.args = append(c.args, "-f", fmt.Sprintf("v%d.yaml", k))
			for key, v := range own[k] {
				vals[key] = v
			}
		}
		for k := 0; k < n; k++ {
			use(k)
			for r.R.Intn(4) == 0 {
				use(r.R.Intn(k + 1)) // once more
			}
		}
		hasM := false
		for k := range vals {
			hasM = hasM || strings.HasPrefix(k, "m.")
		}
		m := g.Overlay{Queries: []string{"r"}, Action: "replace"}
		value, templ := "", ""
		put := func(k, v, t string) {
			if value != "" {
				value += ", "
				templ += ", "
			}
			value += k + ": " + v
			templ += k + ": " + t
		}
		quote := func(s string) string { b, _ := json.Marshal(s); return string(b) }
		get := func(k string) string {
			if v, ok := vals[k]; ok {
				return v
			}
			return "<no value>"
		}
		if n > 0 {
			for _, k := range []string{"a", "b", "c", "d", "undefined"} {
				switch r.R.Intn(4) {
				case 0:
					put(k, quote(get(k)), `"{{ .`+k+` }}"`)
				case 1:
					put(k, quote("dflt-"+k), `"{{ default "dflt-`+k+`" .zzz }}"`)
				case 2:
					if vals[k] != "" {
						put(k, quote(strings.ToUpper(vals[k])), `{{ .`+k+` | upper | quote }}`)
					}
				case 3:
					d := vals[k]
					if d == "" {
						d = "none"
					}
					put(k, quote(d), `"{{ if .`+k+` }}{{ .`+k+` }}{{ else }}none{{ end }}"`)
				}
			}
			if r.R.Intn(2) == 0 {
				c.env = append(c.env, "VF_X=from the environment")
				i := r.R.Intn(8)
				put("sprig", []string{`"from the environment"`, `"from the environment!"`, "4", "36", "5", `"a,b"`, "3", `"y"`}[i], []string{`{{ env "VF_X" | quote }}`, `{{ expandenv "${VF_X}!" | quote }}`, `{{ now | date "2006" | len }}`,
					`{{ uuidv4 | len }}`, `{{ randAlpha 5 | len }}`, `{{ list "a" "b" | join "," | quote }}`, `{{ add 1 2 }}`, `{{ ternary "y" "n" true | quote }}`}[i])
			}
			if hasM {
				for _, k := range []string{"x", "y", "z"} {
					put(k, quote(get("m."+k)), `"{{ .m.`+k+` }}"`)
				}
			}
		} else {
			put("lit", quote("{{ .a }} {{ notAFunction }}"), `"{{ .a }} {{ notAFunction }}"`)
		}
		o := makeOverlay("o", m, "{"+value+"}")
		c.common = []*ov{o}
		up := ""
		if strings.HasPrefix(c.instr, "i/") {
			up = "../"
		}
		c.yamls = []entry{{path: up + "a.yaml"}}
		w := c.model()
		exp, txt := c.expected(w)
		o.text = strings.Replace(o.text, "{"+value+"}", "{"+templ+"}", 1)
		bad := ""
		if n > 0 && r.R.Intn(6) == 0 {
			bad = g.Pick(r.R, "{{ .a ", "{{ nofunc .a }}", "{{ fail \"stop\" }}", "{{ end }}", "{{ .a | atoi2 }}")
			c.raw = c.instructions() + "# " + bad + "\n"
		}
		if n > 0 && bad == "" && r.R.Intn(8) == 0 {
			bad = "values"
			f := fmt.Sprintf("v%d.yaml", r.R.Intn(n))
			if r.R.Intn(2) == 0 {
				delete(c.files, f)
			} else {
				c.files[f] = "a: [1\n"
			}
		}
		r.Case(n > 0, c.describe())
		res := c.run()
		if bad != "" {
			if res.code == 0 || len(res.files) > 0 {
				r.Fail(fmt.Sprintf("a template or values error must stop the run: exit status %d, written %q", res.code, keys(res.files)), c.describe())
			}
			return
		}
		if d := c.compare(w, exp, txt, res); d != "" {
			r.Fail(d+"\n"+clip(res.stderr), c.describe())
		}
	})
}

func TestVerif_C23_run(t *testing.T) {
	r := g.Start(t, "C23", "run", "runs with overlays of every action (or none) and several queries; non-trivial: every run")
	r.Run(r.N(400, 1500), func(int) {
		c := &scenario{instr: "instructions.yaml", files: map[string]string{"a.yaml": "a: {b: x, c: [1, 2], d: {b: y}}\nb: z\nl: [{b: q}, {b: w}]\n"}, out: "out"}
		for k := 1 + r.R.Intn(3); k > 0; k-- {
			m := g.Overlay{Action: g.Pick(r.R, "", "merge", "replace", "delete", "combine")}
			for j := 1 + r.R.Intn(2); j > 0; j-- {
				m.Queries = append(m.Queries, g.Pick(r.R, "..b", "a.b", "l[*].b", "a.c[*]", "a.c", "b", "l[0]", "a.d", "zz"))
			}
			v := g.Pick(r.R, "-v", "1", "[n]", "{b: n}", "\"%v-%k\"")
			if m.Action == "delete" {
				v = ""
			}
			c.common = append(c.common, makeOverlay(fmt.Sprint("o", k), m, v))
		}
		c.yamls = []entry{{path: "a.yaml"}}
		c.check(r, true)
	})
	// from the command line
	r.Run(r.N(240, 800), func(int) {
		c := &scenario{files: map[string]string{"m/a.yaml": "a: {b: x}\nb: z\n"}, out: "out", path: g.Pick(r.R, "m/a.yaml", "./m", "@ROOT@/m/a.yaml")}
		act := g.Pick(r.R, "", "merge", "replace", "delete", "combine")
		q := g.Pick(r.R, "a.b", "b", "..b", "a")
		v := g.Pick(r.R, "1", "text", "{k: v}", "[s]")
		var n yaml.Node
		yaml.Unmarshal([]byte(v), &n)
		c.adhoc = &ov{"", &g.Overlay{Queries: []string{q}, Action: act, Value: n.Content[0]}}
		c.args = []string{"-q", q, "-x", v}
		for k := r.R.Intn(3); k > 0; k-- {
			q = g.Pick(r.R, "a.b", "b", "a['b']", "b", "$.b")
			c.adhoc.model.Queries = append(c.adhoc.model.Queries, q)
			if r.R.Intn(2) == 0 {
				c.args = append(c.args, "--query="+q)
			} else {
				c.args = append(c.args, "-q", q)
			}
		}
		if act != "" {
			c.args = append(c.args, "-a", act)
		}
		if r.R.Intn(4) == 0 {
			c.path, c.stdin = "-", c.files["m/a.yaml"]
		}
		c.check(r, true)
	})
}
