package verife2e

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	g "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifgen"
)

// setting is a documented setting.
type setting struct {
	env, key string
	flag     func(v string) []string
	values   []string // the default first
}

func long(name string) func(string) []string {
	return func(v string) []string { return []string{"--" + name + "=" + v} }
}

// short flags, by setting
var short = map[string]string{"indentLevel": "-I", "logLevel": "-v", "outputDirectory": "-o", "outputStyle": "-S", "stdout": "-s"}

var settings = []setting{
	{"YOT_DEFAULT_ON_MISSING_ACTION", "defaultOnMissingAction", long("default-on-missing-action"), []string{"ignore", "inject"}},
	{"YOT_INDENT_LEVEL", "indentLevel", long("indent-level"), []string{"2", "3", "5", "9"}},
	{"YOT_LOG_LEVEL", "logLevel", long("log-level"), []string{"warning", "debug", "critical"}},
	{"YOT_OUTPUT_DIRECTORY", "outputDirectory", long("output-directory"), []string{"./output", "o1", "o2/deep", "./o3"}},
	{"YOT_OUTPUT_STYLE", "outputStyle", long("output-style"), []string{"normal", "flow", "doublequoted", "singlequoted", "tagged"}},
	{"YOT_REMOVE_COMMENTS", "removeComments", long("remove-comments"), []string{"false", "true"}},
	{"YOT_STDOUT", "stdout", long("stdout"), []string{"false", "true"}},
}

func indentOf(t string) int {
	m := 0
	for _, l := range strings.Split(t, "\n") {
		n := len(l) - len(strings.TrimLeft(l, " "))
		if n > 0 && n < len(l) && (m == 0 || n < m) {
			m = n
		}
	}
	return m
}

func TestVerif_C21_settings(t *testing.T) {
	r := g.Start(t, "C21", "settings", "every setting given by any of its flag, environment variable and configuration file (in the working directory, the home directory, or named by YOT_CONFIG_FILE or --config), with different values; the whole run must behave by the effective values, and the env command must show them; non-trivial: a setting with two sources")
	styles := map[string]int{"normal": 64, "flow": 32, "doublequoted": 2, "singlequoted": 4, "tagged": 1}
	r.Run(r.N(300, 4000), func(int) {
		c := &scenario{instr: "instructions.yaml", cwd: "", files: map[string]string{"a.yaml": "# head\na: # line\n  b:\n    k: v\n  s: text\n"}}
		c.yamls = []entry{{path: "a.yaml", overlays: []*ov{makeOverlay("o", g.Overlay{Queries: []string{"a.new"}}, "{x: y}")}}}
		eff, shown := map[string]string{}, map[string]string{}
		conf, other := "", ""
		nt := false
		onlyOne := r.R.Intn(3) == 0
		one := r.R.Intn(len(settings))
		var flags []string
		for i, x := range settings {
			v := x.values[0]
			n := 0
			sv := v
			if !onlyOne || i == one {
				if r.R.Intn(3) == 0 {
					v = g.Pick(r.R, x.values...)
					if x.key == "outputStyle" && r.R.Intn(2) == 0 {
						conf += x.key + ": [" + v + "]\n"
					} else {
						conf += x.key + ": " + v + "\n"
					}
					sv = v
					n++
				}
				if r.R.Intn(3) == 0 {
					v = g.Pick(r.R, x.values...)
					c.env = append(c.env, x.env+"="+v)
					sv = v
					n++
				}
				if r.R.Intn(3) == 0 {
					v = g.Pick(r.R, x.values...)
					if s := short[x.key]; s != "" && r.R.Intn(3) == 0 {
						flags = append(flags, s+"="+v)
					} else {
						flags = append(flags, x.flag(v)...)
					}
					n++
				}
				// another file, which must not be used
				other += x.key + ": " + g.Pick(r.R, x.values...) + "\n"
			}
			eff[x.key], shown[x.env] = v, sv
			nt = nt || n > 1
		}
		cf := ""
		if conf != "" {
			switch r.R.Intn(4) {
			case 0:
				c.files["yot.config"], c.files["home/.yot/yot.config"] = conf, other
				cf = "yot.config"
			case 1:
				c.files["home/.yot/yot.config"] = conf
				cf = "yot.config"
			case 2:
				c.files["sub/named.cfg"], c.files["yot.config"] = conf, other
				c.env = append(c.env, "YOT_CONFIG_FILE=sub/named.cfg")
				cf = "sub/named.cfg"
			case 3:
				c.files["sub/named.cfg"], c.files["yot.config"], c.files["env.cfg"] = conf, other, other
				flags = append(flags, "--config", "sub/named.cfg")
				if r.R.Intn(2) == 0 {
					c.env = append(c.env, "YOT_CONFIG_FILE=env.cfg")
				}
				cf = "flag"
			}
		}
		c.inject = eff["defaultOnMissingAction"] == "inject"
		fmt.Sscan(eff["indentLevel"], &c.indent)
		c.out, c.style = eff["outputDirectory"], styles[eff["outputStyle"]]
		c.remove, c.stdout = eff["removeComments"] == "true", eff["stdout"] == "true"
		w := c.model()
		exp, txt := c.expected(w)
		st := c.stdout
		c.out, c.remove, c.stdout = "", false, false
		c.args = flags
		in := c.describe()
		r.Case(nt, in)
		if exp == nil {
			r.Skip()
			return
		}
		res := c.run()
		c.stdout = st
		want := ""
		for _, x := range txt {
			want = x
		}
		got := res.stdout
		for _, x := range res.files {
			got = x
		}
		what := ""
		if d := c.compare(w, exp, txt, res); d != "" {
			what = d
		} else if indentOf(got) != indentOf(want) {
			what = fmt.Sprintf("indentation %d, should be %d", indentOf(got), indentOf(want))
		} else if debug := eff["logLevel"] == "debug"; debug != (strings.TrimSpace(res.stderr) != "") {
			what = fmt.Sprintf("log level %s, but the log is %q", eff["logLevel"], clip(res.stderr))
		}
		if what != "" {
			b, _ := json.Marshal(eff)
			r.Fail(what+"\neffective settings: "+string(b)+"\nstandard error:\n"+clip(res.stderr), in)
			return
		}
		if cf == "flag" {
			return // the env command has no flags
		}
		e := &scenario{files: c.files, env: c.env, args: []string{"env"}}
		in = e.describe()
		res = e.run()
		lines := map[string]string{}
		for _, l := range strings.Split(res.stdout, "\n") {
			if k := strings.SplitN(l, "=", 2); len(k) == 2 {
				lines[k[0]] = strings.Trim(k[1], `"`)
			}
		}
		for k, v := range shown {
			x := strings.Trim(lines[k], "[]")
			if x != v {
				r.Fail(fmt.Sprintf("the env command shows %s as %q, should be %q; output:\n%s%s", k, lines[k], v, res.stdout, clip(res.stderr)), in)
				return
			}
			single := &scenario{files: c.files, env: c.env, args: []string{"env", k}}
			if r.R.Intn(12) == 0 || k == "YOT_OUTPUT_STYLE" && r.R.Intn(2) == 0 {
				if o := single.run().stdout; strings.TrimSpace(o) != k+`="`+lines[k]+`"` {
					r.Fail(fmt.Sprintf("env %s shows %q", k, o), single.describe())
					return
				}
			}
		}
		if x := lines["YOT_CONFIG_FILE"]; cf != "" && !strings.HasSuffix(x, cf) || cf == "" && x != "" && conf == "" && other == "" {
			r.Fail(fmt.Sprintf("the env command shows YOT_CONFIG_FILE as %q, should be %q", x, cf), in)
		}
	})
}
