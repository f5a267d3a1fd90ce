package builder

import (
	"fmt"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	g "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifgen"
	"gopkg.in/yaml.v3"
)

// steps parses a path by the grammar
//
//	path   = "" | "$" rest | name rest | rest
//	rest   = "" | "." name rest | "[" quoted { "," quoted } "]" rest
//
// with white space around the quoted names; plain tells whether the names are
// clear: text in UTF-8, and no quotes or escapes within one of several bracketed names.
// A backslash stands for the character behind it; names behind a dot are
// unescaped twice, as by the query language's own library.
func steps(p string) (r [][]string, ok bool, plain bool) {
	plain = utf8.ValidString(p)
	i := 0
	name := func() bool {
		j := i
		for j < len(p) && strings.IndexByte(".[) &|=!><~*", p[j]) < 0 {
			j++
		}
		if j == i {
			return false
		}
		x := unescaped(p[i:j])
		if i > 0 && p[i-1] == '.' {
			x = unescaped(x)
		}
		r = append(r, []string{x})
		i = j
		return true
	}
	space := func() {
		for i < len(p) {
			c, w := utf8.DecodeRuneInString(p[i:])
			if !unicode.IsSpace(c) {
				return
			}
			i += w
		}
	}
	if strings.HasPrefix(p, "$") {
		i = 1
	} else if p != "" {
		space()
		bracket := i < len(p) && p[i] == '['
		i++
		space()
		bracket = bracket && i < len(p) && (p[i] == '\'' || p[i] == '"')
		i = 0
		if p[0] != '.' && !bracket && !name() {
			return nil, false, plain
		}
	}
	for i < len(p) {
		if p[i] == '.' {
			i++
			if !name() {
				return nil, false, plain
			}
			continue
		}
		space()
		if i >= len(p) || p[i] != '[' {
			return nil, false, plain
		}
		var ns []string
		quotes, commas := false, false
		for {
			i++
			space()
			if i >= len(p) || p[i] != '\'' && p[i] != '"' {
				return nil, false, plain
			}
			q := p[i]
			i++
			j := i
			for j < len(p) && p[j] != q {
				if p[j] == '\\' {
					quotes = true
					if j+1 >= len(p) || p[j+1] != '\\' && p[j+1] != q {
						return nil, false, plain
					}
					j++
				}
				quotes = quotes || p[j] == '\'' || p[j] == '"'
				commas = commas || p[j] == ','
				j++
			}
			if j >= len(p) {
				return nil, false, plain
			}
			ns = append(ns, unescaped(p[i:j]))
			i = j + 1
			space()
			if i < len(p) && p[i] == ',' {
				continue
			}
			break
		}
		if i >= len(p) || p[i] != ']' {
			return nil, false, plain
		}
		i++
		r = append(r, ns)
		if quotes && (len(ns) > 1 || commas) {
			plain = false
		}
	}
	return r, true, plain
}

// unescaped is a name without the backslashes that escape.
func unescaped(x string) string {
	b := ""
	for i := 0; i < len(x); i++ {
		if x[i] == '\\' {
			i++
		}
		if i < len(x) {
			b += x[i : i+1]
		}
	}
	return b
}

// scaffold is the tree for a path.
func scaffold(st [][]string) *yaml.Node {
	if len(st) == 0 {
		return &yaml.Node{Kind: yaml.ScalarNode}
	}
	n := &yaml.Node{Kind: yaml.MappingNode}
	for _, x := range st[0] {
		n.Content = append(n.Content, &yaml.Node{Kind: yaml.ScalarNode, Value: x}, scaffold(st[1:]))
	}
	return n
}

// inside is the quote that can be within each kind of quotes.
var inside = map[string]string{"'": "\"", "\"": "'"}

func randomPath(r *g.Rec) string {
	alphabet := []string{"a", "b", "key", ".", ".", "['", "']", "[\"", "\"]", "'", "\"", ",", " ", "$", "*", "[", "]", "(", ")", "\\", "é", "\xff", "~", "..", "[0]", "x-y", "/", "\t", "@", "&", "世", "\u00a0", "\u2003"}
	var b strings.Builder
	if r.R.Intn(3) == 0 {
		for k := r.R.Intn(10); k > 0; k-- {
			b.WriteString(alphabet[r.R.Intn(len(alphabet))])
		}
		return b.String()
	}
	b.WriteString(g.Pick(r.R, "", "$", ""))
	sp := func() string { return g.Pick(r.R, "", "", "", "", " ", "\t", "\u2003") }
	for k := r.R.Intn(5); k > 0; k-- {
		nm := g.Pick(r.R, "a", "b", "long_name", "x-1", "é世", "k/l", "0", "a b", "q", "#", "@", "$", "e\\s", "\\\\\\\\x", "t\\\\", "\\", "q\"r", "'", "\"z\"")
		if r.R.Intn(2) == 0 && !strings.Contains(nm, " ") {
			if b.Len() > 0 || r.R.Intn(2) == 0 {
				b.WriteString(".")
			}
			b.WriteString(nm)
			continue
		}
		b.WriteString(sp() + "[")
		for j := 1 + r.R.Intn(3); j > 0; j-- {
			q := g.Pick(r.R, "'", "\"")
			x := g.Pick(r.R, nm, "", "a.b", "[0]", "p,q", "\\\\", "\\"+q, "a\\\\\\\\b", "\\\\\\"+q+"x", inside[q], "x"+inside[q], inside[q]+"in"+inside[q], "with space", ")", "*", ", ", " ", "]")
			b.WriteString(sp() + q + x + q + sp())
			if j > 1 {
				b.WriteString(",")
			}
		}
		b.WriteString("]")
	}
	p := b.String()
	if r.R.Intn(4) == 0 && p != "" {
		i := r.R.Intn(len(p))
		switch r.R.Intn(3) {
		case 0:
			p = p[:i] + p[i+1:]
		case 1:
			p = p[:i] + alphabet[r.R.Intn(len(alphabet))] + p[i:]
		case 2:
			p = p[:i]
		}
	}
	return p
}

// within runs f, which must come to an end.
func within(f func()) (done bool, panicked interface{}) {
	c := make(chan interface{}, 1)
	go func() {
		defer func() { c <- recover() }()
		f()
	}()
	select {
	case e := <-c:
		return true, e
	case <-time.After(5 * time.Second):
		return false, nil
	}
}

func checkPath(r *g.Rec, p string) {
	in := fmt.Sprintf("path %q", p)
	st, ok, plain := steps(p)
	r.Case(ok && len(st) > 0, in)
	var n *yaml.Node
	var err error
	done, e := within(func() {
		var x *Path
		if x, err = NewPath(p); err == nil {
			n, err = x.BuildPath()
		}
	})
	switch {
	case !done:
		r.Fail("path parsing does not end", in)
	case e != nil:
		r.Fail(fmt.Sprintf("path parsing panics: %v", e), in)
	case (err == nil) != ok:
		r.Fail(fmt.Sprintf("error %v, the path is valid: %v", err, ok), in)
	case ok && plain:
		want := scaffold(st)
		if p != "" && (p == "$" || n.Kind == yaml.DocumentNode) {
			want = g.Doc(want)
		}
		if d := g.Diff(g.Short(n), g.Short(want)); d != "" {
			r.Fail(fmt.Sprintf("wrong tree %s\nresult:\n%swanted:\n%s", d, g.Show(g.Short(n)), g.Show(g.Short(want))), in)
		}
	}
}

func TestVerif_C13_path(t *testing.T) {
	r := g.Start(t, "C13", "path", "path texts made from steps, mutated or random; compared with a parser for the grammar and the tree each path must build; non-trivial: a valid path with a step")
	r.Run(r.N(60000, 1500000), func(int) { checkPath(r, randomPath(r)) })
}

func TestVerif_C24_path(t *testing.T) {
	r := g.Start(t, "C24", "path", "path texts, among them invalid UTF-8, every prefix of them and every text of up to three characters of the syntax; parsing and building end without a panic; non-trivial: a valid path with a step")
	chars := "$.[]'\",\\ a)*\xff\u00a0("
	var rec func(p string, k int)
	rec = func(p string, k int) {
		if r.Failed() {
			return
		}
		checkPath(r, p)
		if k > 0 {
			for i := 0; i < len(chars); i++ {
				rec(p+chars[i:i+1], k-1)
			}
		}
	}
	rec("", r.N(3, 5))
	r.Run(r.N(20000, 500000), func(int) {
		p := randomPath(r)
		checkPath(r, p)
		if len(p) > 0 && !r.Failed() {
			checkPath(r, p[:r.R.Intn(len(p))])
		}
	})
	r.Run(r.N(2000, 20000), func(int) {
		var ps []string
		for k := r.R.Intn(4); k > 0; k-- {
			ps = append(ps, randomPath(r))
		}
		in := fmt.Sprintf("paths %q", ps)
		r.Case(len(ps) > 1, in)
		done, e := within(func() {
			if x, err := NewPaths(ps); err == nil {
				x.BuildPaths()
			}
		})
		if !done || e != nil {
			r.Fail(fmt.Sprintf("building the paths panics or does not end: %v", e), in)
		}
	})
}
