package overlays

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/spf13/viper"
	g "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifgen"
	"gopkg.in/yaml.v3"
)

// real makes the overlay from its text, as an instructions file gives it; the
// values are put in directly.
func real(m *g.Overlay) (*Overlay, error) {
	t := map[string]interface{}{"name": "o", "query": m.Queries}
	if len(m.Queries) == 1 {
		t["query"] = m.Queries[0]
	}
	if m.Action != "" {
		t["action"] = m.Action
	}
	om := map[string]interface{}{}
	if m.OnMissing != "" {
		om["action"] = m.OnMissing
	}
	if m.Inject != nil {
		om["injectPath"] = m.Inject
	}
	if len(om) > 0 {
		t["onMissing"] = om
	}
	if m.HasIndex {
		x := m.Index
		if x == nil {
			x = []int{}
		}
		t["documentIndex"] = x
	}
	var dq []interface{}
	for _, gr := range m.Groups {
		cs := []interface{}{}
		for _, c := range gr {
			cs = append(cs, map[string]interface{}{"query": c.Queries})
		}
		dq = append(dq, map[string]interface{}{"conditions": cs})
	}
	if dq != nil {
		t["documentQuery"] = dq
	}
	b, _ := json.Marshal(t)
	o := &Overlay{}
	if err := yaml.Unmarshal(b, o); err != nil {
		return nil, fmt.Errorf("%s: %w", b, err)
	}
	if m.Value != nil {
		o.Value = *g.Clone(m.Value)
	}
	for i, gr := range m.Groups {
		for j, c := range gr {
			if c.Value != nil {
				o.DocumentQuery[i].Conditions[j].Value = *g.Clone(c.Value)
			}
		}
	}
	return o, nil
}

func text(m *g.Overlay) string {
	var b strings.Builder
	fmt.Fprintf(&b, "overlay: query %q action %q onMissing %q injectPath %q", m.Queries, m.Action, m.OnMissing, m.Inject)
	if m.HasIndex {
		fmt.Fprintf(&b, " documentIndex %v", m.Index)
	}
	b.WriteString("\n")
	for _, gr := range m.Groups {
		b.WriteString(" group\n")
		for _, c := range gr {
			fmt.Fprintf(&b, "  condition %q", c.Queries)
			if c.Value != nil {
				b.WriteString(" value " + g.Show(g.Short(c.Value)))
			} else {
				b.WriteString("\n")
			}
		}
	}
	if m.Value != nil {
		b.WriteString("value:\n" + g.Show(g.Short(m.Value)))
	}
	return b.String()
}

// apply applies the overlay and compares with the model.
func apply(r *g.Rec, m *g.Overlay, doc *yaml.Node, inject bool, nontrivial bool) {
	o, err := real(m)
	if err != nil {
		r.Skip()
		return
	}
	in := text(m) + fmt.Sprintf("default inject: %v\n", inject) + "document:\n" + g.Show(g.Short(doc))
	r.Case(nontrivial, in)
	want := g.Clone(doc)
	fails := g.Apply(m, want, inject)
	err = o.Apply(doc)
	if (err != nil) != fails {
		r.Fail(fmt.Sprintf("error %v, an error is required: %v", err, fails), in)
		return
	}
	if d := g.Diff(g.Short(doc), g.Short(want)); d != "" {
		r.Fail(fmt.Sprintf("wrong document %s\nresult:\n%swanted:\n%s", d, g.Show(g.Short(doc)), g.Show(g.Short(want))), in)
	}
}

func TestVerif_C08_overlay(t *testing.T) {
	r := g.Start(t, "C08", "overlay", "one overlay with conditions, missing-match settings and a value applied to several documents in turn under changing defaults; each result must be that of a fresh overlay, and the overlay must stay as it was; non-trivial: every sequence")
	r.Run(r.N(3000, 40000), func(int) {
		m := randomOverlay(r)
		o, err := real(m)
		if err != nil {
			r.Skip()
			return
		}
		show := func() string {
			v := g.NewIDs().Spec(&o.Value)
			x := fmt.Sprintf("%q %v %v %v %v %q\n%s", o.Name, o.Query.Paths(), o.Action, o.OnMissing.Action, o.OnMissing.InjectPath.Paths(), fmt.Sprint(o.DocumentIndex), g.Show(v))
			for _, q := range o.DocumentQuery {
				x += "group\n"
				for _, c := range q.Conditions {
					x += fmt.Sprint(c.Query.Paths()) + g.Show(g.NewIDs().Spec(&c.Value))
				}
			}
			return x
		}
		before := show()
		log := text(m)
		for k := 0; k < 3; k++ {
			inject := r.R.Intn(2) == 0
			viper.Set("defaultOnMissingAction", map[bool]string{true: "inject", false: "ignore"}[inject])
			doc := g.Tree(r.R, g.Opt{Depth: 4, Width: 3, Root: 1})
			fresh, _ := real(m)
			other := g.Clone(doc)
			log += fmt.Sprintf("applied with default inject=%v to\n%s", inject, g.Show(g.Short(doc)))
			r.Case(true, log)
			e1 := o.Apply(doc)
			e2 := fresh.Apply(other)
			if (e1 != nil) != (e2 != nil) || g.Diff(g.Short(doc), g.Short(other)) != "" {
				r.Fail(fmt.Sprintf("the same overlay gives another result the second time: error %v, fresh overlay: %v; %s", e1, e2, g.Diff(g.Short(doc), g.Short(other))), log)
				return
			}
			if x := show(); x != before {
				r.Fail("the overlay was modified: it was\n"+before+"is\n"+x, log)
				return
			}
			if x := g.Shared(doc, &o.Value); x != nil {
				r.Fail(fmt.Sprintf("the document shares node %q with the overlay", x.Value), log)
				return
			}
		}
	})
}

func randomOverlay(r *g.Rec) *g.Overlay {
	m := &g.Overlay{Action: g.Pick(r.R, "", "merge", "replace", "delete", "combine"), OnMissing: g.Pick(r.R, "", "ignore", "inject", "inject")}
	for k := r.R.Intn(2); k >= 0; k-- {
		m.Queries = append(m.Queries, g.QueryPath(r.R))
	}
	if r.R.Intn(2) == 0 {
		m.Inject = []string{"n." + string(rune('a'+r.R.Intn(3)))}
	}
	m.Value = g.Tree(r.R, g.Opt{Depth: 2, Width: 2})
	if r.R.Intn(3) == 0 {
		m.Groups = groups(r)
	}
	return m
}

func groups(r *g.Rec) [][]g.Cond {
	var gs [][]g.Cond
	for k := r.R.Intn(3); k > 0; k-- {
		var cs []g.Cond
		for j := r.R.Intn(4); j > 0; j-- {
			c := g.Cond{Queries: []string{g.QueryPath(r.R)}}
			if r.R.Intn(4) == 0 {
				c.Queries = append(c.Queries, g.QueryPath(r.R))
			}
			cs = append(cs, c)
		}
		gs = append(gs, cs)
	}
	return gs
}

func TestVerif_C10_queries(t *testing.T) {
	r := g.Start(t, "C10", "queries", "random documents, groups, conditions and values (often taken from a match, with other comments, style and position); the overlay replaces the root, so that its application shows; non-trivial: at least one group")
	r.Run(r.N(12000, 150000), func(int) {
		doc := g.Tree(r.R, g.Opt{Depth: 3, Width: 4, Root: 1, Comments: 3, Styles: true, Keys: 4})
		if r.R.Intn(30) == 0 {
			doc.Content = nil
		}
		gs := groups(r)
		for i := range gs {
			for j := range gs[i] {
				c := &gs[i][j]
				if r.R.Intn(3) == 0 {
					continue
				}
				ms := g.Find(c.Queries, doc)
				if len(ms) > 0 && r.R.Intn(4) > 0 {
					v := g.Clone(ms[r.R.Intn(len(ms))])
					nodes := g.Nodes(v)
					for _, x := range nodes {
						x.Line += r.R.Intn(3)
						x.Column++
						if r.R.Intn(2) == 0 {
							x.HeadComment, x.LineComment, x.FootComment, x.Style = "# other", "", "# f", yaml.Style(r.R.Intn(8))
						}
					}
					if r.R.Intn(4) == 0 {
						x := nodes[r.R.Intn(len(nodes))]
						switch r.R.Intn(5) {
						case 0:
							x.Value += "x"
						case 1:
							x.Tag = "!!other"
						case 2:
							if len(x.Content) > 1 {
								x.Content = x.Content[:len(x.Content)-1]
							}
						case 3:
							x.Kind = 2
						case 4:
							x.Content = append(x.Content, g.Str("z"))
						}
					}
					c.Value = v
				} else {
					c.Value = g.Scalar(r.R, g.Opt{})
				}
				if c.Value.Kind == yaml.DocumentNode {
					c.Value = c.Value.Content[0]
				}
			}
		}
		m := &g.Overlay{Queries: []string{"$"}, Action: "replace", Value: g.Str("applied"), Groups: gs}
		if len(doc.Content) == 0 {
			// nothing can match; the missing match shows the application
			m.Queries, m.OnMissing = []string{"q"}, "ignore"
		}
		apply(r, m, doc, false, len(gs) > 0)
	})
}

func TestVerif_C11_index(t *testing.T) {
	r := g.Start(t, "C11", "index", "random index lists (absent, empty, repeated, out of range, negative) and document indexes; non-trivial: a list is given")
	r.Run(r.N(4000, 40000), func(int) {
		m := &g.Overlay{Queries: []string{"a"}}
		if r.R.Intn(5) > 0 {
			m.HasIndex = true
			for k := r.R.Intn(5); k > 0; k-- {
				m.Index = append(m.Index, r.R.Intn(8)-1)
			}
		}
		o, err := real(m)
		if err != nil {
			r.Skip()
			return
		}
		for d := 0; d < 8; d++ {
			want := !m.HasIndex
			for _, x := range m.Index {
				want = want || x == d
			}
			in := fmt.Sprintf("given %v: %v, document %d", m.HasIndex, m.Index, d)
			r.Case(m.HasIndex, in)
			if got := o.CheckDocumentIndex(d); got != want {
				r.Fail(fmt.Sprintf("selected %v, should be %v", got, want), in)
			}
		}
	})
}

func names(r *g.Rec) string {
	return g.Pick(r.R, "a", "b", "c", "d", "new", "x-y", "k1", "under_score", "ä", "CamelCase", "a", "b")
}

// path is a random fully qualified path.
func path(r *g.Rec, first string) string {
	p := g.Pick(r.R, "", "$.")
	p += first
	for k := r.R.Intn(4); k > 0; k-- {
		switch r.R.Intn(5) {
		case 0:
			p += "['" + names(r) + "']"
		case 1:
			p += `["` + g.Pick(r.R, "a.b/c", "with space", "app.kubernetes.io/name", "x,y", "a[0]", "it's", "*", "c") + `"]`
		case 2:
			a, b := names(r), names(r)
			if a == b {
				b += "2"
			}
			p += "['" + a + "','" + b + "']"
		default:
			p += "." + names(r)
		}
	}
	return p
}

var unqualified = []string{"a[*]", "..a", "*", "a.*", "a[0]", "a[0].b", "a[?(@.b=='1')]", "a[1:2]", "a.b[*].c", "$..b", "a..b", "a[?(@.zz)]", "zz[*]", "a.b.c~"}

// mappings makes every node on the way a mapping.
func mappings(r *g.Rec, root *yaml.Node, paths []string) bool {
	for _, p := range paths {
		st, ok := g.Steps(p)
		if !ok {
			return false
		}
		if root.Kind == 1 && (len(root.Content) == 0 || root.Content[0].Kind != 4) {
			return false
		}
		at := root.Content[:1]
		for i, ns := range st {
			var next []*yaml.Node
			for _, n := range at {
				if n.Kind != 4 {
					return false
				}
				for _, name := range ns {
					for j := 0; j+1 < len(n.Content); j += 2 {
						if n.Content[j].Value == name {
							next = append(next, n.Content[j+1])
						}
					}
				}
			}
			at = next
			_ = i
		}
	}
	return true
}

func TestVerif_C12_missing(t *testing.T) {
	r := g.Start(t, "C12", "missing", "all settings of action, missing-match action, configured default and inject path on random documents, with matching and missing queries; non-trivial: the query matches nothing")
	defaults := []string{"ignore", "inject", "default", "", "Inject"}
	r.Run(r.N(8000, 100000), func(int) {
		d := defaults[r.R.Intn(len(defaults))]
		viper.Set("defaultOnMissingAction", d)
		doc := g.Tree(r.R, g.Opt{Depth: 3, Width: 3, Root: 1, Comments: 4})
		m := &g.Overlay{Action: g.Pick(r.R, "", "merge", "replace", "delete", "combine"), OnMissing: g.Pick(r.R, "", "default", "ignore", "inject"),
			Value: g.Tree(r.R, g.Opt{Depth: 1, Width: 2})}
		q := []string{path(r, names(r))}
		if r.R.Intn(4) == 0 {
			q = []string{g.Pick(r.R, unqualified...)}
		}
		m.Queries = q
		if r.R.Intn(2) == 0 {
			m.Inject = []string{path(r, "inj")}
		}
		if g.Qualified(q) && !mappings(r, doc, q) || !mappings(r, doc, m.Inject) {
			r.Skip()
			return
		}
		apply(r, m, doc, strings.EqualFold(d, "inject"), len(g.Find(q, doc)) == 0)
	})
	viper.Set("defaultOnMissingAction", "ignore")
}

func TestVerif_C13_inject(t *testing.T) {
	r := g.Start(t, "C13", "inject", "random fully qualified paths (dotted, bracketed, lists of names), several at once, as the query or as inject paths, on random documents whose nodes on the path are mappings; non-trivial: every case that injects")
	viper.Set("defaultOnMissingAction", "ignore")
	r.Run(r.N(8000, 100000), func(int) {
		doc := g.Tree(r.R, g.Opt{Depth: 4, Width: 4, Root: 1, Comments: 4, Styles: true})
		if doc.Content[0].Kind != 4 {
			doc.Content[0] = g.Map()
		}
		m := &g.Overlay{Action: g.Pick(r.R, "", "merge", "replace"), OnMissing: "inject", Value: g.Tree(r.R, g.Opt{Depth: 2, Width: 3, Comments: 5, Styles: true})}
		var paths []string
		for k := []int{1, 1, 1, 2, 3}[r.R.Intn(5)]; k > 0; k-- {
			first := string(rune('a' + r.R.Intn(4)))
			if k > 1 || len(paths) > 0 {
				first = fmt.Sprint("m", k) // no path is a prefix of another
			}
			paths = append(paths, path(r, first))
		}
		if r.R.Intn(3) == 0 {
			m.Queries, m.Inject = []string{g.Pick(r.R, unqualified...)}, paths
			if r.R.Intn(6) == 0 {
				m.Inject = nil
			}
		} else {
			m.Queries = paths
			if r.R.Intn(4) == 0 {
				m.Inject = []string{"other.place"}
			}
		}
		if !mappings(r, doc, paths) || len(g.Find(m.Queries, doc)) > 0 {
			r.Skip()
			return
		}
		used := paths
		if m.Inject == nil && !g.Qualified(m.Queries) {
			used = nil
		}
		before := g.Clone(doc)
		if used != nil && len(m.Inject) > 0 && g.Qualified(m.Queries) {
			used = m.Queries
		}
		apply(r, m, doc, false, true)
		if r.Failed() || used == nil {
			return
		}
		for _, p := range used {
			ms := g.Find([]string{p}, doc)
			if len(ms) == 0 {
				r.Fail("path "+p+" matches nothing after injecting", text(m)+g.Show(g.Short(before)))
				return
			}
		}
		// the same again finds everything in place
		if g.Qualified(m.Queries) {
			ms := g.Find(m.Queries, doc)
			for _, x := range ms {
				if !g.SameValue(strip(x), strip(m.Value)) {
					r.Fail("the value at the path is not the overlay's", text(m)+g.Show(g.Short(before)))
					return
				}
			}
		}
	})
}

func strip(n *yaml.Node) *yaml.Node {
	c := g.Clone(n)
	return c
}

func TestVerif_C23_apply(t *testing.T) {
	r := g.Start(t, "C23", "apply", "random lists of queries with random actions and values on random documents, compared with the action done once on every match in order; non-trivial: at least two matches")
	viper.Set("defaultOnMissingAction", "ignore")
	r.Run(r.N(10000, 120000), func(int) {
		doc := g.Tree(r.R, g.Opt{Depth: 4, Width: 4, Root: 1, Keys: 3})
		m := &g.Overlay{Action: g.Pick(r.R, "", "merge", "replace", "delete", "combine", "merge"), Value: g.Tree(r.R, g.Opt{Depth: 1, Width: 2})}
		if m.Action == "combine" {
			m.Value = g.Scalar(r.R, g.Opt{})
		}
		if r.R.Intn(5) == 0 {
			m.Value = &yaml.Node{Kind: 16, Value: "x", Alias: g.Str("t")}
		}
		for k := r.R.Intn(3); k >= 0; k-- {
			m.Queries = append(m.Queries, g.QueryPath(r.R))
		}
		apply(r, m, doc, false, len(g.Find(m.Queries, doc)) > 1)
	})
	// the default action, and the name
	r.Run(60, func(i int) {
		m := &g.Overlay{Queries: []string{"a"}, Action: []string{"", "merge", "replace"}[i%3], Value: g.Map(g.Str("x"), g.Str("1"))}
		doc := g.Doc(g.Map(g.Str("a"), g.Map(g.Str("y"), g.Str("2"))))
		var o Overlay
		txt := "query: a\nvalue: {x: '1'}\n"
		if i%2 == 0 {
			txt += "name: n\n"
		}
		if m.Action != "" {
			txt += "action: " + m.Action + "\n"
		}
		r.Case(true, txt)
		if err := yaml.Unmarshal([]byte(txt), &o); err != nil {
			r.Fail(err.Error(), txt)
			return
		}
		want := g.Clone(doc)
		m.Value = &o.Value
		g.Apply(m, want, false)
		if err := o.Apply(doc); err != nil || g.Diff(g.Short(doc), g.Short(want)) != "" {
			r.Fail(fmt.Sprintf("error %v; %s", err, g.Diff(g.Short(doc), g.Short(want))), txt)
		}
	})
}

func TestVerif_C24_overlay(t *testing.T) {
	r := g.Start(t, "C24", "overlay", "random overlays with unusual queries, inject paths and conditions on random documents, emptied ones included; non-trivial: every case")
	r.Run(r.N(6000, 80000), func(int) {
		m := randomOverlay(r)
		if r.R.Intn(2) == 0 {
			m.Queries = []string{g.Pick(r.R, append([]string{"", "$", "a['b'].c", "a['b','c']['d']", "['a']", "[\"a\"]['b']"}, unqualified...)...)}
		}
		if r.R.Intn(3) == 0 {
			m.Inject = []string{g.Pick(r.R, "", "$", "a", "a.b['c','d'].e", "..a", "a[0]", "$['x']")}
		}
		if r.R.Intn(6) == 0 {
			m.Inject = []string{}
		}
		if r.R.Intn(8) == 0 {
			m.Queries = []string{}
		}
		o, err := real(m)
		if err != nil {
			r.Skip()
			return
		}
		viper.Set("defaultOnMissingAction", g.Pick(r.R, "inject", "ignore", ""))
		doc := g.Tree(r.R, g.Opt{Depth: 3, Width: 3, Root: 1, Odd: true, Aliases: true, Markers: 5})
		if r.R.Intn(5) == 0 {
			doc.Content = nil
		}
		r.Case(true, text(m)+g.Show(g.Short(doc)))
		o.Apply(doc)
		o.Apply(doc)
	})
	viper.Set("defaultOnMissingAction", "ignore")
}
