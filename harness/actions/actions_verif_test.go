package actions

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"

	"github.com/rwtodd/Go.Sed/sed"
	g "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifgen"
	s "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifspec"
	"gopkg.in/yaml.v3"
)

func init() {
	s.SedHook = func(command, value string) (string, bool, bool) {
		e, err := sed.New(strings.NewReader(command))
		if err != nil {
			return value, true, false
		}
		v, err := e.RunString(value)
		return v, false, err != nil
	}
}

type act struct {
	name string
	run  func(o, n *yaml.Node) error
	spec func(o, n s.Node) s.Res
}

var acts = []act{
	{"merge", func(o, n *yaml.Node) error { return MergeNode(o, n) }, func(o, n s.Node) s.Res { return s.Merge(o, n, nil) }},
	{"replace", ReplaceNode, func(o, n s.Node) s.Res { return s.Res{N: s.Replace(o, n)} }},
	{"combine", CombineNode, s.Combine},
}

func show(name string, o, n s.Node) string {
	return name + "\ntarget:\n" + g.Show(o) + "value:\n" + g.Show(n)
}

// compare runs one action and compares with its specification; view selects
// what of the trees is compared.
func compare(r *g.Rec, a act, o, n *yaml.Node, nontrivial bool, view func(s.Node) s.Node) {
	ids := g.NewIDs(o)
	so, sn := ids.Spec(o), ids.Spec(n)
	in := show(a.name, so, sn)
	r.Case(nontrivial, in)
	want := a.spec(so, sn)
	err := a.run(o, n)
	if (err != nil) != want.E {
		r.Fail(fmt.Sprintf("%s: error %v, an error is required: %v", a.name, err, want.E), in)
		return
	}
	if err != nil && a.name != "combine" {
		return
	}
	if d := g.Diff(view(ids.Spec(o)), view(want.N)); d != "" {
		r.Fail(fmt.Sprintf("%s: wrong result %s\nresult:\n%swanted:\n%s", a.name, d, g.Show(ids.Spec(o)), g.Show(want.N)), in)
	}
}

func all(n s.Node) s.Node { return n }

func comments(n s.Node) s.Node {
	r := s.Node{HeadComment: n.HeadComment, LineComment: n.LineComment, FootComment: n.FootComment}
	for _, c := range n.Content {
		r.Content = append(r.Content, comments(c))
	}
	return r
}

func texts(n s.Node) s.Node {
	r := comments(n)
	r.Content = nil
	r.Value = n.Value
	for _, c := range n.Content {
		r.Content = append(r.Content, texts(c))
	}
	return r
}

func TestVerif_C01_merge(t *testing.T) {
	r := g.Start(t, "C01", "merge", "random mapping merged into a random mapping (no markers, no overlay comments); non-trivial: both have entries")
	r.Run(r.N(12000, 150000), func(int) {
		o := g.Tree(r.R, g.Opt{Depth: 3, Width: 4, Root: 4, Comments: 4, Styles: true})
		n := g.Tree(r.R, g.Opt{Depth: 3, Width: 4, Root: 4, Styles: true})
		compare(r, acts[0], o, n, len(o.Content) > 0 && len(n.Content) > 0, all)
	})
}

func TestVerif_C02_merge(t *testing.T) {
	r := g.Start(t, "C02", "merge", "random value of any kind merged into a random target of any kind (no markers, no overlay comments); non-trivial: not both empty")
	r.Run(r.N(12000, 150000), func(int) {
		oo := g.Opt{Depth: 3, Width: 3, Comments: 4, Styles: true, Aliases: true}
		no := g.Opt{Depth: 3, Width: 3, Styles: true, Aliases: r.R.Intn(3) == 0}
		if r.R.Intn(6) == 0 {
			oo.Root, no.Root = 1, 1
		}
		o, n := g.Tree(r.R, oo), g.Tree(r.R, no)
		compare(r, acts[0], o, n, len(o.Content)+len(n.Content) > 0, all)
	})
}

func TestVerif_C03_replace(t *testing.T) {
	r := g.Start(t, "C03", "replace", "random target replaced by a random value; non-trivial: different trees; afterwards the copy is changed and the value compared")
	r.Run(r.N(12000, 150000), func(int) {
		o := g.Tree(r.R, g.Opt{Depth: 3, Comments: 4, Styles: true, Aliases: true})
		n := g.Tree(r.R, g.Opt{Depth: 3, Styles: true, Comments: []int{0, 3}[r.R.Intn(2)], Aliases: true})
		before := g.NewIDs().Spec(n)
		compare(r, acts[1], o, n, g.Diff(g.NewIDs().Spec(o), before) != "", func(x s.Node) s.Node {
			x.HeadComment, x.LineComment, x.FootComment = "", "", ""
			return x
		})
		if r.Failed() {
			return
		}
		for _, x := range g.Nodes(o) {
			x.Value += "!"
			x.Content = append(x.Content, &yaml.Node{})
		}
		if d := g.Diff(g.NewIDs().Spec(n), before); d != "" {
			r.Fail("the inserted copy is not independent of the value: "+d, show("replace", s.Node{}, before))
		}
	})
}

func TestVerif_C04_delete(t *testing.T) {
	r := g.Start(t, "C04", "delete", "every node of a random tree (40 of a large one) deleted from it, and several in turn; non-trivial: the tree has entries")
	r.Run(r.N(1500, 20000), func(int) {
		root := g.Tree(r.R, g.Opt{Depth: 4, Width: 4, Root: 1, Comments: 6, Styles: true, Aliases: true})
		if r.R.Intn(4) == 0 {
			root = root.Content[0]
		}
		n := len(g.Nodes(root))
		for j := 0; j < n && j < 40 && !r.Failed(); j++ {
			k := j
			if n > 40 {
				k = r.R.Intn(n)
			}
			tree := g.Clone(root)
			ids := g.NewIDs(tree)
			for step := 0; step < 3 && !r.Failed(); step++ {
				nodes := g.Nodes(tree)
				c := nodes[r.R.Intn(len(nodes))]
				if step == 0 {
					c = nodes[k]
				}
				so := ids.Spec(tree)
				in := fmt.Sprintf("delete id=%d from\n%s", ids.ID[c], g.Show(so))
				r.Case(n > 1, in)
				want := s.Delete(so, s.Ref(ids.ID[c]))
				DeleteNode(tree, c)
				if d := g.Diff(ids.Spec(tree), want); d != "" {
					r.Fail(fmt.Sprintf("delete: %s\nresult:\n%swanted:\n%s", d, g.Show(ids.Spec(tree)), g.Show(want)), in)
				}
			}
		}
	})
}

func TestVerif_C05_combine(t *testing.T) {
	r := g.Start(t, "C05", "combine", "pairs of scalars from a table of limits, numerals, booleans and texts, and random ones; non-trivial: scalar with scalar")
	vals := []string{"0", "1", "-1", "7", "+7", "007", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807",
		"4611686018427387904", "-4611686018427387904", "4611686018427387905", "-4611686018427387905", "9223372036854775808", "0x10", "1_000", "1e3", "1.5", "", " 1", "true", "false", "True", "FALSE", "t", "F", "yes", "on", "abc", "ä", "%v", "5 "}
	tags := []string{"!!int", "!!bool", "!!str", "!!float", "!!null", ""}
	one := func(ot, ov, nt, nv string, ok, nk yaml.Kind) {
		o := &yaml.Node{Kind: ok, Tag: ot, Value: ov, HeadComment: "# o", Style: yaml.DoubleQuotedStyle}
		n := &yaml.Node{Kind: nk, Tag: nt, Value: nv}
		compare(r, acts[2], o, n, ok == 8 && nk == 8, all)
		if r.Failed() || ok != 8 || nk != 8 || ot != "!!int" {
			return
		}
		// independent of the specification: the sum with big integers
		a, okA := new(big.Int).SetString(ov, 10)
		b, okB := new(big.Int).SetString(nv, 10)
		if okA && okB && !strings.Contains(ov+nv, "_") && a.IsInt64() && b.IsInt64() {
			sum := new(big.Int).Add(a, b)
			if sum.IsInt64() && o.Value != sum.String() {
				r.Fail("sum is "+o.Value+", should be "+sum.String(), ov+" + "+nv)
			}
		}
	}
	for _, ot := range tags {
		for _, ov := range vals {
			for _, nv := range vals {
				if r.Failed() {
					return
				}
				ov, nv, ot := ov, nv, ot
				r.Try(func() { one(ot, ov, tags[r.R.Intn(len(tags))], nv, 8, 8) })
			}
		}
	}
	r.Run(r.N(4000, 60000), func(int) {
		num := func() string {
			switch r.R.Intn(3) {
			case 0:
				return fmt.Sprint(int64(r.R.Uint64()))
			case 1:
				return fmt.Sprint(int64(r.R.Uint64()) >> uint(r.R.Intn(60)))
			}
			return vals[r.R.Intn(len(vals))]
		}
		ks := []yaml.Kind{8, 8, 8, 8, 8, 8, 8, 4, 2, 16, 1}
		one(tags[r.R.Intn(2)], num(), tags[r.R.Intn(len(tags))], num(), ks[r.R.Intn(len(ks))], ks[r.R.Intn(len(ks))])
	})
}

func TestVerif_C06_comments(t *testing.T) {
	r := g.Start(t, "C06", "comments", "merge, replace and combine of random trees with comments on both sides; the comments of the whole result are compared; non-trivial: the value has comments")
	r.Run(r.N(12000, 150000), func(int) {
		oo := g.Opt{Depth: 3, Width: 3, Comments: 2}
		no := g.Opt{Depth: 3, Width: 3, Comments: []int{1, 2, 4, 0}[r.R.Intn(4)]}
		a := acts[r.R.Intn(3)]
		switch r.R.Intn(5) {
		case 0:
			oo.Root, no.Root = 4, 4
		case 1:
			oo.Root, no.Root = 2, 2
		case 2:
			oo.Root, no.Root = 8, 8
		case 3:
			if a.name == "merge" {
				oo.Root, no.Root = 1, 1
			}
		}
		o, n := g.Tree(r.R, oo), g.Tree(r.R, no)
		compare(r, a, o, n, no.Comments > 0, comments)
	})
}

func TestVerif_C07_markers(t *testing.T) {
	r := g.Start(t, "C07", "markers", "merge, replace and combine of random trees with markers in values, keys and comments; every text of the result is compared; non-trivial: the value contains a percent sign")
	r.Run(r.N(16000, 200000), func(int) {
		oo := g.Opt{Depth: 3, Width: 3, Comments: 2, Markers: []int{0, 0, 3}[r.R.Intn(3)]}
		no := g.Opt{Depth: 3, Width: 3, Comments: []int{1, 2, 0}[r.R.Intn(3)], Markers: 2}
		a := acts[[]int{0, 0, 0, 1, 2}[r.R.Intn(5)]]
		switch r.R.Intn(3) {
		case 0:
			oo.Root, no.Root = 4, 4
		case 1:
			oo.Root, no.Root = 8, 8
		}
		o, n := g.Tree(r.R, oo), g.Tree(r.R, no)
		nt := strings.Contains(g.Show(g.NewIDs().Spec(n)), "%")
		compare(r, a, o, n, nt, texts)
	})
	// random texts made of marker pieces, merged into a commented entry
	pieces := []string{"%", "v", "k", "l", "h", "f", "{", "}", "%v", "%k", "%l", "%h", "%f", " ", "$1", "${1}", "\\1", "V", "%V", "%K", "%s", "d", "é", "\n", "x", "%%", "{}", "#"}
	text := func(k int) string {
		b := ""
		for i := r.R.Intn(k); i >= 0; i-- {
			b += pieces[r.R.Intn(len(pieces))]
		}
		return b
	}
	r.Run(r.N(10000, 150000), func(int) {
		v := text(8)
		if r.R.Intn(10) == 0 {
			v = text(80)
		}
		if r.R.Intn(40) == 0 {
			v = strings.Repeat(g.Pick(r.R, "%v", "%k", "%h ", "a%f", "%l%v"), g.PickInt(r.R, 9, 17, 40, 70))
		}
		// sed commands are out of scope
		if sedCommand(v) {
			r.Skip()
			return
		}
		mk := func(k, v string) *yaml.Node {
			return &yaml.Node{Kind: 4, Tag: "!!map", Content: []*yaml.Node{{Kind: 8, Tag: "!!str", Value: k}, {Kind: 8, Tag: "!!str", Value: v}}}
		}
		o := mk(text(3), text(4))
		o.Content[1].HeadComment, o.Content[1].LineComment, o.Content[1].FootComment = text(4), text(4), text(4)
		n := mk(o.Content[0].Value, v)
		switch r.R.Intn(4) {
		case 0:
			n.Content[1].LineComment = v
		case 1:
			n.Content[1].HeadComment, n.Content[1].FootComment = v, v
		case 2:
			n.Content[0].Value = v
			n.Content[1].Value = text(5)
			if sedCommand(n.Content[1].Value) {
				n.Content[1].Value = "z%v"
			}
		case 3: // nothing to merge with
			if r.R.Intn(2) == 0 {
				o.Content[0].Value = "other"
			}
		}
		if sedCommand(n.Content[0].Value) {
			r.Skip()
			return
		}
		compare(r, acts[0], o, n, true, texts)
	})
}

func sedCommand(v string) bool {
	for i := 0; i+2 < len(v); i++ {
		if v[i] == '%' && strings.IndexByte("vklhf", v[i+1]) >= 0 && v[i+2] == '{' {
			j := strings.IndexByte(v[i:], '}')
			if j > 3 && !strings.Contains(v[i:i+j], "\n") {
				return true
			}
		}
	}
	return false
}

func TestVerif_C08_sharing(t *testing.T) {
	r := g.Start(t, "C08", "sharing", "one value applied by merge, replace and combine to several documents in turn, which are then changed; the value must stay as it was and no node be shared; non-trivial: the value has children")
	r.Run(r.N(6000, 80000), func(int) {
		m := []int{0, 3}[r.R.Intn(2)]
		n := g.Tree(r.R, g.Opt{Depth: 3, Width: 3, Comments: 3, Markers: m, Aliases: true, Styles: true})
		if r.R.Intn(8) == 0 {
			n = g.Tree(r.R, g.Opt{Depth: 3, Width: 3, Root: 1, Comments: 3, Markers: m})
		}
		ids := g.NewIDs(n)
		before := ids.Spec(n)
		var docs []*yaml.Node
		log := ""
		for k := 0; k < 3; k++ {
			o := g.Tree(r.R, g.Opt{Depth: 2, Width: 3, Comments: 3})
			if n.Kind == 1 && r.R.Intn(2) == 0 {
				o = g.Tree(r.R, g.Opt{Depth: 2, Width: 3, Root: 1})
			}
			a := acts[r.R.Intn(3)]
			log += show(a.name, g.NewIDs().Spec(o), before)
			r.Case(len(n.Content) > 0, log)
			a.run(o, n)
			if d := g.Diff(ids.Spec(n), before); d != "" {
				r.Fail("the value of the overlay was modified: "+d, log)
				return
			}
			if x := g.Shared(o, n); x != nil {
				r.Fail(fmt.Sprintf("the document shares node %q with the overlay", x.Value), log)
				return
			}
			for _, d := range docs {
				if x := g.Shared(o, d); x != nil {
					r.Fail(fmt.Sprintf("two documents share node %q", x.Value), log)
					return
				}
			}
			docs = append(docs, o)
		}
		for _, d := range docs {
			for _, x := range g.Nodes(d) {
				if x.Kind == 4 || x.Kind == 2 {
					MergeNode(x, &yaml.Node{Kind: x.Kind, Content: []*yaml.Node{{Kind: 8, Value: "q"}, {Kind: 8, Value: "q"}}})
				}
				x.Value += "!"
				if len(x.Content) > 1 {
					x.Content[0], x.Content[1] = x.Content[1], x.Content[0]
				}
			}
			if x := ids.Spec(n); g.Diff(x, before) != "" {
				r.Fail("changing a document changed the overlay: "+g.Diff(x, before), log)
				return
			}
		}
	})
}

func TestVerif_C19_setstyle(t *testing.T) {
	r := g.Start(t, "C19", "setstyle", "random trees and lists of styles; non-trivial: the tree has children")
	styles := []Style{TaggedStyle, DoubleQuotedStyle, SingleQuotedStyle, LiteralStyle, FoldedStyle, FlowStyle, NormalStyle}
	r.Run(r.N(6000, 60000), func(int) {
		n := g.Tree(r.R, g.Opt{Depth: 4, Comments: 4, Styles: true, Aliases: true, Root: []int{0, 1}[r.R.Intn(2)]})
		var ss Styles
		want := Style(0)
		for k := r.R.Intn(4); k > 0; k-- {
			x := styles[r.R.Intn(len(styles))]
			ss = append(ss, x)
			want |= x
		}
		ids := g.NewIDs(n)
		so := ids.Spec(n)
		in := fmt.Sprint(ss) + "\n" + g.Show(so)
		r.Case(len(n.Content) > 0, in)
		SetStyle(ss, n)
		if d := g.Diff(ids.Spec(n), s.Styled(int(want), so)); d != "" {
			r.Fail("style: "+d, in)
		}
	})
}

func TestVerif_C19_names(t *testing.T) {
	r := g.Start(t, "C19", "names", "all documented style names in random letter cases, and lists of them in every separator form; non-trivial: a known name")
	names := map[string]Style{"normal": NormalStyle, "n": NormalStyle, "tagged": TaggedStyle, "tag": TaggedStyle, "t": TaggedStyle,
		"doublequoted": DoubleQuotedStyle, "doublequote": DoubleQuotedStyle, "double": DoubleQuotedStyle, "dq": DoubleQuotedStyle,
		"singlequoted": SingleQuotedStyle, "singlequote": SingleQuotedStyle, "single": SingleQuotedStyle, "sq": SingleQuotedStyle,
		"literal": LiteralStyle, "l": LiteralStyle, "folded": FoldedStyle, "fold": FoldedStyle, "fo": FoldedStyle, "flow": FlowStyle, "fl": FlowStyle}
	keys := []string{}
	for k := range names {
		keys = append(keys, k)
	}
	sortStrings(keys)
	pick := func() (string, Style) {
		if r.R.Intn(6) == 0 {
			return g.Pick(r.R, "bold", "", "nn", "lit", "norm", "f", "double quoted", "0", "dqq", "x", " flow", "flow ", "\tliteral", "tagged "), 0
		}
		k := keys[r.R.Intn(len(keys))]
		return mixCase(r, k), names[k]
	}
	r.Run(r.N(3000, 30000), func(i int) {
		var in []string
		var want Styles
		for k := r.R.Intn(4); k >= 0; k-- {
			var parts []string
			for m := r.R.Intn(3); m >= 0; m-- {
				n, st := pick()
				parts = append(parts, n)
				if st != 0 {
					want = append(want, st)
				}
			}
			x := strings.Join(parts, ",")
			if r.R.Intn(2) == 0 {
				x = "[" + x + "]"
			}
			in = append(in, x)
		}
		r.Case(len(want) > 0, fmt.Sprintf("%q", in))
		got := GetStyleFromConfig(in...)
		if fmt.Sprint(got.GetStyle()) != fmt.Sprint(want.GetStyle()) || len(got) != len(want) {
			r.Fail(fmt.Sprintf("selects %v, should select %v", got, want), fmt.Sprintf("%q", in))
		}
		acc := Style(0)
		for _, w := range want {
			acc |= w
		}
		if got.GetStyle() != acc {
			r.Fail(fmt.Sprintf("combined style is %d, should be %d", got.GetStyle(), acc), fmt.Sprintf("%q", in))
		}
	})
}

func sortStrings(x []string) {
	for i := range x {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func mixCase(r *g.Rec, k string) string {
	b := []byte(k)
	for i := range b {
		if r.R.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func TestVerif_C22_actions(t *testing.T) {
	r := g.Start(t, "C22", "actions", "every action name in random letter cases, near misses and random texts, through UnmarshalYAML, Set and String; non-trivial: any text")
	names := map[string]Action{"merge": Merge, "replace": Replace, "delete": Delete, "combine": Combine}
	for k, a := range names {
		if a.String() != k {
			r.Fail(fmt.Sprintf("action %d prints as %q, should be %q", a, a.String(), k), k)
			return
		}
		if m, err := a.MarshalYAML(); err != nil || m != interface{}(k) {
			r.Fail(fmt.Sprintf("action %d marshals as %v, should be %q", a, m, k), k)
			return
		}
	}
	miss := map[string]OnMissingAction{"ignore": Ignore, "inject": Inject, "default": Default}
	for k, a := range miss {
		if a.String() != k {
			r.Fail(fmt.Sprintf("missing-match action %d prints as %q, should be %q", a, a.String(), k), k)
			return
		}
		if m, err := a.MarshalYAML(); err != nil || m != interface{}(k) {
			r.Fail(fmt.Sprintf("missing-match action %d marshals as %v, should be %q", a, m, k), k)
			return
		}
	}
	r.Run(r.N(4000, 40000), func(i int) {
		k := g.Pick(r.R, "merge", "replace", "delete", "combine", "combine", "merge ", " merge", "mergee", "merg", "ignore", "inject", "add", "", "null", "0", "remove", "rep", "combin", "deleted", "replac")
		if r.R.Intn(10) == 0 {
			k = g.Word(r.R, g.Opt{})
		}
		k = mixCase(r, k)
		start := Action(r.R.Intn(5))
		r.Case(true, fmt.Sprintf("%q over %d", k, start))
		a := start
		err := a.UnmarshalYAML(&yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k})
		want, ok := names[strings.ToLower(k)]
		if !ok {
			want = start
		}
		if (err == nil) != ok || a != want {
			r.Fail(fmt.Sprintf("%q over %d gives %d, error %v; should give %d, accepted %v", k, start, a, err, want, ok), k)
			return
		}
		if ok {
			a = start
			if err := a.Set(k); err != nil || a != want {
				r.Fail(fmt.Sprintf("Set(%q) gives %d, error %v; should give %d", k, a, err, want), k)
				return
			}
			if !strings.EqualFold(a.String(), k) {
				r.Fail(fmt.Sprintf("%q prints as %q", k, a.String()), k)
				return
			}
		}
		m := mixCase(r, g.Pick(r.R, "ignore", "inject", "default"))
		var o OnMissingAction = Inject
		if err := o.Set(m); err != nil || o != miss[strings.ToLower(m)] {
			r.Fail(fmt.Sprintf("missing-match Set(%q) gives %d, error %v", m, o, err), m)
		}
	})
	// values that are no texts
	r.Run(200, func(i int) {
		a := Replace
		v := g.Tree(r.R, g.Opt{Depth: 1, Root: []int{2, 4}[i%2]})
		var act Action = Action(a)
		r.Case(true, g.Show(g.NewIDs().Spec(v)))
		if err := act.UnmarshalYAML(v); err == nil || act != Action(a) {
			r.Fail(fmt.Sprintf("a value that is no text gives action %d, error %v", act, err), g.Show(g.NewIDs().Spec(v)))
		}
	})
}

func TestVerif_C24_actions(t *testing.T) {
	r := g.Start(t, "C24", "actions", "all actions, styling and deletion on random unusual trees; non-trivial: any; the outcome must be a result or an error")
	r.Run(r.N(15000, 200000), func(i int) {
		oo := g.Opt{Depth: 3, Width: 3, Comments: 3, Markers: 4, Aliases: true, Odd: true, Styles: true}
		no := oo
		switch r.R.Intn(4) {
		case 0:
			oo.Root = 1
		case 1:
			no.Root = 1
		case 2:
			oo.Root, no.Root = 1, 1
		}
		o, n := g.Tree(r.R, oo), g.Tree(r.R, no)
		if oo.Root == 1 && r.R.Intn(3) == 0 {
			o.Content = []*yaml.Node{[]*yaml.Node{nil, {}}[1]}[:0]
		}
		if no.Root == 1 && r.R.Intn(3) == 0 {
			n.Content = nil
		}
		if r.R.Intn(3) == 0 {
			for _, x := range append(g.Nodes(o), g.Nodes(n)...) {
				if r.R.Intn(4) == 0 {
					x.Value = g.Pick(r.R, "\xff", "%v\xfe", "%\xff", "%k{", "\xe2\x82", "")
				}
				if r.R.Intn(6) == 0 {
					x.Content = nil
				} else if r.R.Intn(6) == 0 && len(x.Content) == 0 {
					x.Content = []*yaml.Node{}
				}
			}
		}
		if r.R.Intn(3) == 0 {
			nodes := g.Nodes(o)
			c := nodes[r.R.Intn(len(nodes))]
			r.Case(true, fmt.Sprintf("delete %q from\n%s", c.Value, g.Show(g.NewIDs().Spec(o))))
			DeleteNode(o, c)
		}
		a := acts[r.R.Intn(3)]
		x := g.Nodes(o)[r.R.Intn(len(g.Nodes(o)))]
		r.Case(true, show(a.name, g.NewIDs().Spec(x), g.NewIDs().Spec(n)))
		a.run(x, n)
		SetStyle(Styles{NormalStyle}, o)
		MergeNode()
		MergeNode(n)
	})
}

// What the proofs assume of the regular expression.
func TestVerif_C07_regexp(t *testing.T) {
	r := g.Start(t, "C07", "regexp", "the assumption of the proofs about the marker expression, on random texts made of marker pieces; non-trivial: a marker in the text")
	re := regexp.MustCompile(`(?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?`)
	pieces := []string{"%", "v", "k", "{", "}", "%v", "%k", "%l", "%h", "%f", "%v{", " ", "s/a/b/", "é", "\n", "x", "%%", "{}", "\xff", "\r", "\u2028"}
	r.Run(r.N(20000, 200000), func(int) {
		b := ""
		for i := r.R.Intn(10); i > 0; i-- {
			b += pieces[r.R.Intn(len(pieces))]
		}
		want := re.FindAllStringSubmatch(b, -1)
		r.Case(len(want) > 0, b)
		if got := s.Matches(b); fmt.Sprint(got) != fmt.Sprint(want) || len(got) != len(want) {
			r.Fail(fmt.Sprintf("the expression matches %q, assumed is %q", want, got), b)
		}
	})
}
