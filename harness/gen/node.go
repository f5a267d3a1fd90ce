package verifgen

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	s "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifspec"
	"gopkg.in/yaml.v3"
)

// IDs gives every node of some trees a number.
type IDs struct {
	ID    map[*yaml.Node]int
	Node  map[int]*yaml.Node
	alias map[string]*yaml.Node
}

// NewIDs numbers the nodes of the trees, from 1 on.
func NewIDs(ns ...*yaml.Node) *IDs {
	m := &IDs{ID: map[*yaml.Node]int{}, Node: map[int]*yaml.Node{}, alias: map[string]*yaml.Node{}}
	for _, n := range ns {
		m.Add(n)
	}
	return m
}

// Add numbers the nodes of one more tree.
func (m *IDs) Add(n *yaml.Node) {
	if n == nil || m.ID[n] != 0 {
		return
	}
	k := len(m.ID) + 1
	m.ID[n] = k
	m.Node[k] = n
	for _, c := range n.Content {
		m.Add(c)
	}
}

// Spec is the specification's view of a tree; a node that was not numbered
// has identity 0.
func (m *IDs) Spec(n *yaml.Node) s.Node {
	if n == nil {
		return s.Node{ID: -1}
	}
	r := s.Node{ID: m.ID[n], Kind: int(n.Kind), Style: int(n.Style), Tag: n.Tag, Value: n.Value, Anchor: n.Anchor,
		HeadComment: n.HeadComment, LineComment: n.LineComment, FootComment: n.FootComment}
	if n.Alias != nil {
		r.Alias = "*" + n.Alias.Anchor
		m.alias[r.Alias] = n.Alias
	}
	for _, c := range n.Content {
		r.Content = append(r.Content, m.Spec(c))
	}
	return r
}

// All views a list of trees.
func (m *IDs) All(ns []*yaml.Node) []s.Node {
	var r []s.Node
	for _, n := range ns {
		r = append(r, m.Spec(n))
	}
	return r
}

// Put makes dst the tree n describes, with the numbered nodes where n has
// their identities.
func (m *IDs) Put(dst *yaml.Node, n s.Node) {
	dst.Kind, dst.Style = yaml.Kind(n.Kind), yaml.Style(n.Style)
	dst.Tag, dst.Value, dst.Anchor = n.Tag, n.Value, n.Anchor
	dst.HeadComment, dst.LineComment, dst.FootComment = n.HeadComment, n.LineComment, n.FootComment
	dst.Alias = m.alias[n.Alias]
	dst.Content = nil
	for _, c := range n.Content {
		d := m.Node[c.ID]
		if c.ID == 0 || d == nil {
			d = &yaml.Node{}
		}
		m.Put(d, c)
		dst.Content = append(dst.Content, d)
	}
}

// Strip is n without identities.
func Strip(n s.Node) s.Node {
	n.ID = 0
	c := n.Content
	n.Content = nil
	for _, x := range c {
		n.Content = append(n.Content, Strip(x))
	}
	return n
}

// Show is a readable description of a tree.
func Show(n s.Node) string {
	var b strings.Builder
	show(&b, n, 0)
	return b.String()
}

var kinds = map[int]string{1: "document", 2: "sequence", 4: "mapping", 8: "scalar", 16: "alias"}

func show(b *strings.Builder, n s.Node, d int) {
	fmt.Fprintf(b, "%s%s", strings.Repeat("  ", d), kinds[n.Kind])
	if n.ID != 0 {
		fmt.Fprintf(b, " id=%d", n.ID)
	}
	for _, f := range []struct{ k, v string }{{"tag", n.Tag}, {"value", n.Value}, {"anchor", n.Anchor}, {"alias", n.Alias},
		{"head", n.HeadComment}, {"line", n.LineComment}, {"foot", n.FootComment}} {
		if f.v != "" {
			fmt.Fprintf(b, " %s=%q", f.k, f.v)
		}
	}
	if n.Style != 0 {
		fmt.Fprintf(b, " style=%d", n.Style)
	}
	b.WriteString("\n")
	for _, c := range n.Content {
		show(b, c, d+1)
	}
}

// Diff describes the first difference of two trees, or "".
func Diff(got, want s.Node) string { return diff("", got, want) }

func diff(p string, a, b s.Node) string {
	for _, f := range []struct {
		k    string
		x, y interface{}
	}{{"identity", a.ID, b.ID}, {"kind", kinds[a.Kind], kinds[b.Kind]}, {"tag", a.Tag, b.Tag}, {"value", a.Value, b.Value},
		{"head comment", a.HeadComment, b.HeadComment}, {"line comment", a.LineComment, b.LineComment},
		{"foot comment", a.FootComment, b.FootComment}, {"style", a.Style, b.Style}, {"anchor", a.Anchor, b.Anchor}, {"alias", a.Alias, b.Alias},
		{"number of children", len(a.Content), len(b.Content)}} {
		if f.x != f.y {
			return fmt.Sprintf("at %s/: %s is %#v, should be %#v", p, f.k, f.x, f.y)
		}
	}
	for i := range a.Content {
		if d := diff(p+"/"+strconv.Itoa(i), a.Content[i], b.Content[i]); d != "" {
			return d
		}
	}
	return ""
}

// Opt says what generated trees contain.
type Opt struct {
	Depth    int
	Width    int
	Comments int // 1 in n nodes gets each kind of comment; 0: none
	Markers  int // 1 in n texts has markers; 0: none
	Styles   bool
	Keys     int  // number of different keys
	Root     int  // kind of the root; 0: any
	Aliases  bool // alias nodes
	Odd      bool // unusual trees (complex keys, empty tags, duplicate keys)
}

func one(r *rand.Rand, n int) bool { return n > 0 && r.Intn(n) == 0 }

// Pick picks one of some texts.
func Pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

// PickInt picks one of some numbers.
func PickInt(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }

var words = []string{"", "a", "b", "x y", "nginx:1.2", "null", "-", "0", "1", "-7", "true", "9223372036854775807", "ä€", "100%", "%", "%%", "a\nb", "a\n\nb", "{}", "$1", "${x}", "\\", "é%", "# no", " lead", "%d", "%s", "x{y}", "x ", "x\n", "\tx", " x y ", "A", "a b\n\n"}
var markerWords = []string{"%v", "%k", "%l", "%h", "%f", "a%v", "%vb", "%v%v", "%k-%v", "%v%k%l%h%f", "%%v", "%v{", "%v{}", "%v}", "%l{x", "%h%", "p%vq%kr", "%v{}%k", "%k{}}", "%vv", "a%f\n%h", "%V-%v", "%d%k", "%s %v %q", "%K%v", "%L%l", "%1$s%v", "%[1]d %v"}

// Word is a text.
func Word(r *rand.Rand, o Opt) string {
	if one(r, o.Markers) {
		return markerWords[r.Intn(len(markerWords))]
	}
	return words[r.Intn(len(words))]
}

// Comment is the text of a comment.
func Comment(r *rand.Rand, o Opt) string {
	if !one(r, o.Comments) {
		return ""
	}
	c := Pick(r, "# c", "# two words", "#x", "# a\n# b", "## d", "#", "# 50%", "# $1", "#\t", "no hash")
	if one(r, o.Markers) {
		c = Pick(r, "# %v", "# %k is %v", "#%l", "# %h", "# new %l", "#%f#", "%h", "# %v{}", "# %l%l", "# %h\n# more")
	}
	return c
}

// Scalar is a scalar node.
func Scalar(r *rand.Rand, o Opt) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: Word(r, o)}
	switch r.Intn(6) {
	case 5:
		if r.Intn(3) == 0 {
			n.Tag = Pick(r, "!!float", "!!binary", "!!timestamp", "!Ref", "!!merge")
			n.Value = Pick(r, "1.5", ".inf", "aGk=", "2001-12-14", "<<", "x", "%v")
			if o.Markers == 0 && n.Value == "%v" {
				n.Value = "v"
			}
		}
	case 0:
		n.Tag, n.Value = "!!int", strconv.Itoa(r.Intn(9)-3)
	case 1:
		n.Tag, n.Value = "!!bool", Pick(r, "true", "false")
	case 2:
		if r.Intn(3) == 0 {
			n.Tag, n.Value = "!!null", Pick(r, "", "null", "~")
		}
	}
	return finish(r, n, o)
}

func finish(r *rand.Rand, n *yaml.Node, o Opt) *yaml.Node {
	n.HeadComment, n.LineComment, n.FootComment = Comment(r, o), Comment(r, o), Comment(r, o)
	if o.Styles && r.Intn(3) == 0 {
		n.Style = yaml.Style(1 << uint(r.Intn(6)))
	}
	n.Line, n.Column = r.Intn(50)+1, r.Intn(9)+1
	if r.Intn(12) == 0 {
		n.Anchor = Pick(r, "a1", "a2")
	}
	return n
}

// Key is a key of a mapping.
func Key(r *rand.Rand, o Opt) *yaml.Node {
	k := o.Keys
	if k == 0 {
		k = 4
	}
	n := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: string(rune('a' + r.Intn(k)))}
	if r.Intn(6) == 0 {
		n.Value = Pick(r, "app.kubernetes.io/name", "k.1", "1", "", "A", "ab", " a", "a ", "b\n", "B", "a.b", "a/b", "true", "null", "<<")
		n.Tag = Pick(r, "!!str", "!!str", "!!str", "!!int", "!!bool", "!!null")
	}
	if one(r, o.Markers) {
		n.Value = Pick(r, "%k", "new-%k", "%k%v", "%v", "x%k{}")
	}
	if o.Odd && r.Intn(20) == 0 {
		n.Kind, n.Tag, n.Value = yaml.SequenceNode, "!!seq", ""
	}
	return finish(r, n, o)
}

// Tree is a well-formed tree, as the parser makes them.
func Tree(r *rand.Rand, o Opt) *yaml.Node {
	k := o.Root
	if k == 0 {
		k = []int{2, 4, 8, 4, 8, 8}[r.Intn(6)]
	}
	if o.Aliases && o.Root == 0 && r.Intn(15) == 0 {
		return finish(r, &yaml.Node{Kind: yaml.AliasNode, Value: "a1", Alias: &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: "t", Anchor: "a1"}}, Opt{})
	}
	if o.Depth <= 0 && k != int(yaml.DocumentNode) {
		k = 8
	}
	c := o
	c.Depth, c.Root = o.Depth-1, 0
	w := o.Width
	if w == 0 {
		w = 3
	}
	large := o.Depth > 0 && k != int(yaml.DocumentNode) && r.Intn(80) == 0
	if large {
		w, c.Depth = 200, 0
	}
	switch yaml.Kind(k) {
	case yaml.DocumentNode:
		n := &yaml.Node{Kind: yaml.DocumentNode}
		n.Content = []*yaml.Node{Tree(r, c)}
		n.HeadComment, n.FootComment = Comment(r, o), Comment(r, o)
		return n
	case yaml.SequenceNode:
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
		for i := r.Intn(w + 1); i > 0; i-- {
			n.Content = append(n.Content, Tree(r, c))
		}
		return finish(r, n, o)
	case yaml.MappingNode:
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		used := map[string]bool{}
		for i := r.Intn(w + 1); i > 0; i-- {
			k := Key(r, o)
			if large && k.Kind == yaml.ScalarNode && o.Markers == 0 {
				k.Value += strconv.Itoa(r.Intn(w))
			}
			if used[k.Value] && !(o.Odd && r.Intn(3) == 0) {
				continue
			}
			used[k.Value] = true
			n.Content = append(n.Content, k, Tree(r, c))
		}
		return finish(r, n, o)
	}
	return Scalar(r, o)
}

// Nodes are the nodes of a tree, in order.
func Nodes(n *yaml.Node) []*yaml.Node {
	r := []*yaml.Node{n}
	for _, c := range n.Content {
		r = append(r, Nodes(c)...)
	}
	return r
}

// Clone is a deep copy; an alias keeps its target.
func Clone(n *yaml.Node) *yaml.Node {
	if n == nil {
		return nil
	}
	c := *n
	if n.Content != nil {
		c.Content = make([]*yaml.Node, len(n.Content))
		for i, x := range n.Content {
			c.Content[i] = Clone(x)
		}
	}
	return &c
}

// Shared is a node that occurs in both trees (aliases included), or nil.
func Shared(a, b *yaml.Node) *yaml.Node {
	m := map[*yaml.Node]bool{}
	for _, n := range Nodes(a) {
		m[n] = true
	}
	for _, n := range Nodes(b) {
		if m[n] {
			return n
		}
	}
	return nil
}

// Keys of a map, sorted.
func Keys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
