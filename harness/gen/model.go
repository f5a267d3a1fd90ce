package verifgen

import (
	"math/rand"
	"strings"

	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
	s "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifspec"
	"gopkg.in/yaml.v3"
)

// Overlay is the model's view of an overlay.
type Overlay struct {
	Queries   []string
	Value     *yaml.Node
	Action    string // "", merge, replace, delete, combine
	OnMissing string // "", ignore, inject
	Inject    []string
	Groups    [][]Cond
	HasIndex  bool
	Index     []int
}

// Cond is a condition of a document query.
type Cond struct {
	Queries []string
	Value   *yaml.Node // nil: no value
}

// Find are the matches of the queries, in order.
func Find(queries []string, root *yaml.Node) []*yaml.Node {
	var r []*yaml.Node
	for _, q := range queries {
		if root.Kind == yaml.DocumentNode && len(root.Content) == 0 {
			continue
		}
		p, err := yamlpath.NewPath(q)
		if err != nil {
			panic(err)
		}
		m, _ := p.Find(root)
		r = append(r, m...)
	}
	return r
}

// SameValue is equality whatever the comments, style and position.
func SameValue(a, b *yaml.Node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Kind != b.Kind || a.Tag != b.Tag || a.Value != b.Value || a.Anchor != b.Anchor || len(a.Content) != len(b.Content) {
		return false
	}
	if (a.Alias == nil) != (b.Alias == nil) || a.Alias != nil && !SameValue(a.Alias, b.Alias) {
		return false
	}
	for i := range a.Content {
		if !SameValue(a.Content[i], b.Content[i]) {
			return false
		}
	}
	return true
}

// Selected tells whether the document queries select a document.
func Selected(groups [][]Cond, root *yaml.Node) bool {
	if len(groups) == 0 {
		return true
	}
	for _, g := range groups {
		ok := true
		for _, c := range g {
			m := Find(c.Queries, root)
			if len(m) == 0 {
				ok = false
			}
			if c.Value != nil {
				for _, x := range m {
					if !SameValue(x, c.Value) {
						ok = false
					}
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// Do performs an action on one match, by the specification; it tells whether
// the action failed.
func Do(action string, root, n, value *yaml.Node) bool {
	ids := NewIDs(root, n)
	if action == "delete" {
		ids.Put(root, s.Delete(ids.Spec(root), s.Ref(ids.ID[n])))
		return false
	}
	o, v := ids.Spec(n), ids.Spec(value)
	var r s.Res
	switch action {
	case "replace":
		r.N = s.Replace(o, v)
	case "combine":
		r = s.Combine(o, v)
	default:
		r = s.Merge(o, v, nil)
	}
	ids.Put(n, r.N)
	return r.E
}

// Apply applies an overlay to a document, by the model; it tells whether it
// failed. inject is the configured default for missing matches.
func Apply(o *Overlay, root *yaml.Node, inject bool) bool {
	if !Selected(o.Groups, root) {
		return false
	}
	m := Find(o.Queries, root)
	if len(m) == 0 {
		if o.Action == "delete" || o.Action == "combine" {
			return false
		}
		if o.OnMissing == "ignore" || (o.OnMissing == "" || o.OnMissing == "default") && !inject {
			return false
		}
		paths := o.Queries
		if !Qualified(paths) {
			paths = o.Inject
			if paths == nil {
				return false
			}
		}
		return !Inject(paths, root, o.Value)
	}
	for _, n := range m {
		if Do(o.Action, root, n, o.Value) {
			return true
		}
	}
	return false
}

// Steps are the names of a fully qualified path, step by step.
func Steps(p string) (r [][]string, ok bool) {
	if strings.HasPrefix(p, "$") {
		p = p[1:]
	} else if p != "" && p[0] != '.' && p[0] != '[' {
		p = "." + p
	}
	for p != "" {
		switch p[0] {
		case '.':
			i := 1
			for i < len(p) && strings.IndexByte(".[) &|=!><~*", p[i]) < 0 {
				i++
			}
			if i == 1 {
				return nil, false
			}
			r = append(r, []string{p[1:i]})
			p = p[i:]
		case '[':
			var names []string
			i := 1
			for {
				if i >= len(p) || p[i] != '\'' && p[i] != '"' {
					return nil, false
				}
				j := strings.IndexByte(p[i+1:], p[i])
				if j < 0 {
					return nil, false
				}
				names = append(names, p[i+1:i+1+j])
				i += j + 2
				if i < len(p) && p[i] == ',' {
					i++
					continue
				}
				break
			}
			if i >= len(p) || p[i] != ']' {
				return nil, false
			}
			r = append(r, names)
			p = p[i+1:]
		default:
			return nil, false
		}
	}
	return r, true
}

// Qualified tells whether all paths are fully qualified.
func Qualified(paths []string) bool {
	for _, p := range paths {
		if _, ok := Steps(p); !ok {
			return false
		}
	}
	return len(paths) > 0
}

// Inject puts copies of the value at the paths (no path a prefix of another,
// existing nodes on the paths are mappings); false: an error is required.
func Inject(paths []string, root, value *yaml.Node) bool {
	var ends []*yaml.Node
	for _, p := range paths {
		steps, ok := Steps(p)
		if !ok {
			return false
		}
		at := []*yaml.Node{root}
		if root.Kind == yaml.DocumentNode {
			if len(root.Content) == 0 {
				return true
			}
			at = root.Content[:1]
		}
		for _, names := range steps {
			var next []*yaml.Node
			for _, n := range at {
				for _, name := range names {
					next = append(next, child(n, name))
				}
			}
			at = next
		}
		ends = append(ends, at...)
	}
	for _, e := range ends {
		Do("replace", root, e, value)
	}
	return true
}

func child(n *yaml.Node, name string) *yaml.Node {
	if n.Kind != yaml.MappingNode {
		n.Kind, n.Tag, n.Value, n.Content = yaml.MappingNode, "", "", nil
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == name {
			return n.Content[i+1]
		}
	}
	k, v := &yaml.Node{Kind: yaml.ScalarNode, Value: name}, &yaml.Node{Kind: yaml.ScalarNode}
	n.Content = append(n.Content, k, v)
	return v
}

// Short is a tree with the types as they are resolved.
func Short(n *yaml.Node) s.Node {
	r := s.Node{Kind: int(n.Kind), Style: int(n.Style), Tag: n.ShortTag(), Value: n.Value, Anchor: n.Anchor,
		HeadComment: n.HeadComment, LineComment: n.LineComment, FootComment: n.FootComment}
	if n.Alias != nil {
		r.Alias = "*" + n.Alias.Anchor
	}
	for _, c := range n.Content {
		r.Content = append(r.Content, Short(c))
	}
	return r
}

// Scalars and small helpers to build trees.

// Str is a text scalar.
func Str(v string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: v} }

// Map is a mapping of the given entries.
func Map(kv ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: kv}
}

// Seq is a sequence.
func Seq(v ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: v}
}

// Doc is a document.
func Doc(n *yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{n}}
}

// QueryPath is a random query over keys a, b, c, d.
func QueryPath(r *rand.Rand) string {
	k := func() string { return string(rune('a' + r.Intn(4))) }
	switch r.Intn(14) {
	case 0:
		return k()
	case 1:
		return k() + "." + k()
	case 2:
		return "$." + k()
	case 3:
		return ".." + k()
	case 4:
		return k() + "[0]"
	case 5:
		return k() + "[*]"
	case 6:
		return "*"
	case 7:
		return k() + ".*"
	case 8:
		return "['" + k() + "','" + k() + "']"
	case 9:
		return k() + "[?(@." + k() + ")]"
	case 10:
		return "$"
	case 11:
		return k() + "~"
	case 12:
		return "..*"
	}
	return k() + "." + k() + "." + k()
}
