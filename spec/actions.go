//go:build go1.21

package verifspec

import (
	"strconv"
	"strings"
)

// Res is the result of an action: the changed node and whether it failed.
type Res struct {
	N Node
	E bool
}

// ---- markers and formatting ----

// HasMarkers tells whether a text contains a format marker.
func HasMarkers(s string) bool {
	return strings.Contains(s, "%v") || strings.Contains(s, "%l") || strings.Contains(s, "%h") ||
		strings.Contains(s, "%f") || strings.Contains(s, "%k")
}

// @ contract actions.checkForMarkers
// @ prop C01 C07
func checkForMarkersPost(s string, r bool) bool { return r == HasMarkers(s) }

// Sanitize removes the markers from a previous text.
func Sanitize(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s,
		"%v", ""), "%l", ""), "%h", ""), "%f", ""), "%k", "")
}

// Format is text s with its markers replaced by the previous texts: value,
// line, head and foot comment, key.
func Format(s, v, l, h, f, k string) string {
	return Expand(s, Sanitize(v), Sanitize(l), Sanitize(h), Sanitize(f), Sanitize(k))
}

// @ contract actions.format
// @ prop C07
// @ fixed v 5
func formatPost(s string, v []string, r string) bool {
	return Eq(r, Format(s, v[0], v[1], v[2], v[3], v[4]))
}

// @ contract actions.doFormat
// @ prop C07
// @ fixed values 5
func doFormatPost(s string, values []string, r string) bool {
	return Eq(r, Expand(s, values[0], values[1], values[2], values[3], values[4]))
}

// ---- comments ----

// Uncomment is the text of a comment without its leading '#'.
func Uncomment(c string) string { return strings.TrimPrefix(c, "#") }

// MergeComments merges the comments of n into o.
func MergeComments(o, n Node, value, key string) Node {
	l := Uncomment(o.LineComment)
	h := Uncomment(o.HeadComment)
	f := Uncomment(o.FootComment)
	if n.HeadComment != "" {
		o.HeadComment = Format(n.HeadComment, value, l, h, f, key)
	}
	if n.LineComment != "" {
		o.LineComment = Format(n.LineComment, value, l, h, f, key)
	}
	if n.FootComment != "" {
		o.FootComment = Format(n.FootComment, value, l, h, f, key)
	}
	return o
}

// PrevValue and PrevKey are the previous value and key given by the optional
// arguments: (value, key), (key) or none.
func PrevValue(o Node, values []string) string {
	if len(values) > 1 {
		return values[0]
	}
	return o.Value
}

func PrevKey(values []string) string {
	if len(values) > 1 {
		return values[1]
	}
	if len(values) == 1 {
		return values[0]
	}
	return ""
}

// @ contract actions.mergeComments
// @ prop C06 C07 C08 C24
func mergeCommentsPost(o, n Node, values []string, o1 Node) bool {
	return Eq(o1, MergeComments(o, n, PrevValue(o, values), PrevKey(values)))
}

// MergeScalar merges scalar n into o.
func MergeScalar(o, n Node, value, key string) Node {
	text := Format(n.Value, value, Uncomment(o.LineComment), Uncomment(o.HeadComment), Uncomment(o.FootComment), key)
	o = MergeComments(o, n, value, key)
	if o.Kind != Scalar {
		o.Kind = Scalar
		o.Content = []Node{}
	}
	o.Value = text
	return o
}

// @ contract actions.mergeScalar
// @ prop C02 C06 C07 C08 C24
func mergeScalarPost(o, n Node, values []string, o1 Node) bool {
	return Eq(o1, MergeScalar(o, n, PrevValue(o, values), PrevKey(values)))
}

// ---- copies ----

// Copy is a deep copy: the same tree, with new identities.
func Copy(n Node) Node {
	n.ID = 0
	n.Content = CopyAll(n.Content)
	return n
}

// CopyAll copies every node of a list.
func CopyAll(ns []Node) []Node { return copyFrom(ns, 0) }

func copyFrom(ns []Node, i int) []Node {
	if i < 0 || i >= len(ns) {
		return []Node{}
	}
	return append([]Node{Copy(ns[i])}, copyFrom(ns, i+1)...)
}

// Clean is a node without markers, as it is inserted where nothing was.
func Clean(n Node) Node {
	if n.Kind == Document || n.Kind == Mapping || n.Kind == Sequence || n.Kind == Alias {
		n.Content = cleanFrom(n.Content, 0)
	}
	n.Value = Format(n.Value, "", "", "", "", "")
	n.HeadComment = Format(n.HeadComment, "", "", "", "", "")
	n.LineComment = Format(n.LineComment, "", "", "", "", "")
	n.FootComment = Format(n.FootComment, "", "", "", "", "")
	return n
}

func cleanFrom(ns []Node, i int) []Node {
	if i < 0 || i >= len(ns) {
		return ns
	}
	return cleanFrom(Upd(ns, i, Clean(ns[i])), i+1)
}

// @ contract actions.sanitizeNode
// @ prop C07 C24
func sanitizeNodePost(n []Node, n1 []Node) bool {
	return Eq(n1, cleanFrom(n, 0)) && len(n1) == len(n)
}

// @ decreases actions.sanitizeNode
func sanitizeNodeDec(n []Node) int { return HeightAll(n) }

// @ hint actions.sanitizeNode
func sanitizeNodeHint(n0, n []Node, i int) bool {
	return Eq(cleanFrom(n0, 0), cleanFrom(n, i)) && SameFrom(n0, n, i)
}

// SameFrom: the nodes from index i on are untouched.
func SameFrom(a, b []Node, i int) bool {
	return len(a) == len(b) && Forall(i, len(a), func(k int) bool { return Eq(a[k], b[k]) })
}

// HeightAll bounds the height of a list of nodes.
func HeightAll(ns []Node) int { return Height(Node{Content: ns}) }

// Add appends clean copies of nodes to o.
func Add(o Node, ns []Node) Node {
	o.Content = append(o.Content, cleanFrom(CopyAll(ns), 0)...)
	return o
}

// @ contract actions.addNode
// @ prop C01 C02 C08 C24
func addNodePost(o Node, nv []Node, o1 Node, err error) bool {
	return Eq(o1, Add(o, nv)) && err == nil
}

// ---- merge ----

// MergeArray merges sequence n into o.
func MergeArray(o, n Node) Node {
	if o.Kind != Sequence {
		o.Kind = Sequence
		o.Tag = "!!seq"
		o.Value = ""
		o.Content = []Node{}
	}
	if len(n.Content) > 0 {
		o = Add(MergeComments(o, n, o.Value, o.Value), n.Content)
	}
	return o
}

// @ contract actions.mergeArray
// @ prop C02 C06 C08 C24
// @ nilempty n
func mergeArrayPost(o, n Node, o1 Node, err error) bool {
	return Eq(o1, MergeArray(o, n)) && err == nil
}

// Merge merges n into o; keys is the key of o, if it has one.
func Merge(o, n Node, keys []string) Res {
	if n.Kind == Document {
		return MergeDocument(o, n)
	}
	if n.Kind == Mapping {
		return MergeMap(o, n)
	}
	if n.Kind == Sequence {
		return Res{MergeArray(o, n), false}
	}
	if n.Kind == Alias {
		return Res{o, true}
	}
	if n.Kind == Scalar {
		o = MergeScalar(o, n, PrevValue(o, keys), PrevKey(keys))
	}
	o.Tag = n.Tag
	return Res{o, false}
}

// @ contract actions.merge
// @ prop C01 C02 C06 C07 C08 C24
// @ nilempty n
func mergePost(o, n Node, keys []string, o1 Node, err error) bool {
	return Eq(o1, Merge(o, n, keys).N) && Iff(err != nil, Merge(o, n, keys).E)
}

// @ decreases actions.merge
func mergeDec(o, n Node, keys []string) int { return 2*Height(n) + 1 }

// MergeDocument merges document n into document o.
func MergeDocument(o, n Node) Res {
	if len(o.Content) == 0 || len(n.Content) == 0 {
		return Res{o, false}
	}
	o = MergeComments(o, n, o.Value, o.Value)
	r := Merge(o.Content[0], n.Content[0], []string{o.Value})
	o.Content = Upd(o.Content, 0, r.N)
	return Res{o, r.E}
}

// @ contract actions.mergeDocument
// @ prop C02 C06 C24
// @ nilempty n
func mergeDocumentPost(o, n Node, o1 Node, err error) bool {
	return Eq(o1, MergeDocument(o, n).N) && Iff(err != nil, MergeDocument(o, n).E)
}

// @ decreases actions.mergeDocument
func mergeDocumentDec(o, n Node) int { return 2 * Height(n) }

// AsMapping is o turned into a mapping, if it is none.
func AsMapping(o Node) Node {
	if o.Kind != Mapping {
		o.Kind = Mapping
		o.Tag = "!!map"
		o.Value = ""
		o.Content = []Node{}
	}
	return o
}

// MergeMap merges the entries of mapping n into o.
func MergeMap(o, n Node) Res { return mapFrom(o, n, 0) }

// mapFrom merges the entries of n from index i on.
func mapFrom(o, n Node, i int) Res {
	if i < 0 || i >= len(n.Content)-1 {
		return Res{o, false}
	}
	return mapCont(entryFrom(AsMapping(o), n, i, 0, false), n, i)
}

func mapCont(r Res, n Node, i int) Res {
	if r.E {
		return r
	}
	return mapFrom(r.N, n, i+2)
}

// entryFrom merges the entry of n at i into the entries of o from j on.
func entryFrom(o, n Node, i, j int, found bool) Res {
	if i < 0 || i >= len(n.Content)-1 {
		return Res{o, false}
	}
	if j < 0 || j >= len(o.Content)-1 {
		if !found {
			o = Add(o, n.Content[i:i+2])
		}
		return Res{o, false}
	}
	marker := HasMarkers(n.Content[i].Value)
	if !marker && o.Content[j].Value != n.Content[i].Value {
		return entryFrom(o, n, i, j+2, found)
	}
	key := o.Content[j].Value
	value := o.Content[j+1].Value
	if !marker {
		o.Content = Upd(o.Content, j, MergeComments(o.Content[j], n.Content[i], value, key))
	}
	r := Merge(o.Content[j+1], n.Content[i+1], []string{key})
	o.Content = Upd(o.Content, j+1, r.N)
	if r.E {
		return Res{o, true}
	}
	if !marker {
		return Res{o, false}
	}
	o.Content = Upd(o.Content, j, MergeScalar(o.Content[j], n.Content[i], value, key))
	return entryFrom(o, n, i, j+2, true)
}

// @ contract actions.mergeMap
// @ prop C01 C02 C06 C07 C08 C24
// @ nilempty n
func mergeMapPost(o, n Node, o1 Node, err error) bool {
	return Eq(o1, MergeMap(o, n).N) && Iff(err != nil, MergeMap(o, n).E)
}

// @ decreases actions.mergeMap
func mergeMapDec(o, n Node) int { return 2 * Height(n) }

// @ hint actions.mergeMap
func mergeMapOuter(o0, o, n Node, i int) bool { return Eq(mapFrom(o0, n, 0), mapFrom(o, n, i)) }

// @ hint actions.mergeMap
func mergeMapInner(o0, o, n Node, i, j int, found bool) bool {
	return Eq(mapFrom(o0, n, 0), mapCont(entryFrom(o, n, i, j, found), n, i))
}

// @ hint actions.mergeMap
func mergeMapIsMap(o Node) bool { return o.Kind == Mapping }

// MergeNodes merges nodes[i:] into o.
func mergeAllFrom(nodes []Node, i int) Res {
	if i < 1 || i >= len(nodes) {
		return Res{nodes[0], false}
	}
	r := Merge(nodes[0], nodes[i], []string{})
	if r.E {
		return r
	}
	return mergeAllFrom(Upd(nodes, 0, r.N), i+1)
}

// @ contract actions.MergeNode
// @ prop C01 C02 C06 C08 C24
// @ nilempty nodes
func mergeNodePost(nodes []Node, nodes1 []Node, err error) bool {
	return Implies(len(nodes) > 0, Eq(nodes1, Upd(nodes, 0, mergeAllFrom(nodes, 1).N)) && Iff(err != nil, mergeAllFrom(nodes, 1).E)) &&
		Implies(len(nodes) == 0, Eq(nodes1, nodes) && err == nil)
}

// @ hint actions.MergeNode
func mergeNodeHint(nodes0, nodes []Node, i int) bool {
	return Eq(mergeAllFrom(nodes0, 1), mergeAllFrom(nodes, i+1))
}

// @ hint actions.MergeNode
func mergeNodeHintAt(nodes0, nodes []Node, i int) bool {
	return Eq(mergeAllFrom(nodes0, 1), mergeAllFrom(nodes, i))
}

// @ hint actions.MergeNode
func mergeNodeFrame(nodes0, nodes []Node) bool { return Eq(nodes, Upd(nodes0, 0, nodes[0])) }

// ---- replace ----

// Replace is o replaced by a copy of n.
func Replace(o, n Node) Node {
	r := Copy(n)
	r.ID = o.ID
	c := MergeComments(o, r, o.Value, "")
	r.HeadComment = c.HeadComment
	r.LineComment = c.LineComment
	r.FootComment = c.FootComment
	return r
}

// @ contract actions.ReplaceNode
// @ prop C03 C06 C07 C08 C24
func replaceNodePost(o, n Node, o1 Node, err error) bool {
	return Eq(o1, Replace(o, n)) && err == nil
}

// ---- combine ----

const maxInt = 1<<63 - 1
const minInt = -1 << 63

// Combine combines scalar n into scalar o.
func Combine(o, n Node) Res {
	if o.Kind != Scalar || n.Kind != Scalar {
		return Res{o, true}
	}
	o = MergeComments(o, n, o.Value, "")
	if o.Tag == "!!int" {
		if !IsInt(o.Value) || !IsInt(n.Value) {
			return Res{o, true}
		}
		a := IntOf(o.Value)
		b := IntOf(n.Value)
		if (b > 0 && a > maxInt-b) || (b < 0 && a < minInt-b) {
			return Res{o, true}
		}
		o.Value = strconv.Itoa(a + b)
		return Res{o, false}
	}
	if o.Tag == "!!bool" {
		if !IsBool(o.Value) || !IsBool(n.Value) {
			return Res{o, true}
		}
		o.Value = strconv.FormatBool(BoolOf(o.Value) && BoolOf(n.Value))
		return Res{o, false}
	}
	o.Value = o.Value + n.Value
	return Res{o, false}
}

// @ contract actions.CombineNode
// @ prop C05 C06 C07 C08 C24
func combineNodePost(o, n Node, o1 Node, err error) bool {
	return Eq(o1, Combine(o, n).N) && Iff(err != nil, Combine(o, n).E)
}

// ---- delete ----

// Delete removes the node with identity id below n.
func Delete(n Node, id Ref) Node {
	if len(n.Content) == 0 {
		return n
	}
	return deleteFrom(n, id, 0)
}

func deleteFrom(n Node, id Ref, i int) Node {
	if i < 0 || i >= len(n.Content) {
		return n
	}
	if n.Content[i].ID == int(id) {
		return Without(n, i)
	}
	n.Content = Upd(n.Content, i, Delete(n.Content[i], id))
	return deleteFrom(n, id, i+1)
}

// Without is n without its i-th child; in a mapping its key or value goes
// as well.
func Without(n Node, i int) Node {
	if n.Kind == Sequence || n.Kind == Document {
		n.Content = append(n.Content[:i], n.Content[i+1:]...)
		return n
	}
	if i%2 == 0 {
		n.Content = append(n.Content[:i], n.Content[i+2:]...)
		return n
	}
	n.Content = append(n.Content[:i-1], n.Content[i+1:]...)
	return n
}

// WellFormed: every key has a value.
func WellFormed(n Node) bool {
	return (n.Kind == Sequence || n.Kind == Document || len(n.Content)%2 == 0) &&
		Forall(0, len(n.Content), func(i int) bool { return WellFormed(n.Content[i]) })
}

// @ pre actions.DeleteNode
func deleteNodePre(pn Node, child Ref) bool { return WellFormed(pn) }

// @ contract actions.DeleteNode
// @ prop C04 C24
func deleteNodePost(pn Node, child Ref, pn1 Node) bool { return Eq(pn1, Delete(pn, child)) }

// @ decreases actions.DeleteNode
func deleteNodeDec(pn Node, child Ref) int { return Height(pn) }

// @ hint actions.DeleteNode
func deleteNodeHint(pn0, pn Node, child Ref, i int) bool {
	return Eq(deleteFrom(pn0, child, 0), deleteFrom(pn, child, i))
}

// @ hint actions.DeleteNode
func deleteNodeSame(pn0, pn Node, i int) bool {
	return pn.Kind == pn0.Kind && SameFrom(pn0.Content, pn.Content, i)
}

// ---- output style and comment removal ----

// Styled is n with style s at every depth.
func Styled(s int, n Node) Node {
	if n.Kind == Document || n.Kind == Mapping || n.Kind == Sequence || n.Kind == Alias {
		n.Style = s % 4294967296
		n.Content = styledFrom(s, n.Content, 0)
	}
	if n.Kind == Scalar {
		n.Style = s % 4294967296
	}
	return n
}

func styledFrom(s int, ns []Node, i int) []Node {
	if i < 0 || i >= len(ns) {
		return ns
	}
	return styledFrom(s, Upd(ns, i, Styled(s, ns[i])), i+1)
}

// @ contract actions.setStyle
// @ prop C19 C24
func setStylePost(s uint, n []Node, n1 []Node) bool { return Eq(n1, styledFrom(int(s), n, 0)) }

// @ decreases actions.setStyle
func setStyleDec(s uint, n []Node) int { return HeightAll(n) }

// @ hint actions.setStyle
func setStyleHint(s uint, n0, n []Node, i int) bool {
	return Eq(styledFrom(int(s), n0, 0), styledFrom(int(s), n, i)) && SameFrom(n0, n, i)
}

// @ contract actions.SetStyle
// @ prop C19 C24
func setStyleAllPost(ss []uint, n []Node, n1 []Node) bool {
	return Eq(n1, styledFrom(orAll(ss, 0, 0), n, 0))
}

// orAll combines the styles from index i on with acc.
func orAll(ss []uint, i, acc int) int {
	if i < 0 || i >= len(ss) {
		return acc
	}
	return orAll(ss, i+1, BitOr(acc, int(ss[i])))
}

// @ contract actions.Styles.GetStyle
// @ prop C19
func getStylePost(ss []uint, r uint) bool { return int(r) == orAll(ss, 0, 0) }

// @ hint actions.Styles.GetStyle
func getStyleHint(ss []uint, i int, acc uint) bool {
	return orAll(ss, 0, 0) == orAll(ss, i, int(acc))
}

// NoComments is n without comments at any depth.
func NoComments(n Node) Node {
	n.HeadComment = ""
	n.LineComment = ""
	n.FootComment = ""
	n.Content = noCommentsFrom(n.Content, 0)
	return n
}

func noCommentsFrom(ns []Node, i int) []Node {
	if i < 0 || i >= len(ns) {
		return ns
	}
	return noCommentsFrom(Upd(ns, i, NoComments(ns[i])), i+1)
}

// @ contract instructions.removeCommentsFromNode
// @ prop C18 C24
func removeCommentsPost(node Node, node1 Node) bool { return Eq(node1, NoComments(node)) }

// @ decreases instructions.removeCommentsFromNode
func removeCommentsDec(node Node) int { return Height(node) }

// @ hint instructions.removeCommentsFromNode
func removeCommentsHint(node0, node Node, i int) bool {
	return Eq(noCommentsFrom(node0.Content, 0), noCommentsFrom(node.Content, i)) && SameFrom(node0.Content, node.Content, i)
}
