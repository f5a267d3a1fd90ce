//go:build go1.21

package verifspec

import (
	"errors"
	"strings"
)

// World is everything outside the settings and lists of the tool: the
// documents, channels, files and the terminal. Its changes are only known
// through the functions below.
type World struct{ state int }

// Heap holds the objects of one struct type of the code. A struct type whose
// name ends in '_' is the code's struct of the name without it.
type Heap[T any] map[Ref]T

// Put is the heap with object r replaced.
func Put[T any](h Heap[T], r Ref, v T) Heap[T] {
	n := Heap[T]{}
	for k, x := range h {
		n[k] = x
	}
	n[r] = v
	return n
}

// New tells that an object was made.
func New(r Ref) bool { return r < 0 }

// Kept tells that the objects that existed before are as they were.
func Kept[T any](h, h1 Heap[T]) bool {
	for k, v := range h {
		if k >= 0 && !Eq(h1[k], v) {
			return false
		}
	}
	return true
}

func unspecified() { panic("not executable") }

// Out is a world and whether an error was returned.
type Out struct {
	W World
	E bool
}

// ---- structs of the code ----

type Query_ struct {
	yamlPath    Ref
	queryString string
}

type OnMissing_ struct {
	Action     int
	InjectPath []Query_ `nil:"kept"`
}

type Overlay_ struct {
	Name          string
	Query         []Query_ `nil:"kept"`
	Value         Node     `nil:"empty"`
	Action        int
	DocumentQuery []Ref
	OnMissing     OnMissing_
	DocumentIndex []int `nil:"kept"`
}

type DocumentQuery_ struct{ Conditions []Ref }

type Condition_ struct {
	Query []Query_
	Value Node
}

type workload_ struct {
	Overlay   Ref
	Node      Ref
	NodeIndex int
	Path      string
}

type YamlFile_ struct {
	Name       string
	Overlays   []Ref
	Documents  []Ref
	Nodes      []Ref
	Path       string
	OutputPath string
}

type Document_ struct {
	Name     string
	Path     int
	Overlays []Ref
}

// ---- documents ----

// NodeAt is the node object n.
//
// @ read Node
func NodeAt(w World, n Ref) Node { unspecified(); return Node{} }

// KindAt is the kind of node n.
//
// @ read Node.Kind
func KindAt(w World, n Ref) int { unspecified(); return 0 }

// Kids are the children of node n.
//
// @ read Node.Content
func Kids(w World, n Ref) []Ref { unspecified(); return nil }

// PathFind are the matches of a parsed path below node n, in order.
//
// @ result (*github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath.Path).Find 0
func PathFind(w World, p, n Ref) []Ref { unspecified(); return nil }

// PathFindErr is its error.
//
// @ result (*github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath.Path).Find 1
func PathFindErr(w World, p, n Ref) error { unspecified(); return nil }

// ---- actions on documents (their contracts are in actions.go) ----

// @ effect github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions.MergeNode
func Merged(w World, nodes []Ref) World { unspecified(); return w }

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions.MergeNode 0
func MergeErr(w World, nodes []Ref) error { unspecified(); return nil }

// @ effect github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions.ReplaceNode
func Replaced(w World, o, n Ref) World { unspecified(); return w }

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions.ReplaceNode 0
func ReplaceErr(w World, o, n Ref) error { unspecified(); return nil }

// @ effect github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions.CombineNode
func Combined(w World, o, n Ref) World { unspecified(); return w }

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions.CombineNode 0
func CombineErr(w World, o, n Ref) error { unspecified(); return nil }

// @ effect github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions.DeleteNode
func Deleted(w World, root, n Ref) World { unspecified(); return w }

// ValueOf is the value node of overlay o.
//
// @ op addr_Overlay_Value
func ValueOf(o Ref) Ref { unspecified(); return 0 }

// The actions of an overlay.
const (
	ActMerge   = 1
	ActReplace = 2
	ActDelete  = 3
	ActCombine = 4
)

// Act performs the action of overlay o on match n.
//
// @ prop C23
func Act(w World, action int, o, root, n Ref) Out {
	if action == ActDelete {
		return Out{Deleted(w, root, n), false}
	}
	if action == ActReplace {
		return Out{Replaced(w, n, ValueOf(o)), ReplaceErr(w, n, ValueOf(o)) != nil}
	}
	if action == ActCombine {
		return Out{Combined(w, n, ValueOf(o)), CombineErr(w, n, ValueOf(o)) != nil}
	}
	return Out{Merged(w, []Ref{n, ValueOf(o)}), MergeErr(w, []Ref{n, ValueOf(o)}) != nil}
}

// ActAll performs it on each match from i on, up to the first failure.
func ActAll(w World, action int, o, root Ref, nodes []Ref, i int) Out {
	if i < 0 || i >= len(nodes) {
		return Out{w, false}
	}
	return andThenAct(Act(w, action, o, root, nodes[i]), action, o, root, nodes, i)
}

func andThenAct(r Out, action int, o, root Ref, nodes []Ref, i int) Out {
	if r.E {
		return r
	}
	return ActAll(r.W, action, o, root, nodes, i+1)
}

// @ contract overlays.Overlay.doAction
// @ world
// @ prop C23 C17
func doActionPost(w World, h Heap[Overlay_], o, root Ref, nodes []Ref, err error, w1 World) bool {
	return Eq(w1, ActAll(w, h[o].Action, o, root, nodes, 0).W) && Iff(err != nil, ActAll(w, h[o].Action, o, root, nodes, 0).E)
}

// @ hint overlays.Overlay.doAction
func doActionHint(w0, w World, h Heap[Overlay_], o, root Ref, nodes []Ref, i int) bool {
	return Eq(ActAll(w0, h[o].Action, o, root, nodes, 0), ActAll(w, h[o].Action, o, root, nodes, i))
}

// ---- finding matches ----

// emptyDoc tells that a node is a document without content.
func emptyDoc(w World, n Ref) bool { return KindAt(w, n) == Document && len(Kids(w, n)) == 0 }

// FindAll are the matches of the paths, in order; a document without content
// has none.
func FindAll(w World, qs []Query_, n Ref) []Ref {
	if emptyDoc(w, n) {
		return []Ref{}
	}
	return findFrom(w, qs, n, 0)
}

// findFrom are the matches of the paths from i on.
func findFrom(w World, qs []Query_, n Ref, i int) []Ref {
	if i < 0 || i >= len(qs) {
		return []Ref{}
	}
	return append(append([]Ref{}, PathFind(w, qs[i].yamlPath, n)...), findFrom(w, qs, n, i+1)...)
}

// @ contract overlays.Queries.Find
// @ world
// @ prop C23
func QueriesFindPost(w World, qs []Query_, n Ref, r []Ref, rNil bool) bool {
	return Eq(r, FindAll(w, qs, n)) && Iff(rNil, len(FindAll(w, qs, n)) == 0)
}

// @ hint overlays.Queries.Find
func QueriesFindHint(w World, qs []Query_, n Ref, r []Ref, i int) bool {
	if emptyDoc(w, n) {
		return len(r) == 0
	}
	return Eq(findFrom(w, qs, n, 0), append(append([]Ref{}, r...), findFrom(w, qs, n, i)...))
}

// ---- document indexes ----

func hasInt(s []int, x, i int) bool {
	if i < 0 || i >= len(s) {
		return false
	}
	return s[i] == x || hasInt(s, x, i+1)
}

// IndexListed tells whether overlay o selects the document with the index.
func IndexListed(o Overlay_, current int) bool {
	return o.DocumentIndex == nil || hasInt(o.DocumentIndex, current, 0)
}

// @ contract overlays.Overlay.CheckDocumentIndex
// @ world
// @ prop C11
func CheckDocumentIndexPost(h Heap[Overlay_], o Ref, current int, r bool) bool {
	return r == IndexListed(h[o], current)
}

// @ hint overlays.Overlay.CheckDocumentIndex
func CheckDocumentIndexHint(h Heap[Overlay_], o Ref, current int, i int) bool {
	return Iff(hasInt(h[o].DocumentIndex, current, 0), hasInt(h[o].DocumentIndex, current, i))
}

// @ contract instructions.Document.checkDocumentIndex
// @ world
// @ prop C11
func documentIndexPost(h Heap[Document_], d Ref, current int, r bool) bool {
	return r == (h[d].Path == current)
}

// ---- document queries ----

// IsZeroAt tells whether a node is the zero node.
//
// @ result (*gopkg.in/yaml.v3.Node).IsZero 0
func IsZeroAt(w World, n Ref) bool { unspecified(); return false }

// CmpEqual is cmp.Equal.
//
// @ result github.com/google/go-cmp/cmp.Equal 0
func CmpEqual(w World, a, b any, opts []any) bool { unspecified(); return false }

// IgnoreFields is cmpopts.IgnoreFields with the names in order.
//
// @ op lib_ignorefields
func IgnoreFields(t any, names string) any { unspecified(); return nil }

// ConditionValue is the value node of condition c.
//
// @ op addr_Condition_Value
func ConditionValue(c Ref) Ref { unspecified(); return 0 }

// sameValue tells whether a node equals the value of a condition, whatever its
// comments, style and position.
func sameValue(w World, n Ref, c Condition_) bool {
	return CmpEqual(w, NodeAt(w, n), c.Value, []any{IgnoreFields(Node{}, "Column FootComment HeadComment Line LineComment Style")})
}

func allSame(w World, ns []Ref, c Condition_, i int) bool {
	if i < 0 || i >= len(ns) {
		return true
	}
	return sameValue(w, ns[i], c) && allSame(w, ns, c, i+1)
}

// Holds tells whether a condition holds for document n.
func Holds(w World, h Heap[Condition_], c, n Ref) bool {
	if len(FindAll(w, h[c].Query, n)) == 0 {
		return false
	}
	return IsZeroAt(w, ConditionValue(c)) || allSame(w, FindAll(w, h[c].Query, n), h[c], 0)
}

func allHold(w World, h Heap[Condition_], cs []Ref, n Ref, i int) bool {
	if i < 0 || i >= len(cs) {
		return true
	}
	return Holds(w, h, cs[i], n) && allHold(w, h, cs, n, i+1)
}

// @ contract overlays.DocumentQuery.checkQuery
// @ world
// @ prop C10
func checkQueryPost(w World, hd Heap[DocumentQuery_], h Heap[Condition_], dq, n Ref, r bool) bool {
	return r == allHold(w, h, hd[dq].Conditions, n, 0)
}

// @ hint overlays.DocumentQuery.checkQuery
func checkQueryHint(w World, hd Heap[DocumentQuery_], h Heap[Condition_], dq Ref, n Ref, i int) bool {
	return Iff(allHold(w, h, hd[dq].Conditions, n, 0), allHold(w, h, hd[dq].Conditions, n, i))
}

// @ hint overlays.DocumentQuery.checkQuery
func checkQueryHint2(w World, hd Heap[DocumentQuery_], h Heap[Condition_], dq Ref, n Ref, i, j int) bool {
	return Iff(allSame(w, FindAll(w, h[hd[dq].Conditions[i]].Query, n), h[hd[dq].Conditions[i]], 0), allSame(w, FindAll(w, h[hd[dq].Conditions[i]].Query, n), h[hd[dq].Conditions[i]], j))
}

// AnyGroup tells whether a document query group from i on holds.
func AnyGroup(w World, hd Heap[DocumentQuery_], h Heap[Condition_], dqs []Ref, n Ref, i int) bool {
	if i < 0 || i >= len(dqs) {
		return false
	}
	return allHold(w, h, hd[dqs[i]].Conditions, n, 0) || AnyGroup(w, hd, h, dqs, n, i+1)
}

// Applies tells whether the document queries select document n.
func Applies(w World, hd Heap[DocumentQuery_], h Heap[Condition_], dqs []Ref, n Ref) bool {
	return len(dqs) == 0 || AnyGroup(w, hd, h, dqs, n, 0)
}

// @ contract overlays.DocumentQueries.checkQueries
// @ world
// @ prop C10
func checkQueriesPost(w World, hd Heap[DocumentQuery_], h Heap[Condition_], dqs []Ref, dqsNil bool, n Ref, r bool) bool {
	return r == Applies(w, hd, h, dqs, n)
}

// @ hint overlays.DocumentQueries.checkQueries
func checkQueriesHint(w World, hd Heap[DocumentQuery_], h Heap[Condition_], dqs []Ref, n Ref, i int) bool {
	return Iff(AnyGroup(w, hd, h, dqs, n, 0), AnyGroup(w, hd, h, dqs, n, i))
}

// ---- missing matches ----

// Setting is a configured value.
//
// @ setting
// @ result github.com/spf13/viper.GetString 0
func Setting(w World, key string) string { unspecified(); return "" }

// Texts are the texts of the paths from i on.
func Texts(qs []Query_, i int) []string {
	if i < 0 || i >= len(qs) {
		return []string{}
	}
	return append([]string{qs[i].queryString}, Texts(qs, i+1)...)
}

// @ contract overlays.Queries.Paths
// @ world
// @ prop C13
func QueriesPathsPost(qs []Query_, r []string, rNil bool) bool {
	return Eq(r, Texts(qs, 0)) && !rNil
}

// @ hint overlays.Queries.Paths
func QueriesPathsMoreHint(qs []Query_, s []string, i int) bool {
	return Eq(Texts(qs, 0), append(append([]string{}, s...), Texts(qs, i)...))
}

// @ hint overlays.Queries.Paths
func QueriesPathsHint(qs []Query_, s []string, i int) bool {
	return len(s) == len(qs) && Eq(Texts(qs, 0), append(append([]string{}, s[:i]...), Texts(qs, i)...))
}

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/builder.NewPaths 0
func ParsedPaths(paths []string) Ref { unspecified(); return 0 }

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/builder.NewPaths 1
func ParseErr(paths []string) error { unspecified(); return nil }

// @ result (*github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/builder.Paths).BuildPaths 0
func Scaffold(w World, p Ref) Ref { unspecified(); return 0 }

// @ result (*github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/builder.Paths).BuildPaths 1
func ScaffoldErr(w World, p Ref) error { unspecified(); return nil }

// @ effect (*github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/builder.Paths).BuildPaths
func Scaffolded(w World, p Ref) World { unspecified(); return w }

// ErrInvalidPathSyntax is the error of a query that is not fully qualified.
var ErrInvalidPathSyntax = errors.New("invalid path syntax")

// fillAll puts the value of overlay o at each match from i on.
func fillAll(w World, o Ref, ns []Ref, i int) Out {
	if i < 0 || i >= len(ns) {
		return Out{w, false}
	}
	if ReplaceErr(w, ns[i], ValueOf(o)) != nil {
		return Out{Replaced(w, ns[i], ValueOf(o)), true}
	}
	return fillAll(Replaced(w, ns[i], ValueOf(o)), o, ns, i+1)
}

// InjectAt creates the paths in document n and puts the value of o there.
func InjectAt(w World, qs []Query_, o, n Ref) Out {
	p := ParsedPaths(Texts(qs, 0))
	if ParseErr(Texts(qs, 0)) != nil {
		return Out{w, true}
	}
	w1 := Scaffolded(w, p)
	if ScaffoldErr(w, p) != nil {
		return Out{w1, true}
	}
	w2 := Merged(w1, []Ref{n, Scaffold(w, p)})
	if MergeErr(w1, []Ref{n, Scaffold(w, p)}) != nil {
		return Out{w2, true}
	}
	return fillAll(w2, o, FindAll(w2, qs, n), 0)
}

// @ contract overlays.Overlay.doInjectPath
// @ world
// @ prop C13 C17
func doInjectPathPost(w World, o Ref, qs []Query_, qsNil bool, n Ref, err error, w1 World) bool {
	return Eq(w1, InjectAt(w, qs, o, n).W) && Iff(err != nil, InjectAt(w, qs, o, n).E)
}

// prepared is the document n with the paths created.
func prepared(w World, qs []Query_, n Ref) World {
	p := ParsedPaths(Texts(qs, 0))
	return Merged(Scaffolded(w, p), []Ref{n, Scaffold(w, p)})
}

// @ hint overlays.Overlay.doInjectPath
func doInjectPathHint(w0, w World, o Ref, qs []Query_, n Ref, i int) bool {
	return Eq(fillAll(prepared(w0, qs, n), o, FindAll(prepared(w0, qs, n), qs, n), 0), fillAll(w, o, FindAll(prepared(w0, qs, n), qs, n), i))
}

// Inject injects for an overlay without a match.
func Inject(w World, h Heap[Overlay_], o, n Ref) Out {
	if ParseErr(Texts(h[o].Query, 0)) == nil {
		return InjectAt(w, h[o].Query, o, n)
	}
	if !errors.Is(ParseErr(Texts(h[o].Query, 0)), ErrInvalidPathSyntax) {
		return Out{w, true}
	}
	if h[o].OnMissing.InjectPath == nil {
		return Out{w, false}
	}
	return InjectAt(w, h[o].OnMissing.InjectPath, o, n)
}

// @ contract overlays.Overlay.handleInjectPath
// @ world
// @ prop C13 C17
func handleInjectPathPost(w World, h Heap[Overlay_], o, n Ref, err error, w1 World) bool {
	return Eq(w1, Inject(w, h, o, n).W) && Iff(err != nil, Inject(w, h, o, n).E)
}

// The missing-match actions.
const (
	MissDefault = 0
	MissIgnore  = 1
	MissInject  = 2
)

// Injects tells whether overlay o injects when nothing matches.
func Injects(w World, o Overlay_) bool {
	if o.Action == ActDelete || o.Action == ActCombine {
		return false
	}
	return o.OnMissing.Action == MissInject ||
		o.OnMissing.Action == MissDefault && strings.EqualFold(Setting(w, "defaultOnMissingAction"), "inject")
}

// Missing is what overlay o does to document n when nothing matches.
func Missing(w World, h Heap[Overlay_], o, n Ref) Out {
	if Injects(w, h[o]) {
		return Inject(w, h, o, n)
	}
	return Out{w, false}
}

// @ contract overlays.Overlay.onMissing
// @ world
// @ prop C12 C17
func onMissingPost(w World, h Heap[Overlay_], o, n Ref, err error, w1 World) bool {
	return Eq(w1, Missing(w, h, o, n).W) && Iff(err != nil, Missing(w, h, o, n).E)
}

// Apply applies overlay o to document n.
func Apply(w World, h Heap[Overlay_], hd Heap[DocumentQuery_], hc Heap[Condition_], o, n Ref) Out {
	if !Applies(w, hd, hc, h[o].DocumentQuery, n) {
		return Out{w, false}
	}
	if len(FindAll(w, h[o].Query, n)) == 0 {
		return Missing(w, h, o, n)
	}
	return ActAll(w, h[o].Action, o, n, FindAll(w, h[o].Query, n), 0)
}

// @ contract overlays.Overlay.Apply
// @ world
// @ prop C10 C12 C17 C23
func ApplyPost(w World, h Heap[Overlay_], hd Heap[DocumentQuery_], hc Heap[Condition_], o, n Ref, err error, w1 World) bool {
	return Eq(w1, Apply(w, h, hd, hc, o, n).W) && Iff(err != nil, Apply(w, h, hd, hc, o, n).E)
}

// ---- work streams ----

type WorkStream_ struct{ stream Ref }

// Sent is the world after v was sent.
//
// @ send workload
func Sent(w World, ch Ref, v workload_) World { unspecified(); return w }

// @ close workload
func Closed(w World, ch Ref) World { unspecified(); return w }

// Received, RecvOk and RecvW: what a receive gives, whether the channel was
// still open, and the world afterwards.
//
// @ recvval workload
func Received(w World, ch Ref) workload_ { unspecified(); return workload_{} }

// @ recvok workload
func RecvOk(w World, ch Ref) bool { unspecified(); return false }

// @ recvw workload
func RecvW(w World, ch Ref) World { unspecified(); return w }

// @ contract overlays.WorkStream.AddWorkload
// @ world
// @ prop C09
func AddWorkloadPost(w World, h Heap[WorkStream_], s, o, n Ref, nodeIndex int, path string, w1 World) bool {
	return Eq(w1, Sent(w, h[s].stream, workload_{Overlay: o, Node: n, NodeIndex: nodeIndex, Path: path}))
}

// @ contract overlays.WorkStream.CloseStream
// @ world
// @ prop C09
func CloseStreamPost(w World, h Heap[WorkStream_], s Ref, w1 World) bool {
	return Eq(w1, Closed(w, h[s].stream))
}

// Handle applies the overlays of a stream, in order, up to the first failure.
func Handle(w World, h Heap[Overlay_], hd Heap[DocumentQuery_], hc Heap[Condition_], ch Ref) Out {
	if !RecvOk(w, ch) {
		return Out{RecvW(w, ch), false}
	}
	return andThenHandle(Apply(RecvW(w, ch), h, hd, hc, Received(w, ch).Overlay, Received(w, ch).Node), h, hd, hc, ch)
}

func andThenHandle(r Out, h Heap[Overlay_], hd Heap[DocumentQuery_], hc Heap[Condition_], ch Ref) Out {
	if r.E {
		return r
	}
	return Handle(r.W, h, hd, hc, ch)
}

// @ contract overlays.WorkStream.StartHandler
// @ world
// @ noterm
// @ prop C09 C17
func StartHandlerPost(w World, h Heap[Overlay_], hd Heap[DocumentQuery_], hc Heap[Condition_], hs Heap[WorkStream_], s Ref, err error, w1 World) bool {
	return Eq(w1, Handle(w, h, hd, hc, hs[s].stream).W) && Iff(err != nil, Handle(w, h, hd, hc, hs[s].stream).E)
}

// @ hint overlays.WorkStream.StartHandler
func StartHandlerHint(w0, w World, h Heap[Overlay_], hd Heap[DocumentQuery_], hc Heap[Condition_], hs Heap[WorkStream_], s Ref) bool {
	return Eq(Handle(w0, h, hd, hc, hs[s].stream), Handle(w, h, hd, hc, hs[s].stream))
}

// queueListed queues the overlays of a file for document n, from overlay i on.
func queueListed(w World, h Heap[Overlay_], ch Ref, os []Ref, i int, n Ref, index int, path string) World {
	if i < 0 || i >= len(os) {
		return w
	}
	if !IndexListed(h[os[i]], index) {
		return queueListed(w, h, ch, os, i+1, n, index, path)
	}
	return queueListed(Sent(w, ch, workload_{Overlay: os[i], Node: n, NodeIndex: index, Path: path}), h, ch, os, i+1, n, index, path)
}

// queueAll queues the overlays of a document entry.
func queueAll(w World, ch Ref, os []Ref, i int, n Ref, index int, path string) World {
	if i < 0 || i >= len(os) {
		return w
	}
	return queueAll(Sent(w, ch, workload_{Overlay: os[i], Node: n, NodeIndex: index, Path: path}), ch, os, i+1, n, index, path)
}

// queueEntries queues the document entries of a file for document n.
func queueEntries(w World, hd Heap[Document_], ch Ref, ds []Ref, i int, n Ref, index int, path string) World {
	if i < 0 || i >= len(ds) {
		return w
	}
	if hd[ds[i]].Path != index {
		return queueEntries(w, hd, ch, ds, i+1, n, index, path)
	}
	return queueEntries(queueAll(w, ch, hd[ds[i]].Overlays, 0, n, index, path), hd, ch, ds, i+1, n, index, path)
}

// queueDocs queues everything for the documents of a file from index on.
func queueDocs(w World, h Heap[Overlay_], hd Heap[Document_], ch Ref, yf YamlFile_, index int) World {
	if index < 0 || index >= len(yf.Nodes) {
		return w
	}
	return queueDocs(queueEntries(queueListed(w, h, ch, yf.Overlays, 0, yf.Nodes[index], index, yf.Path), hd, ch, yf.Documents, 0, yf.Nodes[index], index, yf.Path),
		h, hd, ch, yf, index+1)
}

// @ contract instructions.YamlFile.queueOverlays
// @ world
// @ prop C09 C11
func queueOverlaysPost(w World, h Heap[Overlay_], hd Heap[Document_], hy Heap[YamlFile_], hs Heap[WorkStream_], yf, s Ref, w1 World) bool {
	return Eq(w1, Closed(queueDocs(w, h, hd, hs[s].stream, hy[yf], 0), hs[s].stream))
}

// @ hint instructions.YamlFile.queueOverlays
func queueHintDocs(w0, w World, h Heap[Overlay_], hd Heap[Document_], hy Heap[YamlFile_], hs Heap[WorkStream_], yf, s Ref, k int) bool {
	return Eq(queueDocs(w0, h, hd, hs[s].stream, hy[yf], 0), queueDocs(w, h, hd, hs[s].stream, hy[yf], k))
}

// @ hint instructions.YamlFile.queueOverlays
func queueHintListed(w0, w World, h Heap[Overlay_], hd Heap[Document_], hy Heap[YamlFile_], hs Heap[WorkStream_], yf, s Ref, k, i int) bool {
	return Eq(queueDocs(w0, h, hd, hs[s].stream, hy[yf], 0),
		queueDocs(queueEntries(queueListed(w, h, hs[s].stream, hy[yf].Overlays, i, hy[yf].Nodes[k], k, hy[yf].Path), hd, hs[s].stream, hy[yf].Documents, 0, hy[yf].Nodes[k], k, hy[yf].Path),
			h, hd, hs[s].stream, hy[yf], k+1))
}

// @ hint instructions.YamlFile.queueOverlays
func queueHintEntries(w0, w World, h Heap[Overlay_], hd Heap[Document_], hy Heap[YamlFile_], hs Heap[WorkStream_], yf, s Ref, k, i int) bool {
	return Eq(queueDocs(w0, h, hd, hs[s].stream, hy[yf], 0),
		queueDocs(queueEntries(w, hd, hs[s].stream, hy[yf].Documents, i, hy[yf].Nodes[k], k, hy[yf].Path), h, hd, hs[s].stream, hy[yf], k+1))
}

// @ hint instructions.YamlFile.queueOverlays
func queueHintAll(w0, w World, h Heap[Overlay_], hd Heap[Document_], hy Heap[YamlFile_], hs Heap[WorkStream_], yf, s Ref, k, i, j int) bool {
	return Eq(queueDocs(w0, h, hd, hs[s].stream, hy[yf], 0),
		queueDocs(queueEntries(queueAll(w, hs[s].stream, hd[hy[yf].Documents[i]].Overlays, j, hy[yf].Nodes[k], k, hy[yf].Path), hd, hs[s].stream, hy[yf].Documents, i+1, hy[yf].Nodes[k], k, hy[yf].Path),
			h, hd, hs[s].stream, hy[yf], k+1))
}
