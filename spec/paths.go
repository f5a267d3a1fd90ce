//go:build go1.21

package verifspec

import (
	"errors"
	"strings"
)

// ---- the names in a path ----

// unescaped is s without the backslashes that escape; esc tells that one is
// before s.
func unescaped(s string, esc bool) string {
	if len(s) == 0 {
		return ""
	}
	r := Rune(s)
	if r != backslash || esc {
		return string(rune(r)) + unescaped(s[Width(s):], false)
	}
	return unescaped(s[Width(s):], true)
}

// @ contract builder.unescape
// @ world
// @ prop C13 C24
func unescapePost(raw string, r string) bool { return Eq(r, unescaped(raw, false)) }

// @ hint builder.unescape
func unescapeHint(raw, r string, p int, esc bool) bool {
	return 0 <= p && p <= len(raw) && Eq(r+unescaped(raw[p:], esc), unescaped(raw, false))
}

// @ hint builder.unescape
func unescapeRestHint(raw, r, rest string, esc bool) bool {
	return Eq(r+unescaped(rest, esc), unescaped(raw, false))
}

// quotes is whether quotes q are balanced in a text that ends in s, where those
// before s are when bal, and prev is the rune before s.
func quotes(s string, q int, bal bool, prev int) bool {
	if len(s) == 0 {
		return bal
	}
	r := Rune(s)
	return quotes(s[Width(s):], q, bal != (r == q && prev != backslash), r)
}

// @ contract builder.balanced
// @ world
// @ prop C13 C24
func balancedPost(c string, q int, r bool) bool { return r == quotes(c, q, true, -1) }

// @ hint builder.balanced
func balancedHint(c string, q int, p int, bal bool, prev rune) bool {
	return 0 <= p && p <= len(c) && quotes(c[p:], q, bal, int(prev)) == quotes(c, q, true, -1)
}

// @ hint builder.balanced
func balancedRestHint(c string, q int, rest string, bal bool, prev rune) bool {
	return quotes(rest, q, bal, int(prev)) == quotes(c, q, true, -1)
}

// whole tells that no quotes are open in s.
func whole(s string) bool {
	return quotes(s, singleQuote, true, -1) && quotes(s, doubleQuote, true, -1)
}

// grouped are the texts of the names in a list that was split at commas:
// parts that are inside the same quotes belong together. name is the text of
// an unfinished name, and out those before.
func grouped(parts []string, i int, name string, out []string) []string {
	if i < 0 || i >= len(parts) {
		if name != "" {
			return append(append([]string{}, out...), name)
		}
		return out
	}
	c := parts[i]
	if whole(c) && name == "" {
		return grouped(parts, i+1, "", append(append([]string{}, out...), c))
	}
	if whole(c) {
		return grouped(parts, i+1, name+","+c, out)
	}
	if name == "" {
		return grouped(parts, i+1, c, out)
	}
	return grouped(parts, i+1, "", append(append([]string{}, out...), name+","+c))
}

// nameOf is the name that a text in quotes stands for.
func nameOf(c string) string {
	c = strings.TrimSpace(c)
	q := "\""
	if strings.HasPrefix(c, "'") {
		q = "'"
	}
	return unescaped(strings.TrimSuffix(strings.TrimPrefix(c, q), q), false)
}

func namesOf(texts []string, i int) []string {
	if i < 0 || i >= len(texts) {
		return []string{}
	}
	return append([]string{nameOf(texts[i])}, namesOf(texts, i+1)...)
}

// listed are the names in a list.
func listed(s string) []string {
	return namesOf(grouped(strings.Split(s, ","), 0, "", []string{}), 0)
}

// @ contract builder.bracketChildNames
// @ world
// @ prop C13 C24
func bracketChildNamesPost(s string, r []string) bool { return Eq(r, listed(s)) }

// @ hint builder.bracketChildNames
func groupedHint(s string, i int, name string, out []string) bool {
	return Eq(grouped(strings.Split(s, ","), i, name, out), grouped(strings.Split(s, ","), 0, "", []string{}))
}

// @ hint builder.bracketChildNames
func namesHint(s string, i int, texts, out []string) bool {
	return Eq(append(append([]string{}, out...), namesOf(texts, i)...), listed(s))
}

// ---- paths ----

type Path_ struct {
	Path string
	f    Ref
}

// The reasons to refuse a path: it is not fully qualified, or a name is a
// wildcard.
const (
	accepted = iota
	notQualified
	wildcard
)

// refusal is why a path that consists of some lexemes is refused.
func refusal(ts []lexeme_) int {
	if len(ts) == 0 {
		return accepted
	}
	t := ts[0]
	if t.typ == lexIdentity || t.typ == lexEnd {
		return accepted
	}
	if t.typ == lexRootMark || t.typ == lexBracket {
		return refusal(ts[1:])
	}
	if t.typ == lexDotChild {
		if strings.TrimPrefix(t.val, ".") == "*" {
			return notQualified
		}
		if unescaped(strings.TrimPrefix(t.val, "."), false) == "*" {
			return wildcard
		}
		return refusal(ts[1:])
	}
	if t.typ == lexUndotted {
		return refusalAfter(t.val, ts[1:])
	}
	return notQualified
}

// refusalAfter is why a path is refused that goes on after a name.
func refusalAfter(name string, ts []lexeme_) int {
	if name == "*" {
		return wildcard
	}
	return refusal(ts)
}

// refusedFor tells whether an error is one for a reason.
func refusedFor(err error, why int) bool {
	return Iff(err == nil, why == accepted) && Iff(errors.Is(err, ErrInvalidPathSyntax), why == notQualified)
}

// ---- what a path builds ----

// Step is a part of a path: the document, or entries for some names.
type Step struct {
	Root  bool
	Names []string
}

// child is the step for one name.
func child(name string) Step { return Step{false, []string{name}} }

// steps are the steps of a path that consists of some lexemes.
func steps(ts []lexeme_) []Step {
	if len(ts) == 0 {
		return []Step{}
	}
	t := ts[0]
	if t.typ == lexRootMark {
		return append([]Step{{true, []string{}}}, steps(ts[1:])...)
	}
	if t.typ == lexDotChild {
		return append([]Step{child(unescaped(unescaped(strings.TrimPrefix(t.val, "."), false), false))}, steps(ts[1:])...)
	}
	if t.typ == lexUndotted {
		return append([]Step{child(unescaped(t.val, false))}, steps(ts[1:])...)
	}
	if t.typ == lexBracket {
		return append([]Step{{false, listed(inBrackets(t.val))}}, steps(ts[1:])...)
	}
	return []Step{}
}

// inBrackets is the text between brackets.
func inBrackets(s string) string {
	return strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(s), "["), "]"))
}

// builds tells that each call of a function value gives a new tree that stands
// for some steps.
//
// @ builds builder.buildFn
func builds(f Ref, e []Step) bool { unspecified(); return false }

// bare is a new node that has a kind, a text and children only.
func bare(kind int, text string, content []Node) Node {
	return Node{Kind: kind, Value: text, Content: content}
}

// tree is the tree that consists of the nodes of some steps: the last step has
// an empty scalar below each name.
func tree(e []Step) Node {
	if len(e) == 0 {
		return bare(Scalar, "", []Node{})
	}
	if e[0].Root {
		return bare(Document, "", []Node{tree(e[1:])})
	}
	return bare(Mapping, "", entries(e[0].Names, len(e[0].Names), e[1:]))
}

// entries are the entries of the first k names, each with the tree of some
// steps.
func entries(names []string, k int, e []Step) []Node {
	if k <= 0 {
		return []Node{}
	}
	if k == 1 {
		return []Node{bare(Scalar, names[0], []Node{}), tree(e)}
	}
	return append(append([]Node{}, entries(names, k-1, e)...), bare(Scalar, names[k-1], []Node{}), tree(e))
}

// @ stands builder.buildFn
func stands(n Node, e []Step) bool { return Eq(n, tree(e)) }

// @ plan builder.newPath
func newPathPlan(h Heap[lexer_], l Ref) []Step { return steps(all(h[l])) }

// @ plan builder.childThen
func childThenPlan(h Heap[lexer_], l Ref, name string) []Step {
	return append([]Step{child(unescaped(name, false))}, steps(all(h[l]))...)
}

// @ plan builder.bracketChildThen
func bracketChildThenPlan(h Heap[lexer_], l Ref, names string) []Step {
	return append([]Step{{false, listed(names)}}, steps(all(h[l]))...)
}

// @ hint builder.bracketChildThen
func builtHint(h0 Heap[lexer_], l Ref, names string, n Node, i int) bool {
	return Eq(n, bare(Mapping, "", entries(listed(names), i, steps(all(h0[l])))))
}

// @ hint builder.bracketChildThen
func builtContentHint(h0 Heap[lexer_], l Ref, names string, content []Node, i int) bool {
	return Eq(content, entries(listed(names), i, steps(all(h0[l]))))
}

// @ pre builder.newPath
func newPathPre(h Heap[lexer_], l Ref) bool { return l != 0 && legal(h[l]) }

// @ decreases builder.newPath
func newPathDecreases(h Heap[lexer_], l Ref) int { return 2 * len(all(h[l])) }

// @ contract builder.newPath
// @ world
// @ prop C13 C24
func newPathPost(h Heap[lexer_], hp Heap[Path_], l Ref, r Ref, err error, h1 Heap[lexer_], hp1 Heap[Path_]) bool {
	return refusedFor(err, refusal(all(h[l]))) && Implies(err == nil, New(r) && builds(hp1[r].f, newPathPlan(h, l))) && Kept(hp, hp1) && legal(h1[l]) && Eq(h1, Put(h, l, h1[l]))
}

// @ pre builder.childThen
func childThenPre(h Heap[lexer_], l Ref, name string) bool { return l != 0 && legal(h[l]) }

// @ decreases builder.childThen
func childThenDecreases(h Heap[lexer_], l Ref, name string) int { return 2*len(all(h[l])) + 1 }

// @ contract builder.childThen
// @ world
// @ prop C13 C24
func childThenPost(h Heap[lexer_], hp Heap[Path_], l Ref, name string, r Ref, err error, h1 Heap[lexer_], hp1 Heap[Path_]) bool {
	return refusedFor(err, refusalAfter(name, all(h[l]))) && Implies(err == nil, New(r) && builds(hp1[r].f, childThenPlan(h, l, name))) && Kept(hp, hp1) && legal(h1[l]) && Eq(h1, Put(h, l, h1[l]))
}

// @ pre builder.bracketChildThen
func bracketChildThenPre(h Heap[lexer_], l Ref, names string) bool { return l != 0 && legal(h[l]) }

// @ decreases builder.bracketChildThen
func bracketChildThenDecreases(h Heap[lexer_], l Ref, names string) int {
	return 2*len(all(h[l])) + 1
}

// @ contract builder.bracketChildThen
// @ world
// @ prop C13 C24
func bracketChildThenPost(h Heap[lexer_], hp Heap[Path_], l Ref, names string, r Ref, err error, h1 Heap[lexer_], hp1 Heap[Path_]) bool {
	return refusedFor(err, refusal(all(h[l]))) && Implies(err == nil, New(r) && builds(hp1[r].f, bracketChildThenPlan(h, l, names))) && Kept(hp, hp1) && legal(h1[l]) && Eq(h1, Put(h, l, h1[l]))
}

// pathRefusal is why a path is refused.
func pathRefusal(path string) int { return refusal(all(newLexer("Path lexer", path))) }

// @ contract builder.NewPath
// @ world
// @ prop C13 C24
func NewPathPost(hp Heap[Path_], path string, r Ref, err error, hp1 Heap[Path_]) bool {
	return refusedFor(err, pathRefusal(path)) && Implies(err == nil, New(r) && hp1[r].Path == path && builds(hp1[r].f, plan(path))) && Kept(hp, hp1)
}

// pathsRefusal is why the first path from i on that is refused is.
func pathsRefusal(paths []string, i int) int {
	if i < 0 || i >= len(paths) {
		return accepted
	}
	if pathRefusal(paths[i]) != accepted {
		return pathRefusal(paths[i])
	}
	return pathsRefusal(paths, i+1)
}

// built tells that paths build what their texts stand for.
func built(hp Heap[Path_], ps []Ref, n int) bool {
	return Forall(0, n, func(i int) bool { return builds(hp[ps[i]].f, plan(hp[ps[i]].Path)) })
}

// @ contract builder.NewPaths
// @ world
// @ prop C13 C24
func NewPathsPost(hp Heap[Path_], paths []string, r []Ref, err error, hp1 Heap[Path_]) bool {
	return refusedFor(err, pathsRefusal(paths, 0)) && Implies(err == nil, len(r) == len(paths) && built(hp1, r, len(r)) && Forall(0, len(r), func(i int) bool { return hp1[r[i]].Path == paths[i] })) && Kept(hp, hp1)
}

// @ hint builder.NewPaths
func pathsRefusalHint(paths []string, l []Ref, i int) bool {
	return len(l) == len(paths) && i <= len(paths)
}

// @ hint builder.NewPaths
func pathsCountHint(paths []string, l []Ref, i int) bool {
	return len(l) == i && i <= len(paths)
}

// @ hint builder.NewPaths
func pathsRefusalHint2(paths []string, i int) bool {
	return Eq(pathsRefusal(paths, 0), pathsRefusal(paths, i))
}

// @ hint builder.NewPaths
func pathsMadeHint(l []Ref, i int, low Ref) bool {
	return Forall(0, i, func(j int) bool { return l[j] >= low })
}

// @ hint builder.NewPaths
func pathsBuiltHint(hp Heap[Path_], l []Ref, i int) bool { return built(hp, l, i) }

// @ hint builder.NewPaths
func pathsTextHint(hp Heap[Path_], paths []string, l []Ref, i int) bool {
	return Forall(0, i, func(j int) bool { return hp[l[j]].Path == paths[j] })
}

// plan are the steps that the text of a path stands for.
func plan(path string) []Step { return steps(all(newLexer("Path lexer", path))) }

// @ contract builder.Path.BuildPath
// @ prop C13 C24
func BuildPathPost(hp Heap[Path_], p Ref, r Node, err error) bool {
	return err == nil && Eq(r, tree(plan(hp[p].Path)))
}

// @ pre builder.Path.BuildPath
func BuildPathPre(hp Heap[Path_], p Ref) bool { return builds(hp[p].f, plan(hp[p].Path)) }

// trees are the trees of the first k paths.
func trees(hp Heap[Path_], ps []Ref, k int) []Node {
	if k <= 0 {
		return []Node{}
	}
	return append(append([]Node{}, trees(hp, ps, k-1)...), tree(plan(hp[ps[k-1]].Path)))
}

// @ pre builder.Paths.BuildPaths
func BuildPathsPre(hp Heap[Path_], ps []Ref) bool { return built(hp, ps, len(ps)) }

// What the paths stand for is merged into the first.
//
// @ contract builder.Paths.BuildPaths
// @ prop C13 C24
func BuildPathsPost(hp Heap[Path_], ps []Ref, r Node, err error) bool {
	return Iff(err != nil, len(ps) == 0 || mergeAllFrom(trees(hp, ps, len(ps)), 1).E) &&
		Implies(err == nil, Eq(r, mergeAllFrom(trees(hp, ps, len(ps)), 1).N))
}

// @ hint builder.Paths.BuildPaths
func treesHint(hp Heap[Path_], ps []Ref, ns []Node, i int) bool {
	return len(ns) == len(ps) && Eq(ns[:i], trees(hp, ps, i))
}
