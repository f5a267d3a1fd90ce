//go:build go1.21

package verifspec

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---- the path lexer ----

// Rune and Width are the results of utf8.DecodeRuneInString.
//
// @ libres unicode/utf8.DecodeRuneInString 0
func Rune(s string) int { r, _ := utf8.DecodeRuneInString(s); return int(r) }

// @ libres unicode/utf8.DecodeRuneInString 1
func Width(s string) int { _, w := utf8.DecodeRuneInString(s); return w }

// lexer_ and lexeme_ are the types of the path builder. The channel of lexemes
// is used by one goroutine only, and is a list here.
type lexer_ struct {
	name, input           string
	start, pos, width     int
	state                 Ref
	stack                 []Ref
	items                 []lexeme_ `queue:"2"`
	lastEmittedStart      int
	lastEmittedLexemeType int
}

type lexeme_ struct {
	typ int
	val string
}

// The lexeme types.
const (
	lexError      = 0
	lexIdentity   = 1
	lexRootMark   = 2
	lexDotChild   = 3
	lexUndotted   = 4
	lexBracket    = 5
	lexEnd        = 6
	maxLexeme     = 6
	backslash     = '\\'
	singleQuote   = '\''
	doubleQuote   = '"'
	noMoreLexemes = 0
)

// The states of the lexer.
//
// @ op fn_github.com_vmware_tanzu_labs_yaml_overlay_tool_internal_builder.lexPath
func atPath() Ref { unspecified(); return 1 }

// @ op fn_github.com_vmware_tanzu_labs_yaml_overlay_tool_internal_builder.lexRoot
func atRoot() Ref { unspecified(); return 2 }

// @ op fn_github.com_vmware_tanzu_labs_yaml_overlay_tool_internal_builder.lexSubPath
func atSubPath() Ref { unspecified(); return 3 }

// ---- what a path text consists of ----

// spaceEnd is where the white space at p ends.
func spaceEnd(s string, p int) int {
	if p < 0 || p >= len(s) || !unicode.IsSpace(rune(Rune(s[p:]))) {
		return p
	}
	return spaceEnd(s, p+Width(s[p:]))
}

// after is where token ends, which may have white space before it, or -1.
func after(s string, p int, token string) int {
	if p < 0 || p > len(s) {
		return -1
	}
	q := spaceEnd(s, p)
	if q >= len(s) || !strings.HasPrefix(s[q:], token) {
		return -1
	}
	return q + len(token)
}

// afterAll is where the last of some tokens ends, or -1.
func afterAll(s string, p int, tokens []string, i int) int {
	if i < 0 || i >= len(tokens) {
		return p
	}
	q := after(s, p, tokens[i])
	if q < 0 {
		return q
	}
	return afterAll(s, q, tokens, i+1)
}

// member tells whether r is one of some runes.
func member(r int, rs []int) bool { return Exists(0, len(rs), func(i int) bool { return rs[i] == r }) }

// runEnd is where a run of other runes than those of rs ends.
func runEnd(s string, p int, rs []int) int {
	if p < 0 || p >= len(s) || member(Rune(s[p:]), rs) {
		return p
	}
	return runEnd(s, p+Width(s[p:]), rs)
}

// quotedEnd is where a text in quotes ends: the place of the closing quote,
// or -1.
func quotedEnd(s string, p int, c int) int {
	if p < 0 || p >= len(s) {
		return -1
	}
	if int(s[p]) == c {
		return p
	}
	if s[p] == backslash {
		if p+1 < len(s) && (int(s[p+1]) == c || s[p+1] == backslash) {
			return quotedEnd(s, p+2, c)
		}
		return -1
	}
	return quotedEnd(s, p+Width(s[p:]), c)
}

// ---- contracts ----

// moved is a lexer at another place.
func moved(x lexer_, p, width int) lexer_ {
	x.pos = p
	x.width = width
	return x
}

func inText(x lexer_) bool {
	return 0 <= x.lastEmittedStart && x.lastEmittedStart <= x.start && x.start <= x.pos && x.pos <= len(x.input)
}

func ascii(s string) bool { return Forall(0, len(s), func(i int) bool { return s[i] < 128 }) }

// @ pre builder.lexer.consumed
func consumedPre(h Heap[lexer_], l Ref, token string) bool {
	return l != 0 && inText(h[l]) && token != "" && ascii(token)
}

// @ contract builder.lexer.consumed
// @ world
// @ prop C13 C24
func consumedPost(h Heap[lexer_], l Ref, token string, r bool, h1 Heap[lexer_]) bool {
	x := h[l]
	return r == strings.HasPrefix(x.input[x.pos:], token) &&
		Eq(h1, Put(h, l, moved(x, ite(r, x.pos+len(token), x.pos), h1[l].width)))
}

// @ hint builder.lexer.consumed
func consumeHint(h0, h Heap[lexer_], l Ref, token string, i int) bool {
	return strings.HasPrefix(h0[l].input[h0[l].pos:], token) &&
		0 <= i && i <= len(token) && Eq(h, Put(h0, l, moved(h0[l], h0[l].pos+i, h[l].width)))
}

func ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// at is a lexer at another place.
func at(x lexer_, p int) lexer_ {
	x.pos = p
	return x
}

// @ pre builder.lexer.consumeWhitespace
func consumeWhitespacePre(h Heap[lexer_], l Ref) bool { return l != 0 && inText(h[l]) }

// @ contract builder.lexer.consumeWhitespace
// @ world
// @ prop C13 C24
func consumeWhitespacePost(h Heap[lexer_], l Ref, h1 Heap[lexer_]) bool {
	e := spaceEnd(h[l].input, h[l].pos)
	return Eq(h1, Put(h, l, at(h[l], e))) && h[l].pos <= e && e <= len(h[l].input)
}

// @ hint builder.lexer.consumeWhitespace
func spaceHint(h0 Heap[lexer_], l Ref, p int) bool {
	return spaceEnd(h0[l].input, p) == spaceEnd(h0[l].input, h0[l].pos) && h0[l].pos <= p && p <= len(h0[l].input)
}

// @ hint builder.lexer.consumeWhitespace
func spaceHereHint(h0, h Heap[lexer_], l Ref) bool {
	return spaceEnd(h0[l].input, h[l].pos) == spaceEnd(h0[l].input, h0[l].pos) && h0[l].pos <= h[l].pos && h[l].pos <= len(h0[l].input) &&
		Eq(h, Put(h0, l, moved(h0[l], h[l].pos, h0[l].width)))
}

// @ variant builder.lexer.consumeWhitespace
func spaceHereVariant(h0, h Heap[lexer_], l Ref) int { return len(h0[l].input) - h[l].pos }

// @ variant builder.lexer.consumeWhitespace
func spaceVariant(h0 Heap[lexer_], l Ref, p int) int { return len(h0[l].input) - p }

// @ pre builder.lexer.peekedWhitespaced
func peekedWhitespacedPre(h Heap[lexer_], l Ref, tokens []string) bool { return l != 0 && inText(h[l]) }

// @ contract builder.lexer.peekedWhitespaced
// @ world
// @ prop C13 C24
func peekedWhitespacedPost(h Heap[lexer_], l Ref, tokens []string, r bool, h1 Heap[lexer_]) bool {
	e := afterAll(h[l].input, h[l].pos, tokens, 0)
	return r == (e >= 0) && Eq(h1, h) && Implies(len(tokens) == 1, e == after(h[l].input, h[l].pos, tokens[0])) && Implies(r, h[l].pos <= e && e <= len(h[l].input))
}

// @ hint builder.lexer.peekedWhitespaced
func peekedTokensHint(h0 Heap[lexer_], l Ref, tokens []string, i, p int) bool {
	return afterAll(h0[l].input, p, tokens, i) == afterAll(h0[l].input, h0[l].pos, tokens, 0) && h0[l].pos <= p && p <= len(h0[l].input)
}

// @ hint builder.lexer.peekedWhitespaced
func peekedSpaceHint(h0 Heap[lexer_], l Ref, tokens []string, i, p, p0 int) bool {
	return spaceEnd(h0[l].input, p) == spaceEnd(h0[l].input, p0) && p0 <= p && p <= len(h0[l].input)
}

// @ variant builder.lexer.peekedWhitespaced
func peekedVariant(h0 Heap[lexer_], l Ref, p int) int { return len(h0[l].input) - p }

// @ pre builder.lexer.consumedWhitespaced
func consumedWhitespacedPre(h Heap[lexer_], l Ref, tokens []string) bool {
	return l != 0 && inText(h[l])
}

// @ contract builder.lexer.consumedWhitespaced
// @ world
// @ prop C13 C24
func consumedWhitespacedPost(h Heap[lexer_], l Ref, tokens []string, r bool, h1 Heap[lexer_]) bool {
	e := afterAll(h[l].input, h[l].pos, tokens, 0)
	return r == (e >= 0) && Eq(h1, Put(h, l, at(h[l], ite(r, e, h[l].pos)))) &&
		Implies(len(tokens) == 1, e == after(h[l].input, h[l].pos, tokens[0])) && Implies(r, h[l].pos <= e && e <= len(h[l].input))
}

// @ hint builder.lexer.consumedWhitespaced
func consumedTokensHint(h0 Heap[lexer_], l Ref, tokens []string, i, p int) bool {
	return afterAll(h0[l].input, p, tokens, i) == afterAll(h0[l].input, h0[l].pos, tokens, 0) && h0[l].pos <= p && p <= len(h0[l].input)
}

// @ hint builder.lexer.consumedWhitespaced
func consumedSpaceHint(h0 Heap[lexer_], l Ref, tokens []string, i, p, p0 int) bool {
	return spaceEnd(h0[l].input, p) == spaceEnd(h0[l].input, p0) && p0 <= p && p <= len(h0[l].input)
}

// @ variant builder.lexer.consumedWhitespaced
func consumedVariant(h0 Heap[lexer_], l Ref, p int) int { return len(h0[l].input) - p }

// @ pre builder.lexer.consumeUntil
func consumeUntilPre(h Heap[lexer_], l Ref, except []int) bool { return l != 0 && inText(h[l]) }

// @ contract builder.lexer.consumeUntil
// @ world
// @ prop C13 C24
func consumeUntilPost(h Heap[lexer_], l Ref, except []int, r bool, h1 Heap[lexer_]) bool {
	e := runEnd(h[l].input, h[l].pos, except)
	return r == (e > h[l].pos) && Eq(h1, Put(h, l, moved(h[l], e, h1[l].width))) && h[l].pos <= e && e <= len(h[l].input)
}

// @ hint builder.lexer.consumeUntil
func runHint(h0, h Heap[lexer_], l Ref, except0 []int) bool {
	return runEnd(h0[l].input, h[l].pos, except0) == runEnd(h0[l].input, h0[l].pos, except0) && h0[l].pos <= h[l].pos && h[l].pos <= len(h0[l].input) &&
		Eq(h, Put(h0, l, moved(h0[l], h[l].pos, h[l].width)))
}

// @ hint builder.lexer.consumeUntil
func runSomeHint(h0, h Heap[lexer_], l Ref, some bool) bool { return some == (h[l].pos > h0[l].pos) }

// @ hint builder.lexer.consumeUntil
func runMemberHint(except0 []int, r rune, i int) bool {
	return Forall(0, i, func(k int) bool { return Implies(k < len(except0), except0[k] != int(r)) })
}

// @ hint builder.lexer.consumeUntil
func runEndHint(except0 []int, r rune, i int) bool {
	return Implies(i > len(except0), int(r) != -1)
}

// @ variant builder.lexer.consumeUntil
func runVariant(h0, h Heap[lexer_], l Ref) int { return len(h0[l].input) - h[l].pos }

// ready is a lexer between two lexemes, where nothing waits to be read.
func ready(x lexer_) bool {
	return 0 <= x.lastEmittedStart && x.lastEmittedStart <= x.start && x.start == x.pos && x.pos <= len(x.input) && len(x.stack) == 0 && len(x.items) == 0
}

// failed tells that only an error lexeme has been added.
func failed(x, y lexer_) bool {
	return len(y.items) == 1 && y.items[0].typ == lexError
}

// @ pre builder.consumedEscapedString
func consumedEscapedStringPre(h Heap[lexer_], l Ref, quote string) bool {
	return l != 0 && inText(h[l]) && (quote == "'" || quote == "\"") && len(h[l].items) == 0
}

// @ contract builder.consumedEscapedString
// @ world
// @ prop C13 C24
func consumedEscapedStringPost(h Heap[lexer_], l Ref, quote string, r bool, h1 Heap[lexer_]) bool {
	e := quotedEnd(h[l].input, h[l].pos, int(quote[0]))
	return r == (e >= 0) &&
		Implies(r, Eq(h1, Put(h, l, moved(h[l], e, h1[l].width))) && h[l].pos <= e && e < len(h[l].input) && h[l].input[e] == quote[0]) &&
		Implies(!r, Eq(h1, Put(h, l, h1[l])) && failed(h[l], h1[l]))
}

// @ hint builder.consumedEscapedString
func quotedHint(h0, h Heap[lexer_], l Ref, quote string) bool {
	return Eq(h, Put(h0, l, moved(h0[l], h[l].pos, h[l].width))) && h0[l].pos <= h[l].pos && h[l].pos <= len(h0[l].input)
}

// @ hint builder.consumedEscapedString
func quotedPlaceHint(h0, h Heap[lexer_], l Ref, quote string) bool {
	return quotedEnd(h0[l].input, h0[l].pos, int(quote[0])) == quotedEnd(h0[l].input, h[l].pos, int(quote[0]))
}

// @ variant builder.consumedEscapedString
func quotedVariant(h0, h Heap[lexer_], l Ref) int { return len(h0[l].input) - h[l].pos }

// ---- the lexemes of a path ----

// names end at one of these.
func nameEnds() []int {
	return []int{'.', '[', ')', ' ', '&', '|', '=', '!', '>', '<', '~', '*', -1}
}

// bracketed tells whether a list of names in brackets is at p.
func bracketed(s string, p int) bool {
	return afterAll(s, p, []string{"[", "'"}, 0) >= 0 || afterAll(s, p, []string{"[", "\""}, 0) >= 0
}

// listEnd is where a list of quoted names ends, or -1.
func listEnd(s string, p int) int {
	if p < 0 || p > len(s) {
		return -1
	}
	q := spaceEnd(s, p)
	if q >= len(s) {
		return -1
	}
	e := quotedEnd(s, q+1, int(s[q]))
	if e < 0 {
		return -1
	}
	c := after(s, e+1, ",")
	if c < 0 {
		return e + 1
	}
	if after(s, c, "'") < 0 && after(s, c, "\"") < 0 {
		return -1
	}
	return listEnd(s, c)
}

// bracketEnd is where a list of names in brackets ends, or -1.
func bracketEnd(s string, p int) int { return after(s, listEnd(s, after(s, p, "[")), "]") }

// nameEnd is where a name ends that starts at p, or -1.
func nameEnd(s string, p int) int {
	e := runEnd(s, p, nameEnds())
	if e <= p {
		return -1
	}
	return e
}

// partEnd is where the part of a path ends that starts at p, or -1 when there
// is none. A name may be without a dot when it is the first part.
func partEnd(s string, p int, first bool) int {
	if s[p] == ')' {
		return -1
	}
	if s[p] == '.' {
		return nameEnd(s, p+1)
	}
	if bracketed(s, p) {
		return bracketEnd(s, p)
	}
	if first {
		return nameEnd(s, p)
	}
	return -1
}

func partType(s string, p int) int {
	if s[p] == '.' {
		return lexDotChild
	}
	if bracketed(s, p) {
		return lexBracket
	}
	return lexUndotted
}

// parts are the lexemes from p on. The text of an error is left out.
func parts(s string, p int, first bool) []lexeme_ {
	if p < 0 || p >= len(s) {
		return []lexeme_{{lexIdentity, ""}, {lexEnd, ""}}
	}
	e := partEnd(s, p, first)
	if e <= p {
		return []lexeme_{{lexError, ""}}
	}
	return append([]lexeme_{{partType(s, p), s[p:e]}}, parts(s, e, false)...)
}

// added is a lexer that has found a lexeme, which ends at e.
func added(x lexer_, t, e, width, last int) lexer_ {
	x.items = append(append([]lexeme_{}, x.items...), lexeme_{t, x.input[x.start:e]})
	x.lastEmittedStart = last
	x.start = e
	x.pos = e
	x.width = width
	x.lastEmittedLexemeType = t
	return x
}

// found tells that a state has found the lexeme that ends at e, or an error
// when e is -1.
func found(h Heap[lexer_], l Ref, t, e int, r Ref, h1 Heap[lexer_]) bool {
	return Implies(e > h[l].pos, r == atSubPath() && Eq(h1, Put(h, l, added(h[l], t, e, h1[l].width, h1[l].lastEmittedStart))) && e <= len(h[l].input) &&
		0 <= h1[l].lastEmittedStart && h1[l].lastEmittedStart <= e) &&
		Implies(e <= h[l].pos, r == 0 && Eq(h1, Put(h, l, h1[l])) && failed(h[l], h1[l]))
}

// @ pre builder.lexer.handleChild
func handleChildPre(h Heap[lexer_], l Ref, t int) bool {
	return l != 0 && inText(h[l]) && len(h[l].items) == 0
}

// @ contract builder.lexer.handleChild
// @ world
// @ prop C13 C24
func handleChildPost(h Heap[lexer_], l Ref, t int, r Ref, h1 Heap[lexer_]) bool {
	return found(h, l, t, nameEnd(h[l].input, h[l].pos), r, h1)
}

// @ pre builder.lexer.handleBracket
func handleBracketPre(h Heap[lexer_], l Ref) bool {
	return l != 0 && ready(h[l]) && bracketed(h[l].input, h[l].pos)
}

// @ contract builder.lexer.handleBracket
// @ world
// @ prop C13 C24
func handleBracketPost(h Heap[lexer_], l Ref, r Ref, h1 Heap[lexer_]) bool {
	return found(h, l, lexBracket, bracketEnd(h[l].input, h[l].pos), r, h1)
}

// @ hint builder.lexer.handleBracket
func listHint(h0, h Heap[lexer_], l Ref) bool {
	return Eq(h, Put(h0, l, moved(h0[l], h[l].pos, h[l].width))) && h0[l].pos < h[l].pos && h[l].pos <= len(h0[l].input)
}

// @ hint builder.lexer.handleBracket
func listEndHint(h0, h Heap[lexer_], l Ref) bool {
	return listEnd(h0[l].input, after(h0[l].input, h0[l].pos, "[")) == listEnd(h0[l].input, h[l].pos)
}

// @ hint builder.lexer.handleBracket
func listQuoteHint(h0, h Heap[lexer_], l Ref) bool {
	return after(h0[l].input, h[l].pos, "'") >= 0 || after(h0[l].input, h[l].pos, "\"") >= 0
}

// @ hint builder.lexer.handleBracket
func listMoreHint(h0, h Heap[lexer_], l Ref, more bool) bool {
	e := listEnd(h0[l].input, after(h0[l].input, h0[l].pos, "["))
	return Implies(more, e == listEnd(h0[l].input, h[l].pos) && (after(h0[l].input, h[l].pos, "'") >= 0 || after(h0[l].input, h[l].pos, "\"") >= 0)) &&
		Implies(!more, e == h[l].pos)
}

// @ variant builder.lexer.handleBracket
func listVariant(h0, h Heap[lexer_], l Ref) int { return len(h0[l].input) - h[l].pos }

// @ pre builder.lexSubPath
func lexSubPathPre(h Heap[lexer_], l Ref) bool { return l != 0 && ready(h[l]) }

// ended tells that a state has found the end of the path.
func ended(h Heap[lexer_], l Ref, r Ref, h1 Heap[lexer_]) bool {
	return r == 0 && Eq(h1, Put(h, l, h1[l])) && Eq(h1[l].items, []lexeme_{{lexIdentity, ""}, {lexEnd, ""}})
}

// @ contract builder.lexSubPath
// @ world
// @ prop C13 C24
func lexSubPathPost(h Heap[lexer_], l Ref, r Ref, h1 Heap[lexer_]) bool {
	s := h[l].input
	p := h[l].pos
	if p >= len(s) {
		return ended(h, l, r, h1)
	}
	return found(h, l, partType(s, p), partEnd(s, p, h[l].lastEmittedLexemeType == lexEnd), r, h1)
}

// @ pre builder.lexRoot
func lexRootPre(h Heap[lexer_], l Ref) bool {
	return l != 0 && ready(h[l]) && strings.HasPrefix(h[l].input[h[l].pos:], "$")
}

// @ contract builder.lexRoot
// @ world
// @ prop C13 C24
func lexRootPost(h Heap[lexer_], l Ref, r Ref, h1 Heap[lexer_]) bool {
	return found(h, l, lexRootMark, h[l].pos+1, r, h1)
}

// @ pre builder.lexPath
func lexPathPre(h Heap[lexer_], l Ref) bool { return l != 0 && ready(h[l]) }

func implied(x lexer_, last int) lexer_ {
	x.lastEmittedStart = last
	x.items = []lexeme_{{lexRootMark, "$"}}
	return x
}

// @ contract builder.lexPath
// @ world
// @ prop C13 C24
func lexPathPost(h Heap[lexer_], l Ref, r Ref, h1 Heap[lexer_]) bool {
	s := h[l].input
	p := h[l].pos
	if p >= len(s) {
		return ended(h, l, r, h1)
	}
	if s[p] == '$' {
		return r == atRoot() && Eq(h1, h)
	}
	return r == atSubPath() && Eq(h1, Put(h, l, implied(h[l], h1[l].lastEmittedStart))) && 0 <= h1[l].lastEmittedStart && h1[l].lastEmittedStart <= p
}

// ---- the lexemes one after the other ----

// legal is a lexer between two calls of nextLexeme.
func legal(x lexer_) bool {
	if x.state == 0 {
		return len(x.items) <= 2
	}
	return 0 <= x.lastEmittedStart && x.lastEmittedStart <= x.start && x.start == x.pos && x.pos <= len(x.input) && len(x.stack) == 0 && len(x.items) <= 2 &&
		(x.state == atPath() || x.state == atSubPath() || x.state == atRoot() && strings.HasPrefix(x.input[x.pos:], "$"))
}

// plain is a lexeme without the text of an error.
func plain(x lexeme_) lexeme_ {
	if x.typ == lexError {
		return lexeme_{lexError, ""}
	}
	return x
}

func plainAll(xs []lexeme_) []lexeme_ {
	if len(xs) == 0 {
		return []lexeme_{}
	}
	return append([]lexeme_{plain(xs[0])}, plainAll(xs[1:])...)
}

// coming are the lexemes that have not been looked for yet.
func coming(x lexer_) []lexeme_ {
	s := x.input
	p := x.pos
	if x.state == 0 {
		return []lexeme_{}
	}
	if x.state == atSubPath() || p >= len(s) {
		return parts(s, p, x.lastEmittedLexemeType == lexEnd)
	}
	if s[p] == '$' {
		return append([]lexeme_{{lexRootMark, s[p : p+1]}}, parts(s, p+1, false)...)
	}
	return append([]lexeme_{{lexRootMark, "$"}}, parts(s, p, x.lastEmittedLexemeType == lexEnd)...)
}

// all are the lexemes that a lexer will give.
func all(x lexer_) []lexeme_ { return append(append([]lexeme_{}, plainAll(x.items)...), coming(x)...) }

// first and others split a list of lexemes, which ends with ends of the path.
func first(xs []lexeme_) lexeme_ {
	if len(xs) == 0 {
		return lexeme_{lexEnd, ""}
	}
	return xs[0]
}

func others(xs []lexeme_) []lexeme_ {
	if len(xs) == 0 {
		return xs
	}
	return xs[1:]
}

// @ pre builder.lexer.nextLexeme
func nextLexemePre(h Heap[lexer_], l Ref) bool { return l != 0 && legal(h[l]) }

// @ contract builder.lexer.nextLexeme
// @ world
// @ prop C13 C24
func nextLexemePost(h Heap[lexer_], l Ref, r lexeme_, h1 Heap[lexer_]) bool {
	return legal(h1[l]) && Eq(h1, Put(h, l, h1[l])) && Eq(plain(r), first(all(h[l]))) && Eq(all(h1[l]), others(all(h[l])))
}

// @ hint builder.lexer.nextLexeme
func legalHint(h0, h Heap[lexer_], l Ref) bool { return legal(h[l]) && Eq(h, Put(h0, l, h[l])) }

// @ hint builder.lexer.nextLexeme
func allHint(h0, h Heap[lexer_], l Ref) bool { return Eq(all(h[l]), all(h0[l])) }

func rank(s Ref) int {
	if s == 0 {
		return 0
	}
	if s == atPath() {
		return 3
	}
	if s == atRoot() {
		return 2
	}
	return 1
}

// @ variant builder.lexer.nextLexeme
func lexVariant(h Heap[lexer_], l Ref) int {
	return ite(h[l].state == 0, 0, 4*(len(h[l].input)-h[l].pos)) + rank(h[l].state)
}

// newLexer is a lexer for a text.
func newLexer(name, s string) lexer_ {
	return lexer_{name, s, 0, 0, 0, atPath(), []Ref{}, []lexeme_{}, 0, lexEnd}
}

// @ contract builder.lex
// @ world
// @ prop C13 C24
func lexPost(h Heap[lexer_], name, input string, r Ref, h1 Heap[lexer_]) bool {
	return New(r) && Eq(h1, Put(h, r, newLexer(name, input)))
}
