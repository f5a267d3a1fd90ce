//go:build go1.21

package verifspec

import "strings"

// The marker syntax: %v, %l, %h, %f or %k, optionally followed by a sed
// command in braces.

func isMarkerByte(b byte) bool {
	return b == 'v' || b == 'l' || b == 'h' || b == 'f' || b == 'k'
}

// nextMarker is the place of the first marker at or after i, or -1.
func nextMarker(s string, i int) int {
	if i < 0 || i >= len(s)-1 {
		return -1
	}
	if s[i] == '%' && isMarkerByte(s[i+1]) {
		return i
	}
	return nextMarker(s, i+1)
}

// closeBrace is the place of the first '}' at or after i on the same line,
// or -1.
func closeBrace(s string, i int) int {
	if i < 0 || i >= len(s) {
		return -1
	}
	if s[i] == '}' {
		return i
	}
	if s[i] == '\n' {
		return -1
	}
	return closeBrace(s, i+1)
}

// markerEnd is the end of the marker at i.
func markerEnd(s string, i int) int {
	if i+2 < len(s) && s[i+2] == '{' && closeBrace(s, i+3) >= 0 {
		return closeBrace(s, i+3) + 1
	}
	return i + 2
}

// command is the sed command of the marker from i to e.
func command(s string, i, e int) string {
	if e > i+2 {
		return s[i+3 : e-1]
	}
	return ""
}

// Matches are the markers of a text, with their parts: all of the marker, its
// name, its braces and the command in them. That the regular expression finds
// them is assumed (and tested, on many texts, by the bounded replay).
//
// @ regexp (?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?
func Matches(s string) [][]string {
	if nextMarker(s, 0) < 0 {
		return [][]string{}
	}
	return matchesAt(s, nextMarker(s, 0), markerEnd(s, nextMarker(s, 0)))
}

func matchesAt(s string, i, e int) [][]string {
	if i < 0 || i > len(s)-2 || e <= i+1 || e > len(s) {
		return [][]string{}
	}
	return append([][]string{matchHead(s, i, e)}, Matches(s[e:])...)
}

// matchHead is the marker from i to e and its parts.
func matchHead(s string, i, e int) []string {
	return []string{s[i:e], s[i : i+2], s[i+2 : e], command(s, i, e)}
}

// FirstMarkerLemma: the marker found is the first one.
//
// @ lemma
// @ known nextMarker
// @ prop C01 C02 C06 C07 C08
func FirstMarkerLemma(s string, i, j int) {
	Requires(0 <= i && i <= j && j < len(s)-1 && s[j] == '%' && isMarkerByte(s[j+1]))
	Decreases(j - i)
	Ensures(0 <= nextMarker(s, i) && nextMarker(s, i) <= j)
	Trigger(nextMarker(s, i), s[j])
	if i < j {
		FirstMarkerLemma(s, i+1, j)
	}
}

// MarkerLemma: a marker is where it was found.
//
// @ lemma
// @ known nextMarker
// @ prop C01 C02 C06 C07 C08
func MarkerLemma(s string, i int) {
	Requires(0 <= i)
	Decreases(len(s) - i)
	Ensures(nextMarker(s, i) == -1 || i <= nextMarker(s, i) && nextMarker(s, i) < len(s)-1 && s[nextMarker(s, i)] == '%' && isMarkerByte(s[nextMarker(s, i)+1]))
	Trigger(nextMarker(s, i))
	if i < len(s) {
		MarkerLemma(s, i+1)
	}
}

// BraceLemma: a brace is where it was found.
//
// @ lemma
// @ known closeBrace
// @ prop C01 C02 C06 C07 C08
func BraceLemma(s string, i int) {
	Requires(0 <= i)
	Decreases(len(s) - i)
	Ensures(closeBrace(s, i) == -1 || i <= closeBrace(s, i) && closeBrace(s, i) < len(s) && s[closeBrace(s, i)] == '}')
	Trigger(closeBrace(s, i))
	if i < len(s) {
		BraceLemma(s, i+1)
	}
}

// StepLemma: the first match, the text after it, and where it is found.
//
// @ lemma
// @ known Matches
// @ prop C01 C02 C06 C07 C08
func StepLemma(s, x string) {
	Trigger(Matches(s), strings.Index(s, x))
	MarkerLemma(s, 0)
	BraceLemma(s, nextMarker(s, 0)+3)
	i := nextMarker(s, 0)
	e := markerEnd(s, nextMarker(s, 0))
	m := matchHead(s, nextMarker(s, 0), markerEnd(s, nextMarker(s, 0)))
	if nextMarker(s, 0) >= 0 {
		Assert(Eq(m[0], s[i:e]))
		Assert(strings.Index(s, m[0]) >= 0)
		Assert(m[0][0] == '%')
		Assert(isMarkerByte(m[0][1]))
		Assert(s[strings.Index(s, m[0])] == '%')
		Assert(s[strings.Index(s, m[0])+1] == m[0][1])
		FirstMarkerLemma(s, 0, strings.Index(s, m[0]))
	}
	Ensures((len(Matches(s)) > 0) == (i >= 0))
	Ensures(Implies(i >= 0, i+2 <= e && e <= len(s) && Eq(Matches(s)[0], m) && Eq(Matches(s)[1:], Matches(s[e:]))))
	Ensures(Implies(i >= 0, len(m) == 4 && Eq(m[0], s[i:e]) && Eq(m[1], s[i:i+2]) && Eq(m[3], command(s, i, e)) && strings.Index(s, m[0]) == i))
}

// SedHook runs a sed command when the specification is executed.
var SedHook func(command, value string) (out string, bad, failed bool)

// The sed library: a text to read, the engine a command makes, and what it
// makes of a value; all are functions of their arguments (assumed).

// @ result strings.NewReader 0
func textReader(s string) Ref { unspecified(); return 0 }

// @ result github.com/rwtodd/Go.Sed/sed.New 0
func sedEngine(program Ref) Ref { unspecified(); return 0 }

// @ result github.com/rwtodd/Go.Sed/sed.New 1
func sedErr(program Ref) error { unspecified(); return nil }

// @ result (*github.com/rwtodd/Go.Sed/sed.Engine).RunString 0
func sedRun(engine Ref, value string) string { unspecified(); return "" }

// @ result (*github.com/rwtodd/Go.Sed/sed.Engine).RunString 1
func sedRunErr(engine Ref, value string) error { unspecified(); return nil }

// sedText is the output of a sed command, and whether the command is bad or
// fails.
//
// @ uninterpreted
func sedText(command, value string) string { out, _, _ := SedHook(command, value); return out }

// @ uninterpreted
func sedBad(command, value string) bool { _, bad, _ := SedHook(command, value); return bad }

// @ uninterpreted
func sedFails(command, value string) bool { _, _, failed := SedHook(command, value); return failed }

// sedIs ties them to the library.
//
// @ axiom sedText
func sedTextIs(command, value string) bool {
	Trigger(textReader(command))
	return Eq(sedText(command, value), sedRun(sedEngine(textReader(command)), value))
}

// @ axiom sedBad
func sedBadIs(command, value string) bool {
	Trigger(textReader(command))
	return sedBad(command, value) == (sedErr(textReader(command)) != nil)
}

// @ axiom sedFails
func sedFailsIs(command, value string) bool {
	Trigger(textReader(command))
	return sedFails(command, value) == (sedRunErr(sedEngine(textReader(command)), value) != nil)
}

// Sed is the result of a sed command: its output without the line end sed adds
// and the one it may begin with; a bad command changes nothing.
//
// @ uninterpreted
func Sed(command, value string) string { return sedOutcome(command, value) }

func sedOutcome(command, value string) string {
	if sedBad(command, value) {
		return value
	}
	if sedFails(command, value) {
		return sedText(command, value)
	}
	return strings.TrimPrefix(strings.TrimSuffix(sedText(command, value), "\n"), "\n")
}

// @ axiom Sed
func sedIs(command, value string) bool {
	Trigger(textReader(command))
	return Eq(Sed(command, value), sedOutcome(command, value))
}

// @ contract actions.processSedCommand
// @ prop C07
func processSedCommandPost(cmd, value string, r string, err error) bool {
	return Eq(r, Sed(cmd, value)) && (err != nil) == (sedBad(cmd, value) || sedFails(cmd, value))
}

// doFormat's loop: what is left to do is that of the rest of the text.
//
// @ hint actions.doFormat
func formatHint(s0, rest, formatted string, values0 []string) bool {
	return Eq(formatted+Expand(rest, values0[0], values0[1], values0[2], values0[3], values0[4]),
		Expand(s0, values0[0], values0[1], values0[2], values0[3], values0[4]))
}

// @ hint actions.doFormat
func matchesHint(rest string, matches [][]string, k int) bool {
	return 0 <= k && k <= len(matches) && Eq(matches[k:], Matches(rest)) &&
		Implies(k < len(matches), len(Matches(rest)) > 0 && Eq(matches[k], Matches(rest)[0]))
}

func previous(m string, v, l, h, f, k string) string {
	if m == "%k" {
		return k
	}
	if m == "%f" {
		return f
	}
	if m == "%h" {
		return h
	}
	if m == "%l" {
		return l
	}
	if m == "%v" {
		return v
	}
	return ""
}

// expansion is what the marker from i to e stands for.
func expansion(s string, i, e int, v, l, h, f, k string) string {
	if command(s, i, e) == "" {
		return previous(s[i:i+2], v, l, h, f, k)
	}
	return Sed(command(s, i, e), previous(s[i:i+2], v, l, h, f, k))
}

// Expand is s with its markers replaced, in one pass.
func Expand(s, v, l, h, f, k string) string {
	if nextMarker(s, 0) < 0 {
		return s
	}
	return expandAt(s, nextMarker(s, 0), markerEnd(s, nextMarker(s, 0)), v, l, h, f, k)
}

func expandAt(s string, i, e int, v, l, h, f, k string) string {
	if i < 0 || i > len(s)-2 || e <= i+1 || e > len(s) {
		return s
	}
	return s[:i] + expansion(s, i, e, v, l, h, f, k) + Expand(s[e:], v, l, h, f, k)
}

// ExpandLemma: the first marker and the rest of the text.
//
// @ lemma
// @ known Expand
// @ prop C01 C02 C06 C07 C08
func ExpandLemma(s, v, l, h, f, k, x string) {
	Trigger(Expand(s, v, l, h, f, k), strings.Index(s, x))
	MarkerLemma(s, 0)
	BraceLemma(s, nextMarker(s, 0)+3)
	i := nextMarker(s, 0)
	e := markerEnd(s, nextMarker(s, 0))
	Ensures(Implies(i >= 0, Eq(Expand(s, v, l, h, f, k), s[:i]+(expansion(s, i, e, v, l, h, f, k)+Expand(s[e:], v, l, h, f, k)))))
	Ensures(Implies(i < 0, Eq(Expand(s, v, l, h, f, k), s)))
}

// TailLemma: what a loop over the matches does with one of them.
//
// @ lemma
// @ known Matches
// @ prop C01 C02 C06 C07 C08
func TailLemma(s string, ms [][]string, k int) {
	Requires(0 <= k && k < len(ms) && Eq(ms[k:], Matches(s)))
	Trigger(Matches(s), strings.Index(s, ms[k][0]))
	i := nextMarker(s, 0)
	e := markerEnd(s, nextMarker(s, 0))
	Assert(len(Matches(s)) > 0)
	Assert(Eq(ms[k:][0], Matches(s)[0]))
	StepLemma(s, ms[k][0])
	Ensures(i >= 0 && i+2 <= e && e <= len(s))
	Ensures(len(ms[k]) == 4 && Eq(ms[k][0], s[i:e]) && Eq(ms[k][1], s[i:i+2]) && Eq(ms[k][3], command(s, i, e)))
	Ensures(strings.Index(s, ms[k][0]) == i && len(ms[k][0]) == e-i)
	Ensures(Eq(ms[k+1:], Matches(s[strings.Index(s, ms[k][0])+len(ms[k][0]):])))
}
