//go:build go1.21

package verifspec

import "strings"

// ---- names of actions and styles ----

// @ contract actions.Action.String
// @ prop C22
func ActionStringPost(a int, r string) bool { return r == ActionName(a) }

// ActionName is the name an action prints as.
func ActionName(a int) string {
	if a == ActMerge {
		return "merge"
	}
	if a == ActReplace {
		return "replace"
	}
	if a == ActDelete {
		return "delete"
	}
	if a == ActCombine {
		return "combine"
	}
	return ""
}

// ActionNamed is the action with a name, or 0.
func ActionNamed(s string) int {
	if strings.ToLower(s) == "merge" {
		return ActMerge
	}
	if strings.ToLower(s) == "replace" {
		return ActReplace
	}
	if strings.ToLower(s) == "delete" {
		return ActDelete
	}
	if strings.ToLower(s) == "combine" {
		return ActCombine
	}
	return 0
}

// NameLemma: an action is named by the name it prints as, and nothing else is.
//
// @ lemma
// @ prop C22
func NameLemma(a int) {
	Requires(ActMerge <= a && a <= ActCombine)
	Requires(strings.ToLower(ActionName(a)) == ActionName(a))
	Ensures(ActionNamed(ActionName(a)) == a)
}

// DecodedText is the text that a string variable holds after decoding node n
// into it.
//
// @ out (*gopkg.in/yaml.v3.Node).Decode#string 1
func DecodedText(w World, n Ref, old string) string { unspecified(); return "" }

// DecodeTextErr is the error of decoding node n into a string.
//
// @ result (*gopkg.in/yaml.v3.Node).Decode#string 0
func DecodeTextErr(w World, n Ref) error { unspecified(); return nil }

// @ contract actions.Action.UnmarshalYAML
// @ world
// @ prop C22
func ActionUnmarshalPost(w World, a int, value Ref, a1 int, err error) bool {
	if DecodeTextErr(w, value) != nil || ActionNamed(DecodedText(w, value, "")) == 0 {
		return err != nil && a1 == a
	}
	return err == nil && a1 == ActionNamed(DecodedText(w, value, ""))
}

// @ contract actions.OnMissingAction.String
// @ prop C22
func OnMissingStringPost(a int, r string) bool { return r == MissName(a) }

// MissName is the name a missing-match action prints as.
func MissName(a int) string {
	if a == MissDefault {
		return "default"
	}
	if a == MissIgnore {
		return "ignore"
	}
	if a == MissInject {
		return "inject"
	}
	return ""
}

// MissNamed is the missing-match action with a name.
func MissNamed(s string) int {
	if strings.ToLower(s) == "ignore" {
		return MissIgnore
	}
	if strings.ToLower(s) == "inject" {
		return MissInject
	}
	return MissDefault
}

// @ lemma
// @ prop C22
func MissNameLemma(a int) {
	Requires(MissDefault <= a && a <= MissInject)
	Requires(strings.ToLower(MissName(a)) == MissName(a))
	Ensures(MissNamed(MissName(a)) == a)
}

// @ contract actions.OnMissingAction.UnmarshalYAML
// @ world
// @ prop C22
func OnMissingUnmarshalPost(w World, a int, value Ref, a1 int, err error) bool {
	if DecodeTextErr(w, value) != nil {
		return err != nil && a1 == a
	}
	return err == nil && a1 == MissNamed(DecodedText(w, value, ""))
}

// The styles.
const (
	Tagged       = 1
	DoubleQuoted = 2
	SingleQuoted = 4
	Literal      = 8
	Folded       = 16
	Flow         = 32
	Normal       = 64
)

// @ contract actions.Style.String
// @ prop C19
func StyleStringPost(s int, r string) bool {
	if s == Normal {
		return r == "normal"
	}
	if s == Tagged {
		return r == "tagged"
	}
	if s == DoubleQuoted {
		return r == "doubleQuoted"
	}
	if s == SingleQuoted {
		return r == "singleQuoted"
	}
	if s == Literal {
		return r == "literal"
	}
	if s == Folded {
		return r == "folded"
	}
	if s == Flow {
		return r == "flow"
	}
	return r == ""
}

// StyleNamed is the style a name in lower case selects, or 0.
func StyleNamed(s string) int {
	if s == "normal" || s == "n" {
		return Normal
	}
	if s == "tagged" || s == "tag" || s == "t" {
		return Tagged
	}
	if s == "doublequoted" || s == "doublequote" || s == "double" || s == "dq" {
		return DoubleQuoted
	}
	if s == "singlequoted" || s == "singlequote" || s == "single" || s == "sq" {
		return SingleQuoted
	}
	if s == "literal" || s == "l" {
		return Literal
	}
	if s == "folded" || s == "fold" || s == "fo" {
		return Folded
	}
	if s == "flow" || s == "fl" {
		return Flow
	}
	return 0
}

// namedStyles are the styles selected by the names from i on.
func namedStyles(names []string, i int) []int {
	if i < 0 || i >= len(names) {
		return []int{}
	}
	if StyleNamed(names[i]) == 0 {
		return namedStyles(names, i+1)
	}
	return append([]int{StyleNamed(names[i])}, namedStyles(names, i+1)...)
}

// listedStyles are the styles selected by the lists of names from i on.
func listedStyles(lists []string, i int) []int {
	if i < 0 || i >= len(lists) {
		return []int{}
	}
	return append(append([]int{}, namedStyles(strings.Split(strings.Trim(strings.ToLower(lists[i]), "[]"), ","), 0)...), listedStyles(lists, i+1)...)
}

// @ contract actions.GetStyleFromConfig
// @ prop C19
func GetStyleFromConfigPost(lists []string, listsNil bool, r []int, rNil bool) bool {
	return Eq(r, listedStyles(lists, 0))
}

// @ hint actions.GetStyleFromConfig
func listedHint(lists []string, r []int, i int) bool {
	return Eq(listedStyles(lists, 0), append(append([]int{}, r...), listedStyles(lists, i)...))
}

// @ hint actions.GetStyleFromConfig
func namedHint(lists []string, r []int, i, j int) bool {
	return Eq(listedStyles(lists, 0), append(append(append([]int{}, r...), namedStyles(strings.Split(strings.Trim(strings.ToLower(lists[i]), "[]"), ","), j)...), listedStyles(lists, i+1)...))
}

// ---- setting actions from flags ----

// SetAction is the action that a variable holds after parsing a text into it.
//
// @ out gopkg.in/yaml.v3.Unmarshal#actions.Action 1
func SetAction(w World, text []byte, old int) int { unspecified(); return old }

// @ result gopkg.in/yaml.v3.Unmarshal#actions.Action 0
func SetActionErr(w World, text []byte) error { unspecified(); return nil }

// @ contract actions.Action.Set
// @ world
// @ prop C22
func ActionSetPost(w World, a int, val string, a1 int, err error) bool {
	return a1 == SetAction(w, []byte(val), a) && Iff(err != nil, SetActionErr(w, []byte(val)) != nil)
}

// @ contract actions.Action.MarshalYAML
// @ prop C22
func ActionMarshalPost(a int, r any, err error) bool { return err == nil && Eq(r, any(ActionName(a))) }

// SetMiss is the missing-match action that a variable holds after parsing a
// text into it.
//
// @ out gopkg.in/yaml.v3.Unmarshal#actions.OnMissingAction 1
func SetMiss(w World, text []byte, old int) int { unspecified(); return old }

// @ result gopkg.in/yaml.v3.Unmarshal#actions.OnMissingAction 0
func SetMissErr(w World, text []byte) error { unspecified(); return nil }

// @ contract actions.OnMissingAction.Set
// @ world
// @ prop C22
func OnMissingSetPost(w World, a int, val string, a1 int, err error) bool {
	return a1 == SetMiss(w, []byte(val), a) && Iff(err != nil, SetMissErr(w, []byte(val)) != nil)
}

// @ contract actions.OnMissingAction.MarshalYAML
// @ prop C22
func OnMissingMarshalPost(a int, r any, err error) bool {
	return err == nil && Eq(r, any(MissName(a)))
}
