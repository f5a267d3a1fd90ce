//go:build go1.21

// Package verifspec holds the contracts of yaml-overlay-tool: specification
// functions in a small subset of Go that the verifier (/verif/gover) reads as
// logic and that the replay harness runs as oracles.
//
// Sequences ([]T) and strings are mathematical values here, integers are
// unbounded in the logic.
package verifspec

import (
	"reflect"
	"strconv"
)

// Node is a yaml.Node: ID is its identity, Line and Column are left out, and
// an alias is represented by the identity of its target.
type Node struct {
	ID          int
	Kind        int
	Style       int
	Tag         string
	Value       string
	Anchor      string
	Alias       string
	Content     []Node
	HeadComment string
	LineComment string
	FootComment string
}

// Ref is the identity of an object.
type Ref int

// The kinds of yaml nodes.
const (
	Document = 1
	Sequence = 2
	Mapping  = 4
	Scalar   = 8
	Alias    = 16
)

// ---- intrinsics ----

// Eq is equality of values (an empty slice equals a nil slice).
func Eq[T any](a, b T) bool { return eqv(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem()) }

func eqv(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eqv(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eqv(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
	return a.Interface() == b.Interface()
}

// Upd is s with element i replaced.
func Upd[T any](s []T, i int, v T) []T {
	r := append([]T(nil), s...)
	r[i] = v
	return r
}

// PutKey is m with an entry.
func PutKey[K comparable, V any](m map[K]V, k K, v V) map[K]V {
	n := map[K]V{k: v}
	for i, x := range m {
		if i != k {
			n[i] = x
		}
	}
	return n
}

// Implies is logical implication; it does not short-circuit.
func Implies(a, b bool) bool { return !a || b }

// Iff is equivalence.
func Iff(a, b bool) bool { return a == b }

// Forall quantifies over lo <= i < hi.
func Forall(lo, hi int, p func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !p(i) {
			return false
		}
	}
	return true
}

// Exists quantifies over lo <= i < hi.
func Exists(lo, hi int, p func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if p(i) {
			return true
		}
	}
	return false
}

// Height is the height of a tree: children are smaller than their parent.
func Height(n Node) int {
	h := 0
	for _, c := range n.Content {
		if d := Height(c) + 1; d > h {
			h = d
		}
	}
	return h
}

// Requires, Ensures, Decreases and Assert are the clauses of lemmas.
func Requires(b bool)    {}
func Ensures(b bool)     {}
func Decreases(m ...int) {}
func Assert(b bool)      {}

// Trigger gives the terms that bring a known lemma to use.
func Trigger(x ...interface{}) {}

// ---- library functions with more than one result ----

// IsInt and IntOf are the results of strconv.Atoi.
//
// @ errnil strconv.Atoi 1
func IsInt(s string) bool { _, err := strconv.Atoi(s); return err == nil }

// @ libres strconv.Atoi 0
func IntOf(s string) int { n, _ := strconv.Atoi(s); return n }

// IsBool and BoolOf are the results of strconv.ParseBool.
//
// @ errnil strconv.ParseBool 1
func IsBool(s string) bool { _, err := strconv.ParseBool(s); return err == nil }

// @ libres strconv.ParseBool 0
func BoolOf(s string) bool { b, _ := strconv.ParseBool(s); return b }

// BitOr is the bitwise or.
//
// @ op lib_bitor
func BitOr(a, b int) int { return a | b }
