//go:build go1.21

package verifspec

import "strings"

// ---- decoding of queries and overlays ----

// ParsedQuery is the parsed form of a path, with the error of parsing it.
//
// @ result github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath.NewPath 0
func ParsedQuery(s string) Ref { unspecified(); return 0 }

// @ result github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath.NewPath 1
func ParseQueryErr(s string) error { unspecified(); return nil }

// @ contract overlays.Query.UnmarshalYAML
// @ world
// @ prop C23 C17
func QueryUnmarshalPost(w World, q Query_, value Ref, q1 Query_, err error) bool {
	if DecodeTextErr(w, value) != nil || ParseQueryErr(DecodedText(w, value, "")) != nil {
		return err != nil && Eq(q1, q)
	}
	return err == nil && Eq(q1, Query_{ParsedQuery(DecodedText(w, value, "")), DecodedText(w, value, "")})
}

// @ contract overlays.Queries.String
// @ world
// @ prop C23
func QueriesStringPost(qs []Query_, qsNil bool, r string) bool {
	return r == strings.Join(Texts(qs, 0), ",")
}

// DecodedQuery is the query that node n holds, with the error of decoding it.
//
// @ out (*gopkg.in/yaml.v3.Node).Decode#overlays.Query 1
func DecodedQuery(w World, n Ref, old Query_) Query_ { unspecified(); return old }

// @ result (*gopkg.in/yaml.v3.Node).Decode#overlays.Query 0
func DecodeQueryErr(w World, n Ref) error { unspecified(); return nil }

// DecodedQueries is the list of queries that node n holds.
//
// @ out (*gopkg.in/yaml.v3.Node).Decode#overlays.qq 1
func DecodedQueries(w World, n Ref, old []Query_) []Query_ { unspecified(); return old }

// @ result (*gopkg.in/yaml.v3.Node).Decode#overlays.qq 0
func DecodeQueriesErr(w World, n Ref) error { unspecified(); return nil }

// @ contract overlays.Queries.UnmarshalYAML
// @ world
// @ prop C23 C17
func QueriesUnmarshalPost(w World, qs []Query_, value Ref, qs1 []Query_, err error) bool {
	if KindAt(w, value) == Scalar {
		return Iff(err != nil, DecodeQueryErr(w, value) != nil) && Implies(err == nil, Eq(qs1, []Query_{DecodedQuery(w, value, Query_{})}))
	}
	return Iff(err != nil, DecodeQueriesErr(w, value) != nil) && Implies(err == nil, Eq(qs1, DecodedQueries(w, value, qs)))
}

// TextQuery is the query that a YAML text holds.
//
// @ out gopkg.in/yaml.v3.Unmarshal#overlays.Query 1
func TextQuery(w World, text []byte, old Query_) Query_ { unspecified(); return old }

// @ result gopkg.in/yaml.v3.Unmarshal#overlays.Query 0
func TextQueryErr(w World, text []byte) error { unspecified(); return nil }

// @ contract overlays.Queries.Set
// @ world
// @ prop C23 C17
func QueriesSetPost(w World, qs []Query_, val string, qs1 []Query_, err error) bool {
	if TextQueryErr(w, []byte(val)) != nil {
		return err != nil && Eq(qs1, qs)
	}
	return err == nil && Eq(qs1, append(append([]Query_{}, qs...), TextQuery(w, []byte(val), Query_{})))
}

// DecodedOverlay is the overlay that node n holds, before the defaults.
//
// @ out (*gopkg.in/yaml.v3.Node).Decode#overlays.temp 1
func DecodedOverlay(w World, n Ref, old Overlay_) Overlay_ { unspecified(); return old }

// @ result (*gopkg.in/yaml.v3.Node).Decode#overlays.temp 0
func DecodeOverlayErr(w World, n Ref) error { unspecified(); return nil }

// withDefaults is an overlay with its name or action filled in: the action is
// filled in unless the name is missing.
func withDefaults(o Overlay_) Overlay_ {
	if o.Name == "" {
		o.Name = strings.Join(Texts(o.Query, 0), ",")
		return o
	}
	if ActionName(o.Action) == "" {
		o.Action = ActMerge
	}
	return o
}

// @ contract overlays.Overlay.UnmarshalYAML
// @ world
// @ prop C23 C22 C17
func OverlayUnmarshalPost(w World, o Overlay_, value Ref, o1 Overlay_, err error) bool {
	return Iff(err != nil, DecodeOverlayErr(w, value) != nil) && Implies(err == nil, Eq(o1, withDefaults(DecodedOverlay(w, value, o))))
}
