//go:build go1.21

package verifspec

import "path/filepath"

// ---- values files and templates ----

// oneDoc reads the first document of the stream with a name.
func oneDoc(w World, name string, l []Ref) Docs {
	s := StreamOf(w, name)
	if s.E {
		return Docs{s.W, l, true}
	}
	return firstDoc(DecoderW(s.W, s.R), Decoder(s.W, s.R), l)
}

func firstDoc(w World, d Ref, l []Ref) Docs {
	n := NewNode(w)
	if DocumentErr(NewNodeW(w), d, n) != nil {
		return Docs{DocumentRead(NewNodeW(w), d, n), l, true}
	}
	return Docs{DocumentRead(NewNodeW(w), d, n), append(append([]Ref{}, l...), n), false}
}

// valuesOf adds the first documents of the files from i on to a list.
func valuesOf(w World, names []string, i int, l []Ref) Docs {
	if i < 0 || i >= len(names) {
		return Docs{w, l, false}
	}
	return thenValues(oneDoc(w, names[i], l), names, i)
}

func thenValues(d Docs, names []string, i int) Docs {
	if d.E {
		return d
	}
	return valuesOf(d.W, names, i+1, d.L)
}

// Marshaled is the text of a value.
//
// @ result gopkg.in/yaml.v3.Marshal 0
func Marshaled(w World, v any) []byte { unspecified(); return nil }

// @ result gopkg.in/yaml.v3.Marshal 1
func MarshalErr(w World, v any) error { unspecified(); return nil }

// ParsedValues are the values that a text holds.
//
// @ out gopkg.in/yaml.v3.Unmarshal#interface{} 1
func ParsedValues(w World, text []byte, old any) any { unspecified(); return old }

// @ result gopkg.in/yaml.v3.Unmarshal#interface{} 0
func ParseValuesErr(w World, text []byte) error { unspecified(); return nil }

// NoValue is the nil interface value.
//
// @ op nilIface
func NoValue() any { return nil }

// Values are template values, the world after reading them, and whether that
// failed.
type Values struct {
	W World
	V any
	E bool
}

// ValuesOf are the values of the files, those of later files over those of
// earlier ones.
func ValuesOf(w World, names []string) Values {
	d := valuesOf(w, names, 0, []Ref{})
	if d.E || len(names) == 0 {
		return Values{d.W, NoValue(), d.E}
	}
	if MergeErr(d.W, d.L) != nil {
		return Values{Merged(d.W, d.L), NoValue(), true}
	}
	return parsed(Merged(d.W, d.L), d.L[0])
}

func parsed(w World, n Ref) Values {
	if MarshalErr(w, any(n)) != nil || ParseValuesErr(w, Marshaled(w, any(n))) != nil {
		return Values{w, NoValue(), true}
	}
	return Values{w, ParsedValues(w, Marshaled(w, any(n)), NoValue()), false}
}

// @ contract instructions.getValues
// @ world
// @ prop C20 C17
func getValuesPost(w World, names []string, namesNil bool, v any, err error, w1 World) bool {
	r := ValuesOf(w, names)
	return Iff(err != nil, r.E) && Implies(err == nil, Eq(Values{w1, v, false}, r))
}

// @ hint instructions.getValues
func getValuesListHint(w0, w World, names []string, l []Ref, i int) bool {
	return Eq(valuesOf(w0, names, 0, []Ref{}), valuesOf(w, names, i, l))
}

// @ hint instructions.getValues
func getValuesCount(l []Ref, i int) bool {
	return len(l) == i
}

// @ hint instructions.getValues
func getValuesHint(w0, w World, names []string, l []Ref, i int) bool {
	return len(l) == len(names) && Eq(valuesOf(w0, names, 0, []Ref{}), valuesOf(w, names, i, l[:i]))
}

// ---- the instructions template ----

// SprigFuncs are the functions of sprig.
//
// @ result github.com/Masterminds/sprig/v3.FuncMap 0
func SprigFuncs() map[string]any { unspecified(); return nil }

// Template is an empty template with a name.
//
// @ result text/template.New 0
func Template(name string) Ref { unspecified(); return 0 }

// WithFuncs is a template with functions added.
//
// @ result (*text/template.Template).Funcs 0
func WithFuncs(t Ref, fs map[string]any) Ref { unspecified(); return 0 }

// WithFiles is a template with files parsed.
//
// @ result (*text/template.Template).ParseFiles 0
func WithFiles(w World, t Ref, names []string) Ref { unspecified(); return 0 }

// @ result (*text/template.Template).ParseFiles 1
func WithFilesErr(w World, t Ref, names []string) error { unspecified(); return nil }

// WithOption is a template with options set.
//
// @ result (*text/template.Template).Option 0
func WithOption(t Ref, opts []string) Ref { unspecified(); return 0 }

// NewBuffer is the object the next new buffer gets.
//
// @ alloc bytes.Buffer
func NewBuffer(w World) Ref { unspecified(); return 0 }

// @ allocw bytes.Buffer
func NewBufferW(w World) World { unspecified(); return w }

// Rendered is the world after a template was written to a buffer.
//
// @ effect (*text/template.Template).Execute
func Rendered(w World, t Ref, to, values any) World { unspecified(); return w }

// @ result (*text/template.Template).Execute 0
func RenderErr(w World, t Ref, to, values any) error { unspecified(); return nil }

// instructionsTemplate is the template of an instructions file.
func instructionsTemplate(w World, name string) Ref {
	return WithOption(WithFiles(w, WithFuncs(Template(filepath.Base(name)), SprigFuncs()), []string{name}), []string{"missingkey=zero"})
}

// RenderedOf is the rendered instructions file.
func RenderedOf(w World, name string, values any) Stream {
	if WithFilesErr(w, WithFuncs(Template(filepath.Base(name)), SprigFuncs()), []string{name}) != nil {
		return Stream{NoValue(), w, true}
	}
	b := any(NewBuffer(w))
	t := instructionsTemplate(w, name)
	return Stream{b, Rendered(NewBufferW(w), t, b, values), RenderErr(NewBufferW(w), t, b, values) != nil}
}

// @ contract instructions.renderInstructionsTemplate
// @ world
// @ prop C20 C17
func renderPost(w World, name string, values any, r any, err error, w1 World) bool {
	s := RenderedOf(w, name, values)
	return Eq(w1, s.W) && Iff(err != nil, s.E) && Implies(err == nil, Eq(r, s.R))
}
