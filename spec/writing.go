//go:build go1.21

package verifspec

import (
	"os"
	"path"
)

// ---- writing the results ----

// NewEncoder is the encoder made for a writer.
//
// @ result gopkg.in/yaml.v3.NewEncoder 0
func NewEncoder(w World, to any) Ref { unspecified(); return 0 }

// @ effect gopkg.in/yaml.v3.NewEncoder
func NewEncoderW(w World, to any) World { unspecified(); return w }

// @ effect (*gopkg.in/yaml.v3.Encoder).SetIndent
func IndentSet(w World, e Ref, n int) World { unspecified(); return w }

// @ effect (*gopkg.in/yaml.v3.Encoder).Encode
func Encoded(w World, e Ref, v any) World { unspecified(); return w }

// @ result (*gopkg.in/yaml.v3.Encoder).Encode 0
func EncodeErr(w World, e Ref, v any) error { unspecified(); return nil }

// @ effect (*gopkg.in/yaml.v3.Encoder).Close
func EncoderClosed(w World, e Ref) World { unspecified(); return w }

// TextWritten is the world after a text was written to a buffer.
//
// @ effect (*bytes.Buffer).WriteString
func TextWritten(w World, b Ref, s string) World { unspecified(); return w }

// BufferLen is the number of bytes in a buffer.
//
// @ result (*bytes.Buffer).Len 0
func BufferLen(w World, b Ref) int { unspecified(); return 0 }

// BufferWritten is the world after a buffer was written out.
//
// @ effect (*bytes.Buffer).WriteTo
func BufferWritten(w World, b Ref, to any) World { unspecified(); return w }

// @ result (*bytes.Buffer).WriteTo 1
func BufferWriteErr(w World, b Ref, to any) error { unspecified(); return nil }

// @ effect (*bytes.Buffer).Reset
func BufferReset(w World, b Ref) World { unspecified(); return w }

// WriteTo empties the buffer that it wrote out: it resets it itself.
//
// @ axiom BufferWritten
func bufferDrained(w World, b Ref, to any) bool {
	return Implies(BufferWriteErr(w, b, to) == nil, Eq(BufferReset(BufferWritten(w, b, to), b), BufferWritten(w, b, to)))
}

// Number and Names are configured values.
//
// @ setting
// @ result github.com/spf13/viper.GetInt 0
func Number(w World, key string) int { unspecified(); return 0 }

// @ setting
// @ result github.com/spf13/viper.GetStringSlice 0
func Names(w World, key string) []string { unspecified(); return nil }

// StyledW is the world after styles were set on documents (its contract is in
// actions.go).
//
// @ effect github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions.SetStyle
func StyledW(w World, ss []int, ns []Ref) World { unspecified(); return w }

// Enc is a world, whether something was encoded, and whether that failed.
type Enc struct {
	W World
	S bool
	E bool
}

// encodeAll encodes the documents with content from i on, up to the first
// failure.
func encodeAll(w World, e, b Ref, ns []Ref, i int, started bool) Enc {
	if i < 0 || i >= len(ns) {
		return Enc{w, started, false}
	}
	if len(Kids(w, ns[i])) == 0 {
		return encodeAll(w, e, b, ns, i+1, started)
	}
	return encodeNext(marked(w, b, started), e, b, ns, i, started)
}

// marked is the world after the mark of the first document was written.
func marked(w World, b Ref, started bool) World {
	if started {
		return w
	}
	return TextWritten(w, b, "---\n")
}

func encodeNext(w World, e, b Ref, ns []Ref, i int, started bool) Enc {
	s := StyledW(w, listedStyles(Names(w, "outputStyle"), 0), []Ref{ns[i]})
	if EncodeErr(s, e, any(ns[i])) != nil {
		return Enc{Encoded(s, e, any(ns[i])), started, true}
	}
	return encodeAll(Encoded(s, e, any(ns[i])), e, b, ns, i+1, true)
}

func encoderClosed(r Enc, e Ref) Enc {
	if !r.S {
		return r
	}
	return Enc{EncoderClosed(r.W, e), true, r.E}
}

// encodedDocs is what is encoded of the documents of a file.
func encodedDocs(w World, ns []Ref) Enc {
	b := NewBuffer(w)
	w1 := NewBufferW(w)
	e := NewEncoder(w1, any(b))
	w2 := NewEncoderW(w1, any(b))
	return encoderClosed(encodeAll(IndentSet(w2, e, Number(w2, "indentLevel")), e, b, ns, 0, false), e)
}

// @ contract instructions.Config.encodeNodes
// @ world
// @ prop C16 C17 C19
func encodeNodesPost(w World, cfg Ref, nodes []Ref, nodesNil bool, r Ref, err error, w1 World) bool {
	d := encodedDocs(w, nodes)
	return Eq(w1, d.W) && Iff(err != nil, d.E) && Implies(err == nil, r == NewBuffer(w))
}

func startedDocs(w World, b, e Ref) World {
	return IndentSet(NewEncoderW(NewBufferW(w), any(b)), e, Number(NewEncoderW(NewBufferW(w), any(b)), "indentLevel"))
}

// @ hint instructions.Config.encodeNodes
func encodeNodesHint(w0, w World, nodes []Ref, i int, started bool) bool {
	return Eq(encodeAll(startedDocs(w0, NewBuffer(w0), NewEncoder(NewBufferW(w0), any(NewBuffer(w0)))), NewEncoder(NewBufferW(w0), any(NewBuffer(w0))), NewBuffer(w0), nodes, 0, false),
		encodeAll(w, NewEncoder(NewBufferW(w0), any(NewBuffer(w0))), NewBuffer(w0), nodes, i, started))
}

// ---- the output file ----

// @ effect os.MkdirAll
func DirMade(w World, p string, mode uint32) World { unspecified(); return w }

// @ result os.MkdirAll 0
func DirMadeErr(w World, p string, mode uint32) error { unspecified(); return nil }

// OpenedFor is the file that os.OpenFile opens.
//
// @ result os.OpenFile 0
func OpenedFor(w World, p string, flag int, mode uint32) Ref { unspecified(); return 0 }

// @ result os.OpenFile 1
func OpenedForErr(w World, p string, flag int, mode uint32) error { unspecified(); return nil }

// @ effect os.OpenFile
func OpenedForW(w World, p string, flag int, mode uint32) World { unspecified(); return w }

// FileText is the world after a text was written to a file.
//
// @ effect (*os.File).WriteString
func FileText(w World, f Ref, s string) World { unspecified(); return w }

// StdOut is os.Stdout.
//
// @ op g_os.Stdout
func StdOut() Ref { unspecified(); return 0 }

// outputName is the name of the file that the results of an entry go to.
func outputName(w World, yf YamlFile_) string {
	if path.IsAbs(yf.OutputPath) {
		return yf.OutputPath
	}
	return path.Join(Setting(w, "outputDirectory"), yf.OutputPath)
}

// dirReady is the world after the directory of a file was made if missing.
func dirReady(w World, dir string) Out {
	if os.IsNotExist(StatErr(w, dir)) {
		return Out{DirMade(w, dir, 0755), DirMadeErr(w, dir, 0755) != nil}
	}
	return Out{w, false}
}

// OutFile is an open file, the world afterwards, and whether that failed.
type OutFile struct {
	F Ref
	W World
	E bool
}

func openedIn(d Out, name string) OutFile {
	if d.E {
		return OutFile{0, d.W, true}
	}
	if OpenedForErr(d.W, name, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644) != nil {
		return OutFile{0, OpenedForW(d.W, name, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644), true}
	}
	return OutFile{OpenedFor(d.W, name, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644),
		FileText(OpenedForW(d.W, name, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644), StdOut(), name+"\n"), false}
}

// openedFor opens the file that the results of an entry go to.
func openedFor(w World, yf YamlFile_) OutFile {
	return openedIn(dirReady(w, path.Dir(outputName(w, yf))), outputName(w, yf))
}

// @ contract instructions.Config.openOutputFile
// @ world
// @ prop C15 C16 C17
func openOutputFilePost(w World, h Heap[YamlFile_], cfg, yf Ref, r Ref, err error, w1 World) bool {
	o := openedFor(w, h[yf])
	return Eq(w1, o.W) && Iff(err != nil, o.E) && Implies(err == nil, r == o.F)
}

// writeTo writes the text of an entry to a file.
func writeTo(o OutFile, b Ref) Out {
	if o.E {
		return Out{o.W, true}
	}
	if BufferWriteErr(o.W, b, any(o.F)) != nil {
		return Out{BufferWritten(o.W, b, any(o.F)), true}
	}
	return Out{BufferWritten(o.W, b, any(o.F)), false}
}

func emitted(r Enc, yf YamlFile_, b Ref) Out {
	if r.E {
		return Out{r.W, true}
	}
	if BufferLen(r.W, b) == 0 {
		return Out{r.W, false}
	}
	if Flag(r.W, "stdout") {
		return writeTo(OutFile{StdOut(), r.W, false}, b)
	}
	return writeTo(openedFor(r.W, yf), b)
}

// Emitted is what is written for an entry.
func Emitted(w World, yf YamlFile_) Out { return emitted(encodedDocs(w, yf.Nodes), yf, NewBuffer(w)) }

// @ contract instructions.Config.doPostProcessing
// @ world
// @ prop C15 C16 C17 C19
func doPostProcessingPost(w World, h Heap[YamlFile_], cfg, yf Ref, err error, w1 World) bool {
	r := Emitted(w, h[yf])
	return Eq(w1, r.W) && Iff(err != nil, r.E)
}

// ---- the files that were processed ----

// @ recvval YamlFile
func DoneFile(w World, ch Ref) Ref { unspecified(); return 0 }

// @ recvok YamlFile
func DoneOk(w World, ch Ref) bool { unspecified(); return false }

// @ recvw YamlFile
func DoneW(w World, ch Ref) World { unspecified(); return w }

// EmitAll writes every file that comes, up to the first failure.
func EmitAll(w World, h Heap[YamlFile_], ch Ref) Out {
	if !DoneOk(w, ch) {
		return Out{DoneW(w, ch), false}
	}
	return andThenEmit(Emitted(DoneW(w, ch), h[DoneFile(w, ch)]), h, ch)
}

func andThenEmit(r Out, h Heap[YamlFile_], ch Ref) Out {
	if r.E {
		return r
	}
	return EmitAll(r.W, h, ch)
}

// @ contract instructions.PostProcessHandler
// @ world
// @ noterm
// @ prop C16 C17
func postProcessPost(w World, h Heap[YamlFile_], cfg, ch Ref, err error, w1 World) bool {
	return Eq(w1, EmitAll(w, h, ch).W) && Iff(err != nil, EmitAll(w, h, ch).E)
}

// @ hint instructions.PostProcessHandler
func postProcessHint(w0, w World, h Heap[YamlFile_], ch Ref) bool {
	return Eq(EmitAll(w0, h, ch), EmitAll(w, h, ch))
}
