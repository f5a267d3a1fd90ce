//go:build go1.21

package verifspec

import "errors"

// EOF is io.EOF.
var EOF = errors.New("EOF")

// ---- files that are read ----

// Opened is the file os.Open gives.
//
// @ result os.Open 0
func Opened(w World, name string) Ref { unspecified(); return 0 }

// @ result os.Open 1
func OpenErr(w World, name string) error { unspecified(); return nil }

// @ effect os.Open
func OpenW(w World, name string) World { unspecified(); return w }

// StdIn is os.Stdin.
//
// @ op g_os.Stdin
func StdIn() Ref { unspecified(); return 0 }

// Buffered is a buffered reader of r.
//
// @ result bufio.NewReader 0
func Buffered(w World, r any) Ref { unspecified(); return 0 }

// @ effect bufio.NewReader
func BufferedW(w World, r any) World { unspecified(); return w }

// Stream is a reader, the world after it was made, and whether that failed.
type Stream struct {
	R any
	W World
	E bool
}

// StreamOf is the stream of the file with a name, "-" being standard input.
func StreamOf(w World, name string) Stream {
	if name == "-" {
		return Stream{any(Buffered(w, any(StdIn()))), BufferedW(w, any(StdIn())), false}
	}
	return Stream{any(Opened(w, name)), OpenW(w, name), OpenErr(w, name) != nil}
}

// @ contract instructions.ReadStream
// @ world
// @ prop C14 C17 C20
func ReadStreamPost(w World, name string, r any, err error, w1 World) bool {
	s := StreamOf(w, name)
	return Eq(w1, s.W) && Iff(err != nil, s.E) && Implies(err == nil, Eq(r, s.R))
}

// ---- the documents of a file ----

// Decoder is a new decoder of a stream.
//
// @ result gopkg.in/yaml.v3.NewDecoder 0
func Decoder(w World, r any) Ref { unspecified(); return 0 }

// @ effect gopkg.in/yaml.v3.NewDecoder
func DecoderW(w World, r any) World { unspecified(); return w }

// NewNode is the object the next new node gets.
//
// @ alloc yaml.Node
func NewNode(w World) Ref { unspecified(); return 0 }

// @ allocw yaml.Node
func NewNodeW(w World) World { unspecified(); return w }

// DocumentRead is the world after a decoder read a document into node n.
//
// @ effect (*gopkg.in/yaml.v3.Decoder).Decode#yaml.Node
func DocumentRead(w World, d, n Ref) World { unspecified(); return w }

// @ result (*gopkg.in/yaml.v3.Decoder).Decode#yaml.Node 0
func DocumentErr(w World, d, n Ref) error { unspecified(); return nil }

// CloseErr is the error of closing a file, which changes nothing else.
//
// @ result (*os.File).Close 0
func CloseErr(w World, f Ref) error { unspecified(); return nil }

// Docs are the documents read from a stream.
type Docs struct {
	W World
	L []Ref
	E bool
}

// docsOf adds the documents that decoder d gives to a list.
func docsOf(w World, d Ref, l []Ref) Docs {
	n := NewNode(w)
	w1 := DocumentRead(NewNodeW(w), d, n)
	err := DocumentErr(NewNodeW(w), d, n)
	if errors.Is(err, EOF) {
		return Docs{w1, l, false}
	}
	if err != nil {
		return Docs{w1, l, true}
	}
	return docsOf(w1, d, append(append([]Ref{}, l...), n))
}

// DocsOf adds the documents of the stream with a name to a list.
func DocsOf(w World, name string, l []Ref) Docs {
	s := StreamOf(w, name)
	if s.E {
		return Docs{s.W, l, true}
	}
	return docsOf(DecoderW(s.W, s.R), Decoder(s.W, s.R), l)
}

// withDocs is the heap with the documents of entry f replaced.
func withDocs(h Heap[YamlFile_], f Ref, l []Ref) Heap[YamlFile_] {
	return Put(h, f, docsSet(h[f], l))
}

func docsSet(yf YamlFile_, l []Ref) YamlFile_ {
	yf.Nodes = l
	return yf
}

// @ contract instructions.YamlFile.readYamlFile
// @ world
// @ noterm
// @ prop C14 C16 C17
func readYamlFilePost(w World, h Heap[YamlFile_], f Ref, err error, w1 World, h1 Heap[YamlFile_]) bool {
	d := DocsOf(w, h[f].Path, h[f].Nodes)
	return Eq(w1, d.W) && Iff(err != nil, d.E) && Implies(err == nil, Eq(h1, withDocs(h, f, d.L)))
}

// @ hint instructions.YamlFile.readYamlFile
func readYamlFileHint(w0, w World, h0, h Heap[YamlFile_], f Ref, dc Ref) bool {
	return Eq(DocsOf(w0, h0[f].Path, h0[f].Nodes), docsOf(w, dc, h[f].Nodes))
}

// @ hint instructions.YamlFile.readYamlFile
func readYamlFileFrame(h0, h Heap[YamlFile_], f Ref) bool {
	return Eq(h, withDocs(h0, f, h[f].Nodes))
}

// ---- the list of files ----

// DecodedFiles are the file entries that node n holds; DecodedFilesHeap holds
// them.
//
// @ out (*gopkg.in/yaml.v3.Node).Decode#[]*instructions.YamlFile 1
func DecodedFiles(w World, h Heap[YamlFile_], n Ref, old []Ref) []Ref { unspecified(); return old }

// @ heapout (*gopkg.in/yaml.v3.Node).Decode#[]*instructions.YamlFile
func DecodedFilesHeap(w World, h Heap[YamlFile_], n Ref, old []Ref) Heap[YamlFile_] {
	unspecified()
	return h
}

// @ result (*gopkg.in/yaml.v3.Node).Decode#[]*instructions.YamlFile 0
func DecodeFilesErr(w World, n Ref) error { unspecified(); return nil }

// @ effect (*gopkg.in/yaml.v3.Node).Decode#[]*instructions.YamlFile
func DecodeFilesW(w World, n Ref) World { unspecified(); return w }

// readAll reads the documents of the files from entry i on, up to the first
// failure.
func readAll(w World, h Heap[YamlFile_], ys []Ref, i int) Expanded {
	if i < 0 || i >= len(ys) {
		return Expanded{w, h, ys, false}
	}
	return thenRead(DocsOf(w, h[ys[i]].Path, h[ys[i]].Nodes), h, ys, i)
}

func thenRead(d Docs, h Heap[YamlFile_], ys []Ref, i int) Expanded {
	if d.E {
		return Expanded{d.W, h, ys, true}
	}
	return readAll(d.W, withDocs(h, ys[i], d.L), ys, i+1)
}

// filesRead expands directories, joins entries and reads the files.
func filesRead(w World, h Heap[YamlFile_], ys []Ref) Expanded {
	e := ExpandedOf(w, h, ys)
	if e.E {
		return e
	}
	m := Joined(e.H, e.L)
	return readAll(e.W, m.H, m.L, 0)
}

// @ contract instructions.YamlFiles.UnmarshalYAML
// @ world
// @ prop C14 C16 C17
func filesUnmarshalPost(w World, h Heap[YamlFile_], ys []Ref, value Ref, err error, w1 World, h1 Heap[YamlFile_], ys1 []Ref) bool {
	if DecodeFilesErr(w, value) != nil {
		return err != nil
	}
	r := filesRead(DecodeFilesW(w, value), DecodedFilesHeap(w, h, value, []Ref{}), DecodedFiles(w, h, value, []Ref{}))
	return Iff(err != nil, r.E) && Implies(err == nil, Eq(Expanded{w1, h1, ys1, false}, r))
}

// @ hint instructions.YamlFiles.UnmarshalYAML
func filesUnmarshalHint(w0, w World, h0, h Heap[YamlFile_], value Ref, l []Ref, i int) bool {
	return Eq(filesRead(DecodeFilesW(w0, value), DecodedFilesHeap(w0, h0, value, []Ref{}), DecodedFiles(w0, h0, value, []Ref{})), readAll(w, h, l, i))
}

// ---- the file given on the command line ----

type Config_ struct {
	LogLevel               int
	InstructionsFile       string
	OutputDir              string
	StdOut                 bool
	RemoveComments         bool
	Indent                 int
	Styles                 []int
	ValueFiles             []string `nil:"kept"`
	Overlay                Overlay_
	Value                  string
	Path                   string
	DefaultOnMissingAction int
}

// adHoc is the entry for a path given on the command line.
func adHoc(p string) YamlFile_ {
	return YamlFile_{Name: "StdIn", Path: p, OutputPath: adHocOutput(p)}
}

// filesAdded is a list of files with more files put after them, those of one
// path joined.
func filesAdded(more Expanded, ys []Ref) Expanded {
	if more.E {
		return more
	}
	m := Joined(more.H, append(append([]Ref{}, ys...), more.L...))
	return Expanded{more.W, m.H, m.L, false}
}

// expandedRead expands directories and reads the files.
func expandedRead(e Expanded) Expanded {
	if e.E {
		return e
	}
	return readAll(e.W, e.H, e.L, 0)
}

// adHocRead are the files that the path on the command line stands for.
func adHocRead(w World, h Heap[YamlFile_], p string) Expanded {
	return expandedRead(ExpandedOf(NewFileW(w), Put(h, NewFile(w), adHoc(p)), []Ref{NewFile(w)}))
}

// withFiles is the instructions with the list of files replaced.
func withFiles(h Heap[Instructions_], i Ref, ys []Ref) Heap[Instructions_] {
	return Put(h, i, filesSet(h[i], ys))
}

func filesSet(in Instructions_, ys []Ref) Instructions_ {
	in.YamlFiles = ys
	return in
}

// @ contract instructions.Config.ReadAdHocPaths
// @ world
// @ prop C14 C17
func readAdHocPathsPost(w World, hc Heap[Config_], hi Heap[Instructions_], h Heap[YamlFile_], cfg, i Ref, err error, w1 World, hi1 Heap[Instructions_], h1 Heap[YamlFile_]) bool {
	if hc[cfg].Path == "" {
		return err == nil && Eq(w1, w) && Eq(hi1, hi) && Eq(h1, h)
	}
	r := filesAdded(adHocRead(w, h, hc[cfg].Path), hi[i].YamlFiles)
	return Iff(err != nil, r.E) && Implies(err == nil, Eq(w1, r.W) && Eq(h1, r.H) && Eq(hi1, withFiles(hi, i, r.L)))
}

// @ hint instructions.Config.ReadAdHocPaths
func readAdHocPathsHint(w0, w World, hc Heap[Config_], h0, h Heap[YamlFile_], cfg Ref, l []Ref, k int) bool {
	return Eq(adHocRead(w0, h0, hc[cfg].Path), readAll(w, h, l, k))
}
