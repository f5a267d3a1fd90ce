//go:build go1.21

package verifspec

import "path"

// ---- reading the instructions ----

// AbsPath and AbsErr are the results of filepath.Abs.
//
// @ result path/filepath.Abs 0
func AbsPath(w World, p string) string { unspecified(); return "" }

// @ result path/filepath.Abs 1
func AbsErr(w World, p string) error { unspecified(); return nil }

// WithSetting is the world with a setting made.
//
// @ sets
// @ effect github.com/spf13/viper.Set
func WithSetting(w World, key string, v any) World { unspecified(); return w }

// DecodedInstructions are the instructions that a decoder gives.
//
// @ out (*gopkg.in/yaml.v3.Decoder).Decode#instructions.Instructions 1
func DecodedInstructions(w World, h Heap[YamlFile_], d Ref, old Instructions_) Instructions_ {
	unspecified()
	return old
}

// @ heapout (*gopkg.in/yaml.v3.Decoder).Decode#instructions.Instructions
func DecodedInstructionsHeap(w World, h Heap[YamlFile_], d Ref, old Instructions_) Heap[YamlFile_] {
	unspecified()
	return h
}

// @ result (*gopkg.in/yaml.v3.Decoder).Decode#instructions.Instructions 0
func DecodeInstructionsErr(w World, h Heap[YamlFile_], d Ref) error { unspecified(); return nil }

// @ effect (*gopkg.in/yaml.v3.Decoder).Decode#instructions.Instructions
func DecodeInstructionsW(w World, h Heap[YamlFile_], d Ref) World { unspecified(); return w }

// Got are instructions, the file entries, the world afterwards, and whether
// that failed.
type Got struct {
	W World
	H Heap[YamlFile_]
	I Instructions_
	E bool
}

// source is the text of the instructions: the file, rendered when there are
// values.
func source(w World, cfg Config_) Stream {
	if cfg.ValueFiles == nil {
		return StreamOf(w, cfg.InstructionsFile)
	}
	v := ValuesOf(w, cfg.ValueFiles)
	if v.E {
		return Stream{NoValue(), v.W, true}
	}
	return RenderedOf(v.W, cfg.InstructionsFile, v.V)
}

func decodedFrom(s Stream, h Heap[YamlFile_]) Got {
	if s.E {
		return Got{s.W, h, Instructions_{}, true}
	}
	d := Decoder(s.W, s.R)
	w := DecoderW(s.W, s.R)
	return Got{DecodeInstructionsW(w, h, d), DecodedInstructionsHeap(w, h, d, Instructions_{}), DecodedInstructions(w, h, d, Instructions_{}), DecodeInstructionsErr(w, h, d) != nil}
}

// fromFile are the instructions of the instructions file.
func fromFile(w World, h Heap[YamlFile_], cfg Config_) Got {
	if AbsErr(w, cfg.InstructionsFile) != nil {
		return Got{w, h, Instructions_{}, true}
	}
	return decodedFrom(source(WithSetting(w, "instructionsDir", any(path.Dir(AbsPath(w, cfg.InstructionsFile)))), cfg), h)
}

// @ contract instructions.Config.ReadInstructionFile
// @ sets
// @ world
// @ prop C14 C17 C20
func readInstructionFilePost(w World, hc Heap[Config_], hi Heap[Instructions_], h Heap[YamlFile_], cfg Ref, r Ref, err error, w1 World, hi1 Heap[Instructions_], h1 Heap[YamlFile_]) bool {
	g := fromFile(w, h, hc[cfg])
	return Iff(err != nil, g.E) && Implies(err == nil, r != 0 && Eq(Got{w1, h1, hi1[r], false}, g))
}

// Flag is a configured switch.
//
// @ setting
// @ result github.com/spf13/viper.GetBool 0
func Flag(w World, key string) bool { unspecified(); return false }

// WorkDir and WorkDirErr are the results of os.Getwd.
//
// @ result os.Getwd 0
func WorkDir(w World) string { unspecified(); return "" }

// @ result os.Getwd 1
func WorkDirErr(w World) error { unspecified(); return nil }

// OverlayOf is the overlay inside configuration cfg.
//
// @ op addr_Config_Overlay
func OverlayOf(cfg Ref) Ref { unspecified(); return 0 }

// ParsedNode is the node that a text holds.
//
// @ out gopkg.in/yaml.v3.Unmarshal#yaml.Node 1
func ParsedNode(w World, text []byte, old Node) Node { unspecified(); return old }

// @ result gopkg.in/yaml.v3.Unmarshal#yaml.Node 0
func ParseNodeErr(w World, text []byte) error { unspecified(); return nil }

// contentOf is the content of a document, or the node itself.
func contentOf(n Node) Node {
	if n.Kind == Document && len(n.Content) > 0 {
		return n.Content[0]
	}
	return n
}

func valueSet(cfg Config_, v Node) Config_ {
	cfg.Overlay.Value = v
	return cfg
}

func overlayAdded(in Instructions_, o Ref) Instructions_ {
	in.CommonOverlays = append(append([]Ref{}, in.CommonOverlays...), o)
	return in
}

// @ contract instructions.Config.ReadAdHocOverlays
// @ world
// @ prop C09 C17
func readAdHocOverlaysPost(w World, hc Heap[Config_], hi Heap[Instructions_], cfg, i Ref, err error, hc1 Heap[Config_], hi1 Heap[Instructions_]) bool {
	if hc[cfg].Overlay.Query == nil {
		return err == nil && Eq(hi1, hi) && Eq(hc1, hc)
	}
	if ParseNodeErr(w, []byte(hc[cfg].Value)) != nil {
		return err != nil
	}
	return err == nil && Eq(hi1, Put(hi, i, overlayAdded(hi[i], OverlayOf(cfg)))) &&
		Eq(hc1, Put(hc, cfg, valueSet(hc[cfg], contentOf(ParsedNode(w, []byte(hc[cfg].Value), hc[cfg].Overlay.Value)))))
}

// Uncommented is the world after the comments of a document were removed.
//
// @ effect github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/instructions.removeCommentsFromNode
func Uncommented(w World, n Ref) World { unspecified(); return w }

func uncommentDocs(w World, ns []Ref, i int) World {
	if i < 0 || i >= len(ns) {
		return w
	}
	return uncommentDocs(Uncommented(w, ns[i]), ns, i+1)
}

// uncommentFiles removes the comments of the documents of the files from i on.
func uncommentFiles(w World, h Heap[YamlFile_], ys []Ref, i int) World {
	if i < 0 || i >= len(ys) {
		return w
	}
	return uncommentFiles(uncommentDocs(w, h[ys[i]].Nodes, 0), h, ys, i+1)
}

// cleaned is the world after comments were removed where that is requested.
func cleaned(w World, h Heap[YamlFile_], ys []Ref) World {
	if Flag(w, "removeComments") {
		return uncommentFiles(w, h, ys, 0)
	}
	return w
}

// begun are the instructions of the instructions file, if there is one.
func begun(w World, h Heap[YamlFile_], cfg Config_) Got {
	if cfg.InstructionsFile != "" {
		return fromFile(w, h, cfg)
	}
	if WorkDirErr(w) != nil {
		return Got{w, h, Instructions_{}, true}
	}
	return Got{WithSetting(w, "instructionDir", any(WorkDir(w))), h, Instructions_{}, false}
}

// withPath adds the path of the command line.
func withPath(g Got, p string) Got {
	if g.E || p == "" {
		return g
	}
	return pathAdded(filesAdded(adHocRead(g.W, g.H, p), g.I.YamlFiles), g.I)
}

func pathAdded(e Expanded, in Instructions_) Got {
	return Got{e.W, e.H, filesSet(in, e.L), e.E}
}

// finished are instructions with the outputs decided, the common overlays
// added to each file, and comments removed where requested.
func finished(w World, h Heap[YamlFile_], in Instructions_) Got {
	h1 := outputs(h, in.YamlFiles, 0, CommonPrefix('/', filePaths(h, in.YamlFiles, 0)))
	h2 := withCommon(h1, in.CommonOverlays, in.YamlFiles, 0)
	return Got{cleaned(w, h2, in.YamlFiles), h2, in, false}
}

// withOverlay adds the overlay of the command line.
func withOverlay(g Got, c Config_, o Ref) Got {
	if g.E || c.Overlay.Query == nil {
		return g
	}
	return Got{g.W, g.H, overlayAdded(g.I, o), ParseNodeErr(g.W, []byte(c.Value)) != nil}
}

// valueRead is the configuration with the value of its overlay read.
func valueRead(w World, c Config_) Config_ {
	if c.Overlay.Query == nil {
		return c
	}
	return valueSet(c, contentOf(ParsedNode(w, []byte(c.Value), c.Overlay.Value)))
}

// @ contract instructions.Config.GetInstructions
// @ sets
// @ world
// @ prop C09 C14 C15 C17 C18
func getInstructionsPost(w World, hc Heap[Config_], hi Heap[Instructions_], h Heap[YamlFile_], cfg Ref, r Ref, err error, w1 World, hc1 Heap[Config_], hi1 Heap[Instructions_], h1 Heap[YamlFile_]) bool {
	g := withPath(begun(w, h, hc[cfg]), hc[cfg].Path)
	e := withOverlay(g, hc[cfg], OverlayOf(cfg))
	return Iff(err != nil, e.E) &&
		Implies(err == nil, r != 0 && Eq(Got{w1, h1, hi1[r], false}, finished(e.W, e.H, e.I)) && Eq(hc1, Put(hc, cfg, valueRead(g.W, hc[cfg]))))
}

func unfinished(w World, h Heap[YamlFile_], c Config_, o Ref) World {
	return withOverlay(withPath(begun(w, h, c), c.Path), c, o).W
}

// @ hint instructions.Config.GetInstructions
func cleanFilesHint(w0, w World, hc0 Heap[Config_], hi Heap[Instructions_], h0, h Heap[YamlFile_], cfg, r Ref, i int) bool {
	return Eq(uncommentFiles(unfinished(w0, h0, hc0[cfg], OverlayOf(cfg)), h, hi[r].YamlFiles, 0), uncommentFiles(w, h, hi[r].YamlFiles, i))
}

// @ hint instructions.Config.GetInstructions
func cleanDocsHint(w0, w World, hc0 Heap[Config_], hi Heap[Instructions_], h0, h Heap[YamlFile_], cfg, r Ref, i, j int) bool {
	return Eq(uncommentFiles(unfinished(w0, h0, hc0[cfg], OverlayOf(cfg)), h, hi[r].YamlFiles, 0),
		uncommentFiles(uncommentDocs(w, h[hi[r].YamlFiles[i]].Nodes, j), h, hi[r].YamlFiles, i+1))
}
