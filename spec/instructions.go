//go:build go1.21

package verifspec

import (
	"errors"
	"path"
	"strings"
)

type Instructions_ struct {
	CommonOverlays []Ref
	YamlFiles      []Ref
}

// ---- output paths ----

// @ contract instructions.determinePath
// @ prop C15
func determinePathPost(p string, r string) bool { return r == adHocOutput(p) }

// adHocOutput is the output path of a path given on the command line.
func adHocOutput(p string) string {
	if p == "-" {
		return "stdin.yaml"
	}
	return ""
}

// sameUpTo is the first place from i on where a and b differ or one ends.
func sameUpTo(a, b string, i int) int {
	if i < 0 || i >= len(a) || i >= len(b) {
		return i
	}
	if a[i] != b[i] {
		return i
	}
	return sameUpTo(a, b, i+1)
}

// shared is the text that c and the paths from i on start with.
func shared(c string, ps []string, i int, sep byte) string {
	if i < 0 || i >= len(ps) {
		return c
	}
	return shared(c[:sameUpTo(c, path.Clean(ps[i])+string(sep), 0)], ps, i+1, sep)
}

// lastAt is the last place at or before i that holds b, or -1.
func lastAt(s string, b byte, i int) int {
	if i < 0 || i >= len(s) {
		return -1
	}
	if s[i] == b {
		return i
	}
	return lastAt(s, b, i-1)
}

func dirPart(s string, sep byte) string {
	if lastAt(s, sep, len(s)-1) < 0 {
		return s
	}
	return s[:lastAt(s, sep, len(s)-1)]
}

// CommonPrefix is the deepest directory of all paths, with a separator.
func CommonPrefix(sep byte, ps []string) string {
	if len(ps) == 0 {
		return ""
	}
	if len(ps) == 1 {
		return strings.TrimSuffix(path.Dir(path.Clean(ps[0])), "/") + "/"
	}
	return dirPart(shared(path.Clean(ps[0])+string(sep), ps, 1, sep), sep) + "/"
}

// @ contract instructions.GetCommonPrefix
// @ prop C15
func GetCommonPrefixPost(sep byte, ps []string, psNil bool, r string) bool {
	return r == CommonPrefix(sep, ps)
}

// @ hint instructions.GetCommonPrefix
func commonHint2(sep byte, ps []string, c string, i int) bool {
	return Eq(shared(path.Clean(ps[0])+string(sep), ps, 1, sep), shared(c, ps, i+1, sep))
}

// @ hint instructions.GetCommonPrefix
func sameHint(sep byte, ps []string, c string, i, j int) bool {
	return sameUpTo(c, path.Clean(ps[j+1])+string(sep), 0) == sameUpTo(c, path.Clean(ps[j+1])+string(sep), i)
}

// @ hint instructions.GetCommonPrefix
func lastHint(sep byte, ps []string, c string, i int) bool {
	return lastAt(c, sep, len(c)-1) == lastAt(c, sep, i)
}

// @ hint instructions.GetCommonPrefix
func commonHint(sep byte, ps []string, c string, i int) bool {
	return Eq(shared(path.Clean(ps[0])+string(sep), ps, 1, sep), shared(c, ps, i, sep))
}

// outputOf is the entry with its output path decided.
func outputOf(yf YamlFile_, prefix string) YamlFile_ {
	if yf.OutputPath == "" {
		yf.OutputPath = strings.TrimPrefix(yf.Path, prefix)
		return yf
	}
	if path.Ext(yf.OutputPath) == "" {
		yf.OutputPath = path.Join(yf.OutputPath, path.Base(yf.Path))
	}
	return yf
}

// outputs decides the output paths of the entries from i on.
func outputs(h Heap[YamlFile_], ys []Ref, i int, prefix string) Heap[YamlFile_] {
	if i < 0 || i >= len(ys) {
		return h
	}
	return outputs(Put(h, ys[i], outputOf(h[ys[i]], prefix)), ys, i+1, prefix)
}

// filePaths are the paths of the entries from i on that are not standard input.
func filePaths(h Heap[YamlFile_], ys []Ref, i int) []string {
	if i < 0 || i >= len(ys) {
		return []string{}
	}
	if h[ys[i]].Path == "-" {
		return filePaths(h, ys, i+1)
	}
	return append([]string{h[ys[i]].Path}, filePaths(h, ys, i+1)...)
}

// @ contract instructions.Instructions.setOutputPath
// @ world
// @ prop C15
func setOutputPathPost(h Heap[Instructions_], hy Heap[YamlFile_], in Ref, hy1 Heap[YamlFile_]) bool {
	return Eq(hy1, outputs(hy, h[in].YamlFiles, 0, CommonPrefix('/', filePaths(hy, h[in].YamlFiles, 0))))
}

// @ hint instructions.Instructions.setOutputPath
func pathsHint(h Heap[Instructions_], hy Heap[YamlFile_], in Ref, p []string, i int) bool {
	return Eq(filePaths(hy, h[in].YamlFiles, 0), append(append([]string{}, p...), filePaths(hy, h[in].YamlFiles, i)...))
}

// @ hint instructions.Instructions.setOutputPath
func outputsHint(h Heap[Instructions_], hy0, hy Heap[YamlFile_], in Ref, i int) bool {
	return Eq(outputs(hy0, h[in].YamlFiles, 0, CommonPrefix('/', filePaths(hy0, h[in].YamlFiles, 0))),
		outputs(hy, h[in].YamlFiles, i, CommonPrefix('/', filePaths(hy0, h[in].YamlFiles, 0))))
}

// withCommon puts the common overlays before those of each entry from i on.
func withCommon(h Heap[YamlFile_], common []Ref, ys []Ref, i int) Heap[YamlFile_] {
	if i < 0 || i >= len(ys) {
		return h
	}
	return withCommon(Put(h, ys[i], addCommon(h[ys[i]], common)), common, ys, i+1)
}

func addCommon(yf YamlFile_, common []Ref) YamlFile_ {
	yf.Overlays = append(append([]Ref{}, common...), yf.Overlays...)
	return yf
}

// @ contract instructions.Instructions.addCommonOverlays
// @ world
// @ prop C09
func addCommonOverlaysPost(h Heap[Instructions_], hy Heap[YamlFile_], in Ref, hy1 Heap[YamlFile_]) bool {
	return Eq(hy1, withCommon(hy, h[in].CommonOverlays, h[in].YamlFiles, 0))
}

// @ hint instructions.Instructions.addCommonOverlays
func commonOverlaysHint(h Heap[Instructions_], hy0, hy Heap[YamlFile_], in Ref, i int) bool {
	return Eq(withCommon(hy0, h[in].CommonOverlays, h[in].YamlFiles, 0), withCommon(hy, h[in].CommonOverlays, h[in].YamlFiles, i))
}

// ---- what the output paths guarantee ----

// agree tells whether a and b have the same first n bytes.
func agree(a, b string, n int) bool {
	return n <= len(a) && n <= len(b) && Forall(0, n, func(i int) bool { return a[i] == b[i] })
}

// isPrefix tells whether b starts with a.
func isPrefix(a, b string) bool { return agree(a, b, len(a)) }

// @ lemma
// @ prop C15
func SameUpToLemma(a, b string, i int) {
	Requires(0 <= i && agree(a, b, i))
	Decreases(len(a) - i)
	Ensures(i <= sameUpTo(a, b, i) && agree(a, b, sameUpTo(a, b, i)))
	if i < len(a) && i < len(b) && a[i] == b[i] {
		SameUpToLemma(a, b, i+1)
	}
}

// withSep is a cleaned path with a separator at its end.
func withSep(p string, sep byte) string { return path.Clean(p) + string(sep) }

// SharedLemma: what the paths share is a beginning of each of them.
//
// @ lemma
// @ prop C15
func SharedLemma(c string, ps []string, i int, sep byte, j int) {
	Requires(0 <= i && i <= len(ps) && j < len(ps))
	Decreases(len(ps) - i)
	Ensures(isPrefix(shared(c, ps, i, sep), c))
	Ensures(Implies(i <= j, isPrefix(shared(c, ps, i, sep), withSep(ps[j], sep))))
	if i < len(ps) {
		SameUpToLemma(c, withSep(ps[i], sep), 0)
		SharedLemma(c[:sameUpTo(c, withSep(ps[i], sep), 0)], ps, i+1, sep, j)
	}
}

// @ lemma
// @ prop C15
func LastAtLemma(s string, b byte, i int, k int) {
	Requires(-1 <= i && i < len(s))
	Decreases(i + 1)
	Ensures(lastAt(s, b, i) <= i && Implies(0 <= lastAt(s, b, i), s[lastAt(s, b, i)] == b))
	Ensures(Implies(0 <= k && k <= i && s[k] == b, k <= lastAt(s, b, i)))
	if 0 <= i && s[i] != b {
		LastAtLemma(s, b, i-1, k)
	}
}

// absolute tells whether the paths from i on start with the separator.
func absolute(ps []string, i int, sep byte) bool {
	return i < 0 || i >= len(ps) || len(withSep(ps[i], sep)) > 0 && withSep(ps[i], sep)[0] == sep && absolute(ps, i+1, sep)
}

// @ lemma
// @ prop C15
func RootLemma(c string, ps []string, i int, sep byte) {
	Requires(0 <= i && i <= len(ps) && absolute(ps, i, sep) && len(c) > 0 && c[0] == sep)
	Decreases(len(ps) - i)
	Ensures(len(shared(c, ps, i, sep)) > 0 && shared(c, ps, i, sep)[0] == sep)
	if i < len(ps) {
		SameUpToLemma(c, withSep(ps[i], sep), 1)
		RootLemma(c[:sameUpTo(c, withSep(ps[i], sep), 0)], ps, i+1, sep)
	}
}

// PrefixLemma: the common prefix of absolute paths is a beginning of each of
// them (with a separator at its end).
//
// @ lemma
// @ prop C15
func PrefixLemma(ps []string, j int) {
	Requires(len(ps) >= 2 && 0 <= j && j < len(ps) && absolute(ps, 0, '/'))
	Ensures(isPrefix(CommonPrefix('/', ps), withSep(ps[j], '/')))
	SharedLemma(withSep(ps[0], '/'), ps, 1, '/', j)
	RootLemma(withSep(ps[0], '/'), ps, 1, '/')
	LastAtLemma(shared(withSep(ps[0], '/'), ps, 1, '/'), '/', len(shared(withSep(ps[0], '/'), ps, 1, '/'))-1, 0)
}

// trimmed is what strings.TrimPrefix is taken to do.
func trimmed(s, p string) string {
	if isPrefix(p, s) {
		return s[len(p):]
	}
	return s
}

// DistinctLemma: two clean, absolute input files, neither of them above the
// other, get different outputs.
//
// @ lemma
// @ prop C15
func DistinctLemma(ps []string, i, j int) {
	Requires(len(ps) >= 2 && 0 <= i && i < len(ps) && 0 <= j && j < len(ps) && absolute(ps, 0, '/'))
	Requires(path.Clean(ps[i]) == ps[i] && path.Clean(ps[j]) == ps[j])
	Requires(!isPrefix(ps[i]+"/", ps[j]+"/") && !isPrefix(ps[j]+"/", ps[i]+"/"))
	Requires(strings.TrimPrefix(ps[i], CommonPrefix('/', ps)) == trimmed(ps[i], CommonPrefix('/', ps)))
	Requires(strings.TrimPrefix(ps[j], CommonPrefix('/', ps)) == trimmed(ps[j], CommonPrefix('/', ps)))
	Ensures(strings.TrimPrefix(ps[i], CommonPrefix('/', ps)) != strings.TrimPrefix(ps[j], CommonPrefix('/', ps)))
	PrefixLemma(ps, i)
	PrefixLemma(ps, j)
	Assert(isPrefix(CommonPrefix('/', ps), ps[i]+"/") && isPrefix(CommonPrefix('/', ps), ps[j]+"/"))
	Assert(Implies(len(CommonPrefix('/', ps)) > len(ps[i]), isPrefix(ps[i]+"/", CommonPrefix('/', ps))))
	Assert(Implies(len(CommonPrefix('/', ps)) > len(ps[i]), isPrefix(ps[i]+"/", ps[j]+"/")))
	Assert(Implies(len(CommonPrefix('/', ps)) > len(ps[j]), isPrefix(ps[j]+"/", CommonPrefix('/', ps))))
	Assert(Implies(len(CommonPrefix('/', ps)) > len(ps[j]), isPrefix(ps[j]+"/", ps[i]+"/")))
	Assert(isPrefix(CommonPrefix('/', ps), ps[i]))
	Assert(isPrefix(CommonPrefix('/', ps), ps[j]))
	Assert(ps[i] == CommonPrefix('/', ps)+ps[i][len(CommonPrefix('/', ps)):])
	Assert(ps[j] == CommonPrefix('/', ps)+ps[j][len(CommonPrefix('/', ps)):])
	Assert(ps[i] != ps[j])
}

// ---- files listed several times ----

// Files are file entries and the objects they refer to.
type Files struct {
	H Heap[YamlFile_]
	L []Ref
}

// joined is entry a with what entry b lists added.
func joined(a, b YamlFile_) YamlFile_ {
	a.Overlays = append(append([]Ref{}, a.Overlays...), b.Overlays...)
	a.Documents = append(append([]Ref{}, a.Documents...), b.Documents...)
	if b.OutputPath != "" {
		a.OutputPath = b.OutputPath
	}
	return a
}

// merged adds the entries of rest to out, joining those of one path into the
// first of them; first holds the first entry of each path before.
func merged(h Heap[YamlFile_], out, rest []Ref, first map[string]Ref) Files {
	if len(rest) == 0 {
		return Files{h, out}
	}
	if first[h[rest[0]].Path] == 0 {
		return merged(h, append(append([]Ref{}, out...), rest[0]), rest[1:], PutKey(first, h[rest[0]].Path, rest[0]))
	}
	return merged(Put(h, first[h[rest[0]].Path], joined(h[first[h[rest[0]].Path]], h[rest[0]])), out, rest[1:], first)
}

// Joined are the entries of a list, those of one path joined.
func Joined(h Heap[YamlFile_], ys []Ref) Files {
	return merged(h, []Ref{}, ys, map[string]Ref{})
}

// @ contract instructions.YamlFiles.mergeDuplicates
// @ world
// @ prop C14
func mergeDuplicatesPost(h Heap[YamlFile_], ys []Ref, h1 Heap[YamlFile_], ys1 []Ref) bool {
	return Eq(Files{h1, ys1}, Joined(h, ys))
}

// @ hint instructions.YamlFiles.mergeDuplicates
func mergeDuplicatesHint(h0, h Heap[YamlFile_], ys0, cur []Ref, i int, first map[string]Ref) bool {
	return Eq(Joined(h0, ys0), merged(h, cur[:i], cur[i:], first))
}

// @ hint instructions.YamlFiles.mergeDuplicates
func mergeDuplicatesListHint(h0, h Heap[YamlFile_], ys0, l []Ref, i int, first map[string]Ref) bool {
	return Eq(Joined(h0, ys0), merged(h, l, ys0[i:], first))
}

// ---- directories ----

// StatInfo and StatErr are the results of os.Stat.
//
// @ result os.Stat 0
func StatInfo(w World, p string) any { unspecified(); return nil }

// @ result os.Stat 1
func StatErr(w World, p string) error { unspecified(); return nil }

// InfoIsDir tells whether file information is that of a directory.
//
// @ result (io/fs.FileInfo).IsDir 0
func InfoIsDir(w World, info any) bool { unspecified(); return false }

// @ contract instructions.isDirectory
// @ world
// @ prop C14 C17
func isDirectoryPost(w World, p string, r bool, err error) bool {
	return Iff(err != nil, StatErr(w, p) != nil) && Implies(err == nil, r == InfoIsDir(w, StatInfo(w, p)))
}

// A walk of a directory: how many entries it visits, and what it tells of each.
//
// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifshim.WalkCount 0
func WalkCount(w World, root string) int { unspecified(); return 0 }

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifshim.WalkPath 0
func WalkPath(w World, root string, k int) string { unspecified(); return "" }

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifshim.WalkInfo 0
func WalkInfo(w World, root string, k int) any { unspecified(); return nil }

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifshim.WalkError 0
func WalkError(w World, root string, k int) error { unspecified(); return nil }

// @ result github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifshim.WalkAfter 0
func WalkAfter(w World, root string, k int) int { unspecified(); return 0 }

// SkipAll is fs.SkipAll.
var SkipAll = errors.New("SkipAll")

// SkipDir is fs.SkipDir.
var SkipDir = errors.New("SkipDir")

// @ axiom WalkError
func walkErrorIs(w World, root string, k int) bool {
	return WalkError(w, root, k) != SkipAll && WalkError(w, root, k) != SkipDir
}

// walked are the files with the ending of YAML files among the entries from k
// on.
func walked(w World, p string, k int) []string {
	if k < 0 || k >= WalkCount(w, p) {
		return []string{}
	}
	if !InfoIsDir(w, WalkInfo(w, p, k)) && (path.Ext(WalkPath(w, p, k)) == ".yaml" || path.Ext(WalkPath(w, p, k)) == ".yml") {
		return append([]string{WalkPath(w, p, k)}, walked(w, p, k+1)...)
	}
	return walked(w, p, k+1)
}

// walkFails tells whether one of the entries from k on could not be read.
func walkFails(w World, p string, k int) bool {
	if k < 0 || k >= WalkCount(w, p) {
		return false
	}
	return WalkError(w, p, k) != nil || walkFails(w, p, k+1)
}

// FileNames are the YAML files in a directory.
//
// @ uninterpreted
func FileNames(w World, p string) []string { return walked(w, p, 0) }

// @ axiom FileNames
func fileNamesIs(w World, p string) bool {
	Trigger(WalkCount(w, p))
	return Eq(FileNames(w, p), walked(w, p, 0))
}

// FileNamesFail tells whether they cannot be found out.
//
// @ uninterpreted
func FileNamesFail(w World, p string) bool { return walkFails(w, p, 0) }

// @ axiom FileNamesFail
func fileNamesFailIs(w World, p string) bool {
	Trigger(WalkCount(w, p))
	return FileNamesFail(w, p) == walkFails(w, p, 0)
}

// @ contract instructions.getFileNames
// @ prop C14 C17
// @ world
func getFileNamesPost(w World, p string, r []string, err error) bool {
	return Iff(err != nil, FileNamesFail(w, p)) && Implies(err == nil, Eq(r, FileNames(w, p)))
}

// @ hint instructions.getFileNames
func walkedHint(w World, p string, out []string, k int) bool {
	return 0 <= k && Eq(append(append([]string{}, out...), walked(w, p, k)...), walked(w, p, 0)) && walkFails(w, p, k) == walkFails(w, p, 0)
}

// NewFile is the object the next new file entry gets.
//
// @ alloc instructions.YamlFile
func NewFile(w World) Ref { unspecified(); return 0 }

// @ allocw instructions.YamlFile
func NewFileW(w World) World { unspecified(); return w }

// Expanded is the outcome of replacing directories by their files.
type Expanded struct {
	W World
	H Heap[YamlFile_]
	L []Ref
	E bool
}

// placed is an entry with its path decided.
func placed(w World, yf YamlFile_) YamlFile_ {
	if path.IsAbs(yf.Path) {
		yf.Path = path.Clean(yf.Path)
		return yf
	}
	yf.Path = path.Clean(path.Join(Setting(w, "instructionsDir"), yf.Path))
	return yf
}

// filesOf adds entries like dir for the paths from i on to a list.
func filesOf(w World, h Heap[YamlFile_], dir Ref, paths []string, i int, l []Ref) Expanded {
	if i < 0 || i >= len(paths) {
		return Expanded{w, h, l, false}
	}
	return filesOf(NewFileW(w), Put(h, NewFile(w), fileOf(h[dir], paths[i])), dir, paths, i+1, append(append([]Ref{}, l...), NewFile(w)))
}

func fileOf(dir YamlFile_, p string) YamlFile_ {
	return YamlFile_{Name: dir.Name, Overlays: dir.Overlays, Documents: dir.Documents, Path: p, OutputPath: dir.OutputPath}
}

// expanded adds the entries of rest to out, the files below them for
// directories.
func expanded(w World, h Heap[YamlFile_], out, rest []Ref) Expanded {
	if len(rest) == 0 {
		return Expanded{w, h, out, false}
	}
	if h[rest[0]].Path == "-" {
		return expanded(w, h, append(append([]Ref{}, out...), rest[0]), rest[1:])
	}
	return expandedAt(w, Put(h, rest[0], placed(w, h[rest[0]])), out, rest)
}

func expandedAt(w World, h Heap[YamlFile_], out, rest []Ref) Expanded {
	if StatErr(w, h[rest[0]].Path) != nil {
		return Expanded{w, h, out, true}
	}
	if !InfoIsDir(w, StatInfo(w, h[rest[0]].Path)) {
		return expanded(w, h, append(append([]Ref{}, out...), rest[0]), rest[1:])
	}
	if path.Ext(h[rest[0]].OutputPath) != "" || FileNamesFail(w, h[rest[0]].Path) {
		return Expanded{w, h, out, true}
	}
	return expandedIn(filesOf(w, h, rest[0], FileNames(w, h[rest[0]].Path), 0, out), rest)
}

func expandedIn(files Expanded, rest []Ref) Expanded {
	return expanded(files.W, files.H, files.L, rest[1:])
}

// ExpandedOf are the entries of a list with directories replaced by the files
// below them.
func ExpandedOf(w World, h Heap[YamlFile_], ys []Ref) Expanded {
	return expanded(w, h, []Ref{}, ys)
}

// @ contract instructions.YamlFiles.expandDirectories
// @ world
// @ prop C14 C17
func expandDirectoriesPost(w World, h Heap[YamlFile_], ys []Ref, w1 World, h1 Heap[YamlFile_], ys1 []Ref, err error) bool {
	e := ExpandedOf(w, h, ys)
	return Iff(err != nil, e.E) && Implies(err == nil, Eq(Expanded{w1, h1, ys1, false}, e))
}

// @ hint instructions.YamlFiles.expandDirectories
func expandHint(w0, w World, h0, h Heap[YamlFile_], ys0, cur []Ref, i int) bool {
	return Eq(ExpandedOf(w0, h0, ys0), expanded(w, h, cur[:i], cur[i:]))
}

// @ hint instructions.YamlFiles.expandDirectories
func expandListHint(w0, w World, h0, h Heap[YamlFile_], ys0, l []Ref, i int) bool {
	return Eq(ExpandedOf(w0, h0, ys0), expanded(w, h, l, ys0[i:]))
}

// @ hint instructions.YamlFiles.expandDirectories
func filesHint(w0, w World, h0, h Heap[YamlFile_], ys0, cur []Ref, i int, paths []string, j int, l []Ref) bool {
	return Eq(expandedIn(filesOf(w, h, cur[i], paths, j, append(append([]Ref{}, cur[:i]...), l...)), cur[i:]), ExpandedOf(w0, h0, ys0))
}

// @ hint instructions.YamlFiles.expandDirectories
func filesListHint(w0, w World, h0, h Heap[YamlFile_], ys0, l []Ref, i int, paths []string, j int) bool {
	return Eq(expandedIn(filesOf(w, h, ys0[i], paths, j, l), ys0[i:]), ExpandedOf(w0, h0, ys0))
}

// @ hint instructions.YamlFiles.expandDirectories
func filesCount(l []Ref, j int) bool {
	return len(l) == j
}
