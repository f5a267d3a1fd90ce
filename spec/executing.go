//go:build go1.21

package verifspec

// ---- runs ----

// StreamMade is the channel that a new stream of workloads gets.
//
// @ makechan workload
func StreamMade(w World) Ref { unspecified(); return 0 }

// FilesMade is the channel for the files that were processed.
//
// @ makechan YamlFile
func FilesMade(w World) Ref { unspecified(); return 0 }

// @ send YamlFile
func FileSent(w World, ch, y Ref) World { unspecified(); return w }

// @ close YamlFile
func FilesClosed(w World, ch Ref) World { unspecified(); return w }

// processed is what becomes of a file: its overlays are queued and handled.
func processed(w World, h Heap[Overlay_], hd Heap[Document_], hq Heap[DocumentQuery_], hc Heap[Condition_], y YamlFile_) Out {
	return Handle(Closed(queueDocs(w, h, hd, StreamMade(w), y, 0), StreamMade(w)), h, hq, hc, StreamMade(w))
}

// processAll processes the files from i on, up to the first failure, and hands
// each on.
func processAll(w World, h Heap[Overlay_], hd Heap[Document_], hq Heap[DocumentQuery_], hc Heap[Condition_], hy Heap[YamlFile_], ch Ref, ys []Ref, i int) Out {
	if i < 0 || i >= len(ys) {
		return Out{w, false}
	}
	return andThenProcess(processed(w, h, hd, hq, hc, hy[ys[i]]), h, hd, hq, hc, hy, ch, ys, i)
}

func andThenProcess(r Out, h Heap[Overlay_], hd Heap[Document_], hq Heap[DocumentQuery_], hc Heap[Condition_], hy Heap[YamlFile_], ch Ref, ys []Ref, i int) Out {
	if r.E {
		return r
	}
	return processAll(FileSent(r.W, ch, ys[i]), h, hd, hq, hc, hy, ch, ys, i+1)
}

// gotten are the instructions of a run.
func gotten(w World, h Heap[YamlFile_], cfg Config_, o Ref) Got {
	return withOverlay(withPath(begun(w, h, cfg), cfg.Path), cfg, o)
}

// ran is a run with instructions.
func ran(g Got, h Heap[Overlay_], hd Heap[Document_], hq Heap[DocumentQuery_], hc Heap[Condition_]) Out {
	return written(processAll(g.W, h, hd, hq, hc, g.H, FilesMade(g.W), g.I.YamlFiles, 0), g.H, FilesMade(g.W))
}

func written(r Out, h Heap[YamlFile_], ch Ref) Out {
	if r.E {
		return r
	}
	return EmitAll(FilesClosed(r.W, ch), h, ch)
}

// @ contract instructions.Execute
// @ noterm
// @ sets
// @ world
// @ prop C09 C14 C16 C17
func executePost(w World, h Heap[Overlay_], hd Heap[Document_], hq Heap[DocumentQuery_], hc Heap[Condition_], hf Heap[Config_], hi Heap[Instructions_], hy Heap[YamlFile_], hs Heap[WorkStream_], cfg Ref, err error, w1 World, hf1 Heap[Config_], hi1 Heap[Instructions_], hy1 Heap[YamlFile_], hs1 Heap[WorkStream_]) bool {
	g := gotten(w, hy, hf[cfg], OverlayOf(cfg))
	r := ran(finished(g.W, g.H, g.I), h, hd, hq, hc)
	return Iff(err != nil, g.E || r.E) && Implies(err == nil, Eq(w1, r.W))
}

// @ hint instructions.Execute
func executeHint(w0, w World, h Heap[Overlay_], hd Heap[Document_], hq Heap[DocumentQuery_], hc Heap[Condition_], hf0 Heap[Config_], hi0, hi Heap[Instructions_], hy0, hy Heap[YamlFile_], cfg, r Ref, failed error, i int) bool {
	g := gotten(w0, hy0, hf0[cfg], OverlayOf(cfg))
	f := finished(g.W, g.H, g.I)
	return 0 <= i && Implies(failed == nil, Eq(processAll(f.W, h, hd, hq, hc, f.H, FilesMade(f.W), f.I.YamlFiles, 0), processAll(w, h, hd, hq, hc, f.H, FilesMade(f.W), f.I.YamlFiles, i))) &&
		Implies(failed != nil, processAll(f.W, h, hd, hq, hc, f.H, FilesMade(f.W), f.I.YamlFiles, 0).E)
}

// @ hint instructions.Execute
func executeEmitHint(w0, w World, h Heap[Overlay_], hd Heap[Document_], hq Heap[DocumentQuery_], hc Heap[Condition_], hf0 Heap[Config_], hy0, hy Heap[YamlFile_], cfg Ref, failed error) bool {
	g := gotten(w0, hy0, hf0[cfg], OverlayOf(cfg))
	f := finished(g.W, g.H, g.I)
	return Implies(failed == nil, Eq(ran(f, h, hd, hq, hc), EmitAll(w, f.H, FilesMade(f.W))))
}
