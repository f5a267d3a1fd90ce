package main

// verifyLemma proves a lemma of the specification: its body is the proof, a
// call of a lemma (itself included, on a smaller argument) assumes what that
// lemma ensures.
func (x *Exec) verifyLemma(c *Contract) {
	save := treeMode
	treeMode = false
	provingLemma = true
	defer func() { treeMode = save; provingLemma = false }()
	x.unit = c.key
	f := c.lemma
	req, ens, _ := x.spec.lemmaParts(f, nil)
	e := &senv{s: x.spec, fn: f, vars: x.spec.lemmaVars(f, nil)}
	known := append([]*Term(nil), req...)
	e.onAssert = func(t *Term, what string) {
		x.addOblPC(append([]*Term(nil), known...), t, "lemma", what, f.Decl.Pos())
	}
	e.onAssume = func(t *Term) {
		if t.Op == "and" {
			known = append(known, t.Args...)
		} else {
			known = append(known, t)
		}
	}
	e.stmts(f.Decl.Body.List)
	for _, t := range ens {
		e.onAssert(t, "the lemma "+f.Name)
	}
	x.ends = 1
	for _, o := range x.obls {
		o.Props = props(f)
		o.Pos = ""
	}
}
