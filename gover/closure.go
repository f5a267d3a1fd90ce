package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Function values of a type with a relation "builds(f, e)": each call of f
// gives a new tree that stands for e. The relation is only assumed of a value
// whose body is verified, where the value is made, to give such a tree; a call
// of an unknown value gives a tree that stands for whatever the value builds.

type buildsSpec struct {
	builds, stands *SpecFn
}

func (s *Spec) buildsOf(t types.Type, pkg *ssa.Package) *buildsSpec {
	if pkg == nil {
		return nil
	}
	for n, b := range s.builds {
		p, tn, _ := strings.Cut(n, ".")
		if p != pkg.Pkg.Name() || b.builds == nil || b.stands == nil {
			continue
		}
		o := pkg.Pkg.Scope().Lookup(tn)
		if o != nil && types.Identical(o.Type().Underlying(), t.Underlying()) {
			return b
		}
	}
	return nil
}

// made is called where function value c, whose identity is t, becomes a value:
// its body is verified to build the plan of the unit.
func (x *Exec) made(st *State, c *Clo, t *Term) {
	if x.con == nil || x.con.plan == nil {
		return
	}
	b := x.spec.buildsOf(c.fn.Signature, c.fn.Pkg)
	if b == nil {
		return
	}
	e := x.evalSpec(x.con, x.con.plan, st, x.entry, nil)
	if x.quiet == 0 {
		x.stable(st, c)
		x.bodyBuilds(st, c, b, e)
	}
	x.spec.ensureAxioms(b.builds)
	st.assume(x.spec.apply(b.builds, []*Term{t, e}, nil))
}

// bodyBuilds verifies the body of c: with the variables it has now, and
// nothing else that can change, a call gives a new tree that stands for e, and
// changes nothing.
func (x *Exec) bodyBuilds(st0 *State, c *Clo, b *buildsSpec, e *Term) {
	if x.inClosure {
		panic(unsupported("a function value made by a function value"))
	}
	st := st0.clone()
	fr := x.newFrame(c.fn, nil)
	for i, v := range c.fn.FreeVars {
		fr.vals[v] = c.binds[i]
	}
	st.frames = []*Frame{fr}
	tree, mode, ctx, path, visits, cur := x.tree, treeMode, x.ctx, x.path, x.visits, x.cur
	x.tree, treeMode, x.ctx, x.path, x.visits, x.inClosure = true, true, nil, x.path+"@"+c.fn.Name(), map[string]int{}, true
	if x.surv == nil {
		x.surv = map[string]map[string]bool{}
	}
	defer func() {
		x.tree, treeMode, x.ctx, x.path, x.visits, x.cur = tree, mode, ctx, path, visits, cur
		x.inClosure, x.onEnd = false, nil
	}()
	x.onEnd = func(s *State, res Value, p token.Pos) {
		if x.quiet > 0 {
			return
		}
		for k, v := range st0.cells {
			if !equalVal(s.cells[k], v) || s.moved[k] != st0.moved[k] {
				panic(unsupported("a function value that changes a variable"))
			}
		}
		for k, h := range s.heap {
			if o := st0.heap[k]; o != nil && o != h {
				panic(unsupported("a function value that changes an object"))
			}
		}
		if s.world != st0.world {
			panic(unsupported("a function value with an effect"))
		}
		l, ok := res.(*Loc)
		if !ok || l.cell == nil || len(l.path) > 0 {
			panic(unsupported("the tree that a function value gives"))
		}
		if _, old := st0.cells[l.cell]; old {
			panic(unsupported("a function value that gives an old tree"))
		}
		x.spec.ensureAxioms(b.stands)
		o := len(x.obls)
		x.addObl(s, x.spec.apply(b.stands, []*Term{x.toTerm(s, res, SNode), e}, nil), "postcondition", "the function value builds "+x.con.plan.Name, p)
		for ; o < len(x.obls); o++ {
			x.obls[o].Props = props(x.con.posts[0])
		}
	}
	x.run(st)
}

// stable checks that nothing changes what c reads after it was made.
func (x *Exec) stable(st *State, c *Clo) {
	bound := map[*Cell]bool{}
	slices := false
	for _, b := range c.binds {
		l, ok := b.(*Loc)
		if !ok || l.cell == nil || len(l.path) > 0 {
			panic(unsupported("variable of a function value"))
		}
		bound[l.cell] = true
		switch st.cells[l.cell].(type) {
		case *SliceVal:
			slices = true
		case *Term:
		default:
			panic(unsupported("variable of a function value"))
		}
	}
	for _, f := range st.frames {
		for _, in := range instrsAfter(f.block, f.ip) {
			switch i := in.(type) {
			case *ssa.Store:
				if l, ok := f.vals[i.Addr].(*Loc); ok && l.cell != nil && bound[l.cell] {
					panic(unsupported("a variable of a function value that changes later"))
				}
				if _, ok := i.Addr.(*ssa.IndexAddr); ok && slices {
					panic(unsupported("a list of a function value that may change later"))
				}
			case ssa.CallInstruction:
				for _, a := range i.Common().Args {
					if _, ok := a.Type().Underlying().(*types.Slice); ok && slices {
						panic(unsupported("a list of a function value that may change later"))
					}
				}
			}
		}
	}
}

// instrsAfter are the instructions that can run from instruction ip of a block
// on.
func instrsAfter(b *ssa.BasicBlock, ip int) []ssa.Instruction {
	out := append([]ssa.Instruction{}, b.Instrs[ip:]...)
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				out = append(out, s.Instrs...)
				visit(s)
			}
		}
	}
	visit(b)
	return out
}

// readable checks that a function value may read a field of an object: the
// field is only set where its objects are made.
func (x *Exec) readable(l *Loc) {
	if l.heap == SNode && l.ref.Sort == SNode {
		return
	}
	if len(l.path) == 0 || l.path[0].idx != nil || !x.setOnce(l.heap, l.path[0].field) {
		panic(unsupported("a function value that reads what may change"))
	}
}

func (x *Exec) setOnce(s Sort, field string) bool {
	pkg := x.con.fn.Pkg
	tn, ok := pkg.Members[s].(*ssa.Type)
	if !ok || sortOf(tn.Type()) != s {
		return false
	}
	t := tn.Type()
	st := t.Underlying().(*types.Struct)
	for fn := range pkgFuncs(pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.FieldAddr:
					if !types.Identical(derefType(i.X.Type()), t) || st.Field(i.Field).Name() != field {
						continue
					}
					a, isNew := i.X.(*ssa.Alloc)
					for _, r := range *i.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != i || !isNew || a.Block() != r.Block() {
								return false
							}
						default:
							return false
						}
					}
				case *ssa.Store:
					if _, isNew := i.Addr.(*ssa.Alloc); types.Identical(i.Val.Type(), t) && !isNew {
						return false
					}
				}
			}
		}
	}
	return true
}

// callBuilds calls a function value that is not known.
func (x *Exec) callBuilds(st *State, b *buildsSpec, f *Term, typ types.Type, p token.Pos) Value {
	if !x.tree {
		panic(unsupported("call of a function value"))
	}
	x.note("calls of function values end: each only calls values that were made before it")
	e := Const(sortOf(b.builds.Sig.Params().At(1).Type()), "qplan")
	x.spec.ensureAxioms(b.builds)
	x.spec.ensureAxioms(b.stands)
	// of a variable, so that the solver finds it for a value equal to f, too
	g := Const(SInt, "qfun")
	rel := x.spec.apply(b.builds, []*Term{g, e}, nil)
	isF := And(rel, Eq(g, f))
	// nil builds nothing
	st.assume(mkQuant("forall", []*Term{g, e}, [][]*Term{{rel}}, Implies(rel, Not(Eq(g, Int(0))))))
	x.oblige(st, Not(Eq(f, Int(0))), "nil", "the function called is not nil", p)
	c := x.newCell("built", derefType(typ))
	c.owned = true
	m := Fresh(SNode, "built")
	st.cells[c] = m
	st.assume(mkQuant("forall", []*Term{g, e}, [][]*Term{{rel}}, Implies(isF, x.spec.apply(b.stands, []*Term{m, e}, nil))))
	return &Loc{cell: c}
}

func (s *Spec) buildsEntry(k string) *buildsSpec {
	if s.builds == nil {
		s.builds = map[string]*buildsSpec{}
	}
	if s.builds[k] == nil {
		s.builds[k] = &buildsSpec{}
	}
	return s.builds[k]
}
