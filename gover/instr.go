package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ptr turns a pointer value into a location of the type it points to.
func (x *Exec) ptr(st *State, v Value, t types.Type, p token.Pos) *Loc {
	switch u := v.(type) {
	case *Loc:
		return u
	case *Term:
		el := derefType(t)
		if u.lit && u.n == 0 {
			x.oblige(st, False, "nil", "nil pointer dereference", p)
			return &Loc{heap: sortOf(el), ref: u}
		}
		if a := addrOf(u); a != nil {
			return a
		}
		return &Loc{heap: sortOf(el), ref: u}
	case NilPtr:
		x.oblige(st, False, "nil", "nil pointer dereference", p)
		panic(unsupported("nil dereference"))
	case *ssa.Global:
		return x.global(st, u)
	}
	panic(unsupported(fmt.Sprintf("pointer %T", v)))
}

// addrOf inverts addrTerm.
func addrOf(t *Term) *Loc { return nil }

// initOf is the value of a package variable that only its declaration sets, to
// a constant or a regular expression.
func (x *Exec) initOf(g *ssa.Global) *Term {
	var init *ssa.Store
	for fn := range pkgFuncs(g.Pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, isStore := in.(*ssa.Store)
				if isStore && s.Addr == g {
					if init != nil || fn != g.Pkg.Func("init") {
						return nil
					}
					init = s
					continue
				}
				// its address must not leave
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
							return nil
						}
					}
				}
			}
		}
	}
	if init == nil || g.Object() != nil && g.Object().Exported() {
		return nil
	}
	switch v := init.Val.(type) {
	case *ssa.Const:
		if t, ok := x.constVal(v).(*Term); ok {
			return t
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && fullName(f) == "regexp.MustCompile" {
			if c, ok := v.Call.Args[0].(*ssa.Const); ok {
				if t, ok := x.constVal(c).(*Term); ok && isStrLit(t) {
					return mk(SInt, "regexp", t)
				}
			}
		}
	}
	return nil
}

// global is the cell of a package variable.
func (x *Exec) global(st *State, g *ssa.Global) *Loc {
	for c := range st.cells {
		if c.name == "g_"+g.RelString(nil) {
			return &Loc{cell: c}
		}
	}
	t := derefType(g.Type())
	c := x.newCell("g_"+g.RelString(nil), t)
	switch {
	case sortOf(t) == SErr:
		st.cells[c] = globalConst(SErr, g.Name())
	case x.initOf(g) != nil:
		st.cells[c] = x.initOf(g)
	default:
		st.cells[c] = Const(sortOf(t), "g_"+clean(g.RelString(nil)))
		x.note("package variable " + g.Name() + " is an unspecified constant")
	}
	return &Loc{cell: c}
}

// index evaluates the element location of a slice or array.
func (x *Exec) elemLoc(st *State, base Value, i *Term, p token.Pos) (*Loc, *SliceVal) {
	switch b := base.(type) {
	case *SliceVal:
		n := Sub(b.hi, b.lo)
		x.oblige(st, And(Le(Int(0), i), Lt(i, n)), "bounds", "index in range", p)
		x.checkFresh(st, b)
		if b.loc == nil {
			return nil, b
		}
		return b.loc.sub(step{idx: Add(b.lo, i)}), b
	case *Loc: // pointer to array
		if a, ok := x.rootVal(st, b).(Arr); ok && len(b.path) == 0 {
			x.oblige(st, And(Le(Int(0), i), Lt(i, Int(int64(len(a))))), "bounds", "index in range", p)
		}
		return b.sub(step{idx: i}), nil
	}
	panic(unsupported(fmt.Sprintf("index of %T", base)))
}

// snapElem is the address of an element of an immutable slice.
type snapElem struct {
	s *SliceVal
	i *Term
}

func (x *Exec) instr(st *State, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		if x.namedAlloc(i) {
			x.set(st, i, &pendingAlloc{i})
		} else {
			x.set(st, i, x.alloc(st, i))
		}
	case *ssa.Store:
		a := x.val(st, i.Addr)
		v := x.val(st, i.Val)
		if _, ok := a.(*snapElem); ok {
			panic(unsupported("store into an immutable slice"))
		}
		x.store(st, x.ptr(st, a, i.Addr.Type(), i.Pos()), v)
	case *ssa.UnOp:
		x.set(st, i, x.unop(st, i))
	case *ssa.BinOp:
		x.set(st, i, x.binop(st, i))
	case *ssa.FieldAddr:
		base := x.val(st, i.X)
		stt := derefType(i.X.Type()).Underlying().(*types.Struct)
		l := x.ptr(st, base, i.X.Type(), i.Pos())
		x.set(st, i, l.sub(step{field: stt.Field(i.Field).Name()}))
	case *ssa.Field:
		stt := i.X.Type().Underlying().(*types.Struct)
		f := stt.Field(i.Field)
		t := x.toTerm(st, x.val(st, i.X), "")
		r := x.fromTerm(st, Field(t, f.Name()), f.Type(), nil)
		if sv, ok := r.(*SliceVal); ok {
			if d := adts[t.Sort]; d.idx(f.Name()+"__nil") >= 0 {
				sv.nilT = Field(t, f.Name()+"__nil")
				if sv.nilT != False {
					st.assume(Implies(sv.nilT, Eq(SeqLen(Field(t, f.Name())), Int(0))))
				}
			}
		}
		x.set(st, i, r)
	case *ssa.IndexAddr:
		base := x.val(st, i.X)
		idx := x.val(st, i.Index).(*Term)
		if c, ok := base.(*ssa.Global); ok {
			base = x.global(st, c)
		}
		l, s := x.elemLoc(st, base, idx, i.Pos())
		if l == nil {
			x.set(st, i, &snapElem{s, Add(s.lo, idx)})
		} else {
			x.set(st, i, l)
		}
	case *ssa.Index:
		base := x.val(st, i.X)
		idx := x.val(st, i.Index).(*Term)
		switch b := base.(type) {
		case *Term:
			x.oblige(st, And(Le(Int(0), idx), Lt(idx, SeqLen(b))), "bounds", "index in range", i.Pos())
			x.set(st, i, SeqNthR(b, idx))
		case Arr:
			if !idx.lit {
				panic(unsupported("symbolic array index"))
			}
			x.set(st, i, b[idx.n])
		default:
			panic(unsupported("index"))
		}
	case *ssa.Lookup:
		x.set(st, i, x.lookup(st, i))
	case *ssa.Slice:
		x.set(st, i, x.slice(st, i))
	case *ssa.MakeSlice:
		x.set(st, i, x.makeSlice(st, i))
	case *ssa.MakeMap:
		c := x.newCell("map", i.Type())
		c.owned = true
		m := i.Type().Underlying().(*types.Map)
		ms := mapSort(sortOf(m.Key()), sortOf(m.Elem()))
		zv := x.toTerm(st, x.zero(m.Elem()), sortOf(m.Elem()))
		st.cells[c] = Make(ms, ConstArr(adts[ms].Sorts[0], zv), ConstArr(adts[ms].Sorts[1], False))
		x.set(st, i, &MapVal{cell: c})
	case *ssa.MapUpdate:
		m, ok := x.val(st, i.Map).(*MapVal)
		if !ok || m.cell == nil || m.shared {
			panic(unsupported("map update"))
		}
		t := st.cells[m.cell].(*Term)
		mt := i.Map.Type().Underlying().(*types.Map)
		k := x.toTerm(st, x.val(st, i.Key), sortOf(mt.Key()))
		v := x.toTerm(st, x.val(st, i.Value), sortOf(mt.Elem()))
		st.cells[m.cell] = Make(t.Sort, Store(Field(t, "val"), k, v), Store(Field(t, "dom"), k, True))
	case *ssa.MakeInterface:
		v := x.val(st, i.X)
		if sortOf(i.Type()) == SErr {
			x.set(st, i, mk(SErr, "errOf_"+clean(i.X.Type().String()), x.toTerm(st, v, "")))
			return
		}
		x.set(st, i, &IfaceVal{typ: i.X.Type(), v: v})
	case *ssa.ChangeInterface:
		x.set(st, i, x.val(st, i.X))
	case *ssa.ChangeType:
		x.set(st, i, x.val(st, i.X))
	case *ssa.Convert:
		x.set(st, i, x.convert(st, i))
	case *ssa.TypeAssert:
		x.set(st, i, x.typeAssert(st, i))
	case *ssa.Extract:
		t, ok := x.val(st, i.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract"))
		}
		x.set(st, i, t[i.Index])
	case *ssa.MakeClosure:
		c := &Clo{fn: i.Fn.(*ssa.Function), made: i}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, x.val(st, b))
		}
		x.set(st, i, c)
	case *ssa.MakeChan:
		if el, n := queueElem(i.Type()); n > 0 {
			x.oblige(st, Eq(x.val(st, i.Size).(*Term), Int(int64(n))), "capacity", "the channel has the capacity that is assumed", i.Pos())
			if usesGo(i.Parent().Pkg) {
				panic(unsupported("a queue in a package that starts goroutines"))
			}
			stores := 0
			for _, r := range *i.Referrers() {
				switch r.(type) {
				case *ssa.Store:
					stores++
				case *ssa.DebugRef:
				default:
					stores = 2
				}
			}
			if stores != 1 {
				panic(unsupported("a queue that is not held by one field"))
			}
			x.set(st, i, seqEmpty(SeqSort(sortOf(el))))
			break
		}
		r := Fresh(SInt, "chan")
		if f := x.spec.chans["makechan "+chanName(i.Type())]; f != nil && !x.tree {
			r = x.spec.apply(f, []*Term{st.world}, nil)
		}
		st.assume(Not(Eq(r, Int(0))))
		x.set(st, i, r)
	case *ssa.Send:
		if q, ok := x.val(st, i.Chan).(*queueVal); ok {
			_, n := queueElem(i.Chan.Type())
			t := x.termAt(st, q.loc)
			x.oblige(st, Lt(SeqLen(t), Int(int64(n))), "blocking", "the channel has room", i.Pos())
			x.store(st, q.loc, SeqCat(t, SeqUnit(t.Sort, x.toTerm(st, x.val(st, i.X), seqElem[t.Sort]))))
			break
		}
		st.world = x.send(st, x.val(st, i.Chan), x.val(st, i.X), i.Chan.Type(), i.X.Type())
	case *ssa.Select:
		x.set(st, i, x.selectQueue(st, i))
	case *ssa.Range:
		switch v := x.val(st, i.X).(type) {
		case *Term:
			c := x.newCell("iter", types.Typ[types.Int])
			c.owned = true
			st.cells[c] = Int(0)
			x.set(st, i, &Iter{cell: c})
			_ = v
		case *MapVal:
			// the keys that were visited
			mt := i.X.Type().Underlying().(*types.Map)
			if v.cell == nil {
				panic(unsupported("range over a nil map"))
			}
			for _, b := range i.Parent().Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.MapUpdate); ok && u.Map == i.X {
						panic(unsupported("range over a map that changes"))
					}
				}
			}
			ms := mapSort(sortOf(mt.Key()), SBool)
			c := x.newCell("visited", types.NewMap(mt.Key(), types.Typ[types.Bool]))
			c.owned = true
			st.cells[c] = Make(ms, ConstArr(adts[ms].Sorts[0], False), ConstArr(adts[ms].Sorts[1], False))
			x.set(st, i, &Iter{cell: c})
		default:
			panic(unsupported("range over a map"))
		}
	case *ssa.Next:
		it, ok := x.val(st, i.Iter).(*Iter)
		if !ok {
			panic(unsupported("iteration"))
		}
		rg := i.Iter.(*ssa.Range)
		if !i.IsString {
			// some key that was not visited, or none is left
			m, ok := x.val(st, rg.X).(*MapVal)
			if !ok {
				panic(unsupported("map iteration"))
			}
			mt := rg.X.Type().Underlying().(*types.Map)
			t := st.cells[m.cell].(*Term)
			seen := st.cells[it.cell].(*Term)
			more := Fresh(SBool, "more")
			k := Fresh(sortOf(mt.Key()), "key")
			st.assume(Eq(Field(seen, "val"), Field(seen, "dom")))
			st.assume(Implies(more, And(x.mapGet(Field(t, "dom"), k), Not(x.mapGet(Field(seen, "dom"), k)))))
			st.assume(Implies(Not(more), Eq(Field(seen, "dom"), Field(t, "dom"))))
			st.cells[it.cell] = Make(seen.Sort, Store(Field(seen, "val"), k, True), Store(Field(seen, "dom"), k, True))
			v := x.fromTerm(st, x.mapGet(Field(t, "val"), k), mt.Elem(), nil)
			x.set(st, i, Tuple{more, x.fromTerm(st, k, mt.Key(), nil), v})
			return
		}
		s := x.val(st, rg.X).(*Term)
		pos := st.cells[it.cell].(*Term)
		okT := Lt(pos, SeqLen(s))
		r, w := x.decodeRune(st, SeqSub(s, pos, SeqLen(s)))
		st.cells[it.cell] = Ite(okT, Add(pos, w), pos)
		x.set(st, i, Tuple{okT, pos, r})
	default:
		panic(unsupported(fmt.Sprintf("instruction %T (%s)", in, in)))
	}
}

func usesGo(pkg *ssa.Package) bool {
	for fn := range pkgFuncs(pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					return true
				}
			}
		}
	}
	return false
}

// queueVal is a channel that is a list: the one in a field.
type queueVal struct{ loc *Loc }

// doneVal is a channel that is closed if an error is not nil.
type doneVal struct{ err *Term }

// selectAny sends, or takes note that the work is to stop: one of the states
// that can go on.
func (x *Exec) selectAny(st *State, i *ssa.Select) Value {
	k := Fresh(SInt, "case")
	var any []*Term
	w := st.world
	t := Tuple{k, False}
	for n, s := range i.States {
		at := Eq(k, Int(int64(n)))
		if d, ok := x.val(st, s.Chan).(*doneVal); ok && s.Dir == types.RecvOnly {
			any = append(any, And(at, Not(Eq(d.err, Const(SErr, "nilErr")))))
			t = append(t, nil)
			continue
		}
		if s.Dir == types.RecvOnly {
			panic(unsupported("select that receives"))
		}
		any = append(any, at)
		w = Ite(at, x.send(st, x.val(st, s.Chan), x.val(st, s.Send), s.Chan.Type(), s.Send.Type()), w)
	}
	x.note("select goes on with any of its cases that can; a send never blocks forever")
	st.assume(Or(any...))
	st.world = w
	return t
}

// send is the world after a value was sent.
func (x *Exec) send(st *State, ch, v Value, ct, t types.Type) *Term {
	f := x.spec.chans["send "+chanName(ct)]
	if f != nil && f.Sig.Params().Len() == 3 && sortOf(f.Sig.Params().At(2).Type()) == SInt {
		return x.chanOp(st, "send", ct, x.toTerm(st, ch, SInt), x.toTerm(st, v, SInt)) // the pointer itself travels
	}
	return x.chanOp(st, "send", ct, x.toTerm(st, ch, SInt), x.payload(st, v, t))
}

// selectQueue takes the first element of a queue, if there is one.
func (x *Exec) selectQueue(st *State, i *ssa.Select) Value {
	if i.Blocking {
		return x.selectAny(st, i)
	}
	if len(i.States) != 1 || i.States[0].Dir != types.RecvOnly {
		panic(unsupported("select"))
	}
	q, ok := x.val(st, i.States[0].Chan).(*queueVal)
	if !ok {
		panic(unsupported("select on a channel that is not a queue"))
	}
	t := x.termAt(st, q.loc)
	some := Lt(Int(0), SeqLen(t))
	x.store(st, q.loc, Ite(some, SeqSub(t, Int(1), SeqLen(t)), t))
	return Tuple{Ite(some, Int(0), Int(-1)), some, SeqNth(t, Int(0))}
}

// pendingAlloc is an object known by its identity only that nothing has used
// yet: it is made at its first use, so that the place of its declaration does
// not matter.
type pendingAlloc struct{ i *ssa.Alloc }

func (x *Exec) namedAlloc(i *ssa.Alloc) bool {
	t := derefType(i.Type())
	_, ok := t.(*types.Named)
	return ok && !x.tree && i.Heap && x.spec.allocs["alloc "+shortType(t)] != nil
}

// forceAllocs makes the pending objects of the current function.
func (x *Exec) forceAllocs(st *State) {
	var is []*ssa.Alloc
	for _, v := range st.top().vals {
		if p, ok := v.(*pendingAlloc); ok {
			is = append(is, p.i)
		}
	}
	sort.Slice(is, func(a, b int) bool { return is[a].Name() < is[b].Name() })
	for _, i := range is {
		x.set(st, i, x.alloc(st, i))
	}
}

func (x *Exec) alloc(st *State, i *ssa.Alloc) Value {
	t := derefType(i.Type())
	name := i.Comment
	if name == "" {
		name = i.Name()
	}
	if x.namedAlloc(i) {
		n := t.(*types.Named)
		// an object known by its identity only
		f := x.spec.allocs["alloc "+shortType(t)]
		x.spec.ensureAxioms(f)
		r := x.spec.apply(f, []*Term{st.world}, nil)
		st.assume(Not(Eq(r, Int(0))))
		// a new object is none of those that variables refer to
		seen := map[*Term]bool{}
		for _, f := range st.frames {
			for v, u := range f.vals {
				var o *Term
				switch u := u.(type) {
				case *Term:
					if p, ok := v.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
						o = u
					}
				case *Loc:
					if u.cell == nil && u.heap == sortOf(t) {
						o = u.ref
					}
				}
				if o != nil && !seen[o] {
					seen[o] = true
				}
			}
		}
		for _, o := range sortedTerms(seen) {
			st.assume(Not(Eq(r, o)))
		}
		if f := x.spec.allocs["allocw "+shortType(t)]; f != nil {
			x.spec.ensureAxioms(f)
			st.world = x.spec.apply(f, []*Term{st.world}, nil)
		}
		if _, isS := n.Underlying().(*types.Struct); isS && adts[sortOf(t)] != nil && !isNodeType(t) {
			st.heap[sortOf(t)] = Store(x.heapArr(st, sortOf(t)), r, zeroTerm(sortOf(t)))
		}
		return r
	}
	if n, ok := t.(*types.Named); ok && !x.tree && i.Heap && !isNodeType(t) && i.Parent().Pkg != shimPkg {
		if _, isS := n.Underlying().(*types.Struct); isS && adts[sortOf(t)] != nil {
			// a new heap object
			x.refSeq++
			r := x.newRef(st)
			s := sortOf(t)
			st.heap[s] = Store(x.heapArr(st, s), r, zeroTerm(s))
			return r
		}
	}
	c := x.newCell(name, t)
	c.owned = true
	z := x.zero(t)
	if isNodeType(t) {
		z = zeroTerm(SNode)
	}
	st.cells[c] = z
	return &Loc{cell: c}
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// newRef is a reference different from every reference of the entry state.
func (x *Exec) newRef(st *State) *Term {
	r := Fresh(SInt, "new")
	// references of the entry state are not negative; allocation order keeps
	// new ones apart
	st.assume(Lt(r, st.low()))
	st.allocLow = r
	return r
}

func (x *Exec) unop(st *State, i *ssa.UnOp) Value {
	v := x.val(st, i.X)
	switch i.Op {
	case token.MUL:
		if s, ok := v.(*snapElem); ok {
			return x.fromTerm(st, SeqNthR(s.s.snap, s.i), i.Type(), nil)
		}
		if g, ok := v.(*ssa.Global); ok {
			return x.load(st, x.global(st, g), i.Type())
		}
		if _, n := queueElem(i.Type()); n > 0 {
			return &queueVal{x.ptr(st, v, i.X.Type(), i.Pos())}
		}
		return x.load(st, x.ptr(st, v, i.X.Type(), i.Pos()), i.Type())
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		return x.wrap(st, Sub(Int(0), v.(*Term)), i.Type())
	case token.ARROW:
		return x.recv(st, i, v)
	}
	panic(unsupported("unary " + i.Op.String()))
}

// wrap gives the machine value of a mathematical result.
func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	lo, hi, ok := intRange(typ)
	if !ok {
		panic(unsupported("arithmetic on " + typ.String()))
	}
	if t.lit {
		return t
	}
	rng := And(mk(SBool, "<=", lo, t), mk(SBool, "<=", t, hi))
	for _, p := range st.pc {
		if p == rng {
			return t
		}
	}
	if valid(x.pcLens(st.pc, t), rng, 1000) {
		x.note("lengths of strings and slices are at most 2^40")
		return t
	}
	span := two64
	if b := typ.Underlying().(*types.Basic); b.Kind() == types.Uint8 {
		span = Int(256)
	} else if b.Kind() == types.Int32 || b.Kind() == types.Uint32 {
		span = Int(1 << 32)
	}
	return mk(SInt, "ite", mk(SBool, "<", hi, t), mk(SInt, "-", t, span), mk(SInt, "ite", mk(SBool, "<", t, lo), mk(SInt, "+", t, span), t))
}

func lenBounds(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.Op) > 4 && t.Op[:4] == "len_" && len(t.Args) == 1 {
			out = append(out, Le(t, Int(1<<40)))
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(t)
	return out
}

func (x *Exec) binop(st *State, i *ssa.BinOp) Value {
	a, b := x.val(st, i.X), x.val(st, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ:
		t := x.equal(st, a, b, i.X.Type())
		if i.Op == token.NEQ {
			t = Not(t)
		}
		return t
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("operands of " + i.Op.String()))
	}
	if p.Sort == SStr {
		switch i.Op {
		case token.ADD:
			return SeqCat(p, q)
		case token.LSS:
			return mk(SBool, "lib_strless", p, q)
		case token.GTR:
			return mk(SBool, "lib_strless", q, p)
		case token.LEQ:
			return Not(mk(SBool, "lib_strless", q, p))
		case token.GEQ:
			return Not(mk(SBool, "lib_strless", p, q))
		}
	}
	if p.Sort == SBool {
		switch i.Op {
		case token.AND:
			return And(p, q)
		case token.OR:
			return Or(p, q)
		}
	}
	switch i.Op {
	case token.ADD:
		return x.wrap(st, Add(p, q), i.Type())
	case token.SUB:
		return x.wrap(st, Sub(p, q), i.Type())
	case token.MUL:
		return x.wrap(st, Mul(p, q), i.Type())
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	case token.REM:
		if q.lit && q.n > 0 {
			if p.lit {
				return Int(p.n % q.n)
			}
			// Go truncates toward zero
			m := mk(SInt, "mod", p, q)
			if valid(st.pc, Le(Int(0), p), 1000) {
				return m
			}
			return Ite(Le(Int(0), p), m, Sub(Int(0), mk(SInt, "mod", Sub(Int(0), p), q)))
		}
	case token.QUO:
		if q.lit && q.n > 0 {
			if p.lit {
				return Int(p.n / q.n)
			}
			m := mk(SInt, "div", p, q)
			if valid(st.pc, Le(Int(0), p), 1000) {
				return m
			}
			return Ite(Le(Int(0), p), m, Sub(Int(0), mk(SInt, "div", Sub(Int(0), p), q)))
		}
	case token.AND:
		if q.lit && q.n == 1 {
			return mk(SInt, "mod", p, Int(2))
		}
		return OpTerm(SInt, "lib_bitand", []*Term{p, q})
	case token.OR:
		r := OpTerm(SInt, "lib_bitor", []*Term{p, q})
		x.typeRange(st, r, i.Type())
		return r
	case token.AND_NOT, token.XOR:
		r := OpTerm(SInt, map[token.Token]string{token.AND_NOT: "lib_bitandnot", token.XOR: "lib_bitxor"}[i.Op], []*Term{p, q})
		x.typeRange(st, r, i.Type())
		return r
	case token.SHR:
		if q.lit && q.n >= 0 && q.n < 62 {
			return mk(SInt, "div", p, Int(1<<uint(q.n)))
		}
	case token.SHL:
		if q.lit && q.n >= 0 && q.n < 62 {
			return x.wrap(st, Mul(p, Int(1<<uint(q.n))), i.Type())
		}
	}
	panic(unsupported("operator " + i.Op.String()))
}

func (x *Exec) equal(st *State, a, b Value, t types.Type) *Term {
	if _, ok := b.(NilPtr); ok {
		a, b = b, a
	}
	if _, ok := a.(NilPtr); ok {
		switch u := b.(type) {
		case NilPtr:
			return True
		case *Loc:
			return False
		case *Term:
			if u.Sort == SNode {
				return False
			}
			return Eq(u, x.toTerm(st, a, u.Sort))
		}
	}
	sa, oka := a.(*SliceVal)
	sb, okb := b.(*SliceVal)
	if oka && okb {
		if sb.nilT == True {
			return sa.nilT
		}
		if sa.nilT == True {
			return sb.nilT
		}
		panic(unsupported("slice comparison"))
	}
	ca, oka := a.(*Clo)
	cb, okb := b.(*Clo)
	if oka && okb {
		if ca.fn == nil || cb.fn == nil {
			return boolTerm(ca.fn == nil && cb.fn == nil)
		}
		panic(unsupported("function comparison"))
	}
	if okb && cb.fn == nil {
		if t, ok := a.(*Term); ok {
			return Eq(t, Int(0))
		}
	}
	if m, ok := a.(*MapVal); ok {
		if n, ok := b.(*MapVal); ok && (n.cell == nil || m.cell == nil) {
			return boolTerm(m.cell == n.cell)
		}
	}
	ia, oka := a.(*IfaceVal)
	ib, okb := b.(*IfaceVal)
	if oka && okb {
		if ia.v == nil || ib.v == nil {
			return boolTerm(ia.v == nil && ib.v == nil)
		}
	}
	la, oka := a.(*Loc)
	lb, okb := b.(*Loc)
	if oka && okb && la.same(lb) {
		return True
	}
	if oka || okb {
		if x.tree && isNodePtr(t) {
			x.note("nodes of a document are pairwise different objects")
		}
		return Eq(x.ident(st, a), x.ident(st, b))
	}
	ta := x.toTerm(st, a, "")
	return Eq(ta, x.toTerm(st, b, ta.Sort))
}

// ident is the identity of a pointer.
func (x *Exec) ident(st *State, v Value) *Term {
	if l, ok := v.(*Loc); ok {
		return x.addrTerm(st, l)
	}
	return x.toTerm(st, v, SInt)
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) Value {
	base := x.val(st, i.X)
	switch b := base.(type) {
	case *Term:
		if b.Sort == SStr {
			idx := x.val(st, i.Index).(*Term)
			x.oblige(st, And(Le(Int(0), idx), Lt(idx, SeqLen(b))), "bounds", "string index in range", i.Pos())
			return SeqNthR(b, idx)
		}
	case *MapVal:
		mt := i.X.Type().Underlying().(*types.Map)
		var v, ok *Term
		if b.cell == nil {
			v, ok = x.toTerm(st, x.zero(mt.Elem()), sortOf(mt.Elem())), False
		} else {
			t := st.cells[b.cell].(*Term)
			k := x.toTerm(st, x.val(st, i.Index), sortOf(mt.Key()))
			v, ok = x.mapGet(Field(t, "val"), k), x.mapGet(Field(t, "dom"), k)
		}
		r := x.fromTerm(st, v, mt.Elem(), nil)
		if i.CommaOk {
			return Tuple{r, ok}
		}
		return r
	}
	panic(unsupported("lookup"))
}

// mapGet expands the literal entries of a map.
func (x *Exec) mapGet(a, k *Term) *Term {
	if a.Op == "store" {
		e := Eq(a.Args[1], k)
		return Ite(e, a.Args[2], x.mapGet(a.Args[0], k))
	}
	return Select(a, k)
}

func (x *Exec) slice(st *State, i *ssa.Slice) Value {
	base := x.val(st, i.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.val(st, v).(*Term)
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	switch b := base.(type) {
	case *Term: // string
		n := SeqLen(b)
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = n
		}
		x.oblige(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), "bounds", "slice bounds in range", i.Pos())
		return SeqSub(b, lo, hi)
	case *SliceVal:
		n := Sub(b.hi, b.lo)
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = n
		}
		// slicing beyond the length (within the capacity) is not modelled
		x.oblige(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), "bounds", "slice bounds in range", i.Pos())
		r := *b
		r.lo, r.hi = Add(b.lo, lo), Add(b.lo, hi)
		r.capped = false
		if mx != nil {
			x.oblige(st, And(Le(hi, mx), Le(mx, n)), "bounds", "slice capacity in range", i.Pos())
			r.capped = valid(st.pc, Eq(mx, hi), 500)
		}
		if lo != Int(0) || b.nilT != True {
			r.nilT = b.nilT
		}
		return &r
	case *Loc: // pointer to array
		a, ok := x.rootVal(st, b).(Arr)
		if !ok || len(b.path) > 0 {
			panic(unsupported("slice of an array field"))
		}
		n := Int(int64(len(a)))
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = n
		}
		x.oblige(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), "bounds", "slice bounds in range", i.Pos())
		return &SliceVal{loc: b, lo: lo, hi: hi, nilT: False, seq: SeqSort(elemSortOf(x, i.Type().Underlying().(*types.Slice).Elem())), vers: len(st.bumps), capped: hi == n}
	}
	panic(unsupported("slice"))
}

func (x *Exec) makeSlice(st *State, i *ssa.MakeSlice) Value {
	n := x.val(st, i.Len).(*Term)
	c := x.val(st, i.Cap).(*Term)
	el := i.Type().Underlying().(*types.Slice).Elem()
	x.oblige(st, And(Le(Int(0), n), Le(n, c)), "bounds", "length of make in range", i.Pos())
	cell := x.newCell("make", i.Type())
	cell.owned = true
	s := SeqSort(elemSortOf(x, el))
	if n.lit && n.n <= 64 {
		a := make(Arr, n.n)
		for k := range a {
			a[k] = x.zero(el)
		}
		st.cells[cell] = a
	} else {
		var z *Term
		if s == SeqSort(SNode) && x.tree {
			z = Const(SNode, "nilNode")
		} else {
			z = x.toTerm(st, x.zero(el), seqElem[s])
		}
		f := Fresh(s, "make")
		st.assume(Eq(SeqLen(f), n))
		v := Const(SInt, "qm")
		st.assume(mkQuant("forall", []*Term{v}, [][]*Term{{mk(seqElem[s], "nth_"+s, f, v)}}, Implies(And(Le(Int(0), v), Lt(v, n)), mk(SBool, "=", mk(seqElem[s], "nth_"+s, f, v), z))))
		st.cells[cell] = f
	}
	return &SliceVal{loc: &Loc{cell: cell}, lo: Int(0), hi: n, nilT: False, seq: s, vers: len(st.bumps)}
}

func (x *Exec) convert(st *State, i *ssa.Convert) Value {
	v := x.val(st, i.X)
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	tb, ok := to.(*types.Basic)
	if ok && tb.Info()&types.IsString != 0 {
		if fb, ok := from.(*types.Basic); ok {
			if fb.Info()&types.IsInteger != 0 {
				return x.runeStr(st, v.(*Term))
			}
			return v
		}
		if sv, ok := v.(*SliceVal); ok && sv.seq == SStr { // []byte
			return x.sliceTerm(st, sv)
		}
	}
	if ok && tb.Info()&types.IsInteger != 0 {
		if _, ok := from.(*types.Basic); ok {
			return x.wrapConv(st, v.(*Term), from, i.Type())
		}
	}
	if sl, ok := to.(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			if t, ok := v.(*Term); ok && t.Sort == SStr {
				return &SliceVal{snap: t, lo: Int(0), hi: SeqLen(t), nilT: False, seq: SStr}
			}
		}
	}
	panic(unsupported("conversion to " + i.Type().String()))
}

func (x *Exec) wrapConv(st *State, t *Term, from, to types.Type) *Term {
	fl, fh, ok1 := intRange(from)
	tl, th, ok2 := intRange(to)
	if ok1 && ok2 && fl == tl && fh == th {
		return t
	}
	if b, ok := to.Underlying().(*types.Basic); ok && ok1 && ok2 && b.Info()&types.IsUnsigned != 0 && !t.lit {
		if valid(x.pcLens(st.pc, t), And(mk(SBool, "<=", tl, t), mk(SBool, "<=", t, th)), 1000) {
			return t
		}
		switch b.Kind() {
		case types.Uint8:
			return mk(SInt, "mod", t, Int(1<<8))
		case types.Uint16:
			return mk(SInt, "mod", t, Int(1<<16))
		case types.Uint32:
			return mk(SInt, "mod", t, Int(1<<32))
		default:
			return mk(SInt, "mod", t, two64)
		}
	}
	return x.wrap(st, t, to)
}

func (x *Exec) runeStr(st *State, r *Term) *Term {
	if r.lit && r.n >= 0 {
		return StrLit(string(rune(r.n)))
	}
	return mk(SStr, "lib_runestr", r)
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) Value {
	v := x.val(st, i.X)
	switch u := v.(type) {
	case *IfaceVal:
		ok := u.typ != nil && (types.Identical(u.typ, i.AssertedType) || types.IsInterface(i.AssertedType) && types.AssignableTo(u.typ, i.AssertedType))
		if i.CommaOk {
			if !ok {
				return Tuple{x.zero(i.AssertedType), False}
			}
			return Tuple{u.v, True}
		}
		x.oblige(st, boolTerm(ok), "type assertion", "type assertion holds", i.Pos())
		if !ok {
			panic(unsupported("failing type assertion"))
		}
		return u.v
	case *Term:
		is := mk(SBool, "is_"+clean(i.AssertedType.String()), u)
		as := x.fromTerm(st, mk(sortOf(i.AssertedType), "as_"+clean(i.AssertedType.String()), u), i.AssertedType, nil)
		if i.CommaOk {
			return Tuple{as, is}
		}
		x.oblige(st, is, "type assertion", "type assertion holds", i.Pos())
		return as
	}
	panic(unsupported("type assertion"))
}

// decodeRune models utf8.DecodeRuneInString.
func (x *Exec) decodeRune(st *State, s *Term) (r, w *Term) {
	libAxioms(decodeRuneFn)
	op := "lib_" + clean(decodeRuneFn)
	return mk(SInt, op+".0", s), mk(SInt, op+".1", s)
}
