package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contract is the specification of one function.
type Contract struct {
	key      string
	posts    []*SpecFn
	pre      *SpecFn
	dec      *SpecFn
	hints    []*SpecFn
	plan     *SpecFn // what the function values that it makes build
	variants []*SpecFn
	invs     []*SpecFn
	fn       *ssa.Function
	tree     bool
	noTerm   bool
	trusted  bool
	draft    bool
	nilEmpty map[int]bool
	fixed    map[int]int // interface slices that always hold n strings
	lemma    *SpecFn
	attach   string // why it cannot be attached
	nparams  int
}

// bind describes one parameter of a specification function.
type bind struct {
	kind  string // param, param1, result, resultNil, paramNil, world, world1, heap, heap1
	index int
	name  string
	sort  Sort
	typ   types.Type
}

func fnKey(fn *ssa.Function) string {
	if fn == nil || fn.Pkg == nil {
		return ""
	}
	k := fn.Pkg.Pkg.Name() + "."
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			k += n.Obj().Name() + "."
		}
	}
	return k + fn.Name()
}

// collectContracts builds the contracts of the specification package.
func collectContracts(s *Spec, fns map[string]*ssa.Function) map[string]*Contract {
	cs := map[string]*Contract{}
	get := func(k string) *Contract {
		k = strings.Fields(k)[0]
		if cs[k] == nil {
			cs[k] = &Contract{key: k, nilEmpty: map[int]bool{}, fixed: map[int]int{}, tree: true}
		}
		return cs[k]
	}
	for _, n := range s.order {
		f := s.fns[n]
		for _, k := range f.Dir["contract"] {
			c := get(k)
			c.posts = append(c.posts, f)
			if f.Dir["world"] != nil {
				c.tree = false
			}
			if f.Dir["noterm"] != nil {
				c.noTerm = true
			}
			if f.Dir["trusted"] != nil {
				c.trusted = true
			}
			if f.Dir["draft"] != nil {
				c.draft = true
			}
			for _, fx := range f.Dir["fixed"] {
				p, n, _ := strings.Cut(fx, " ")
				for i := 0; i < f.Sig.Params().Len(); i++ {
					if f.Sig.Params().At(i).Name() == p {
						c.fixed[i], _ = strconv.Atoi(n)
					}
				}
			}
			for _, ne := range f.Dir["nilempty"] {
				for i := 0; i < f.Sig.Params().Len(); i++ {
					if f.Sig.Params().At(i).Name() == ne {
						c.nilEmpty[i] = true
					}
				}
			}
		}
		if f.Dir["lemma"] != nil {
			c := get("lemma." + n)
			c.lemma = f
			c.posts = []*SpecFn{f}
		}
		for _, k := range f.Dir["pre"] {
			get(k).pre = f
		}
		for _, k := range f.Dir["decreases"] {
			get(k).dec = f
		}
		for _, k := range f.Dir["plan"] {
			get(k).plan = f
		}
		for _, k := range f.Dir["builds"] {
			s.buildsEntry(k).builds = f
		}
		for _, k := range f.Dir["stands"] {
			s.buildsEntry(k).stands = f
		}
		for _, k := range f.Dir["hint"] {
			c := get(k)
			c.hints = append(c.hints, f)
		}
		for _, k := range f.Dir["variant"] {
			c := get(k)
			c.variants = append(c.variants, f)
		}
	}
	for k, c := range cs {
		if c.lemma != nil {
			continue
		}
		c.fn = fns[k]
		if c.fn == nil {
			c.attach = "function " + k + " not found"
			continue
		}
		if len(c.posts) == 0 {
			c.attach = "no postcondition"
			continue
		}
		c.nparams = len(c.fn.Params)
		for _, p := range c.posts {
			if err := checkAttach(c, p, s); err != "" {
				c.attach = err
			}
		}
	}
	return cs
}

func checkAttach(c *Contract, p *SpecFn, s *Spec) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok {
				panic(r)
			}
			msg = u.msg
		}
	}()
	for _, b := range c.binds(p) {
		_ = b
	}
	return ""
}

func specTypeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// binds maps the parameters of a specification function of the contract.
func (c *Contract) binds(f *SpecFn) []bind {
	fn := c.fn
	var out []bind
	np := len(fn.Params)
	nres := fn.Signature.Results().Len()
	pos := 0 // positional parameters seen
	res := 0
	pname := map[string]int{}
	for i := 0; i < f.Sig.Params().Len(); i++ {
		p := f.Sig.Params().At(i)
		n := p.Name()
		b := bind{name: n, typ: p.Type(), sort: sortOf(p.Type())}
		base := strings.TrimSuffix(n, "1")
		_, isOld := pname[base]
		switch tn := specTypeName(p.Type()); {
		case tn == "World":
			b.kind = "world"
			if strings.HasSuffix(n, "1") {
				b.kind = "world1"
			}
		case tn == "Heap":
			b.kind = "heap"
			if strings.HasSuffix(n, "1") {
				b.kind = "heap1"
			}
		case strings.HasSuffix(n, "Nil") && b.sort == SBool:
			b.kind = "nilflag"
			base := strings.TrimSuffix(n, "Nil")
			b.index = -1
			for j := range out {
				if out[j].name == base {
					b.index = j
				}
			}
			if b.index < 0 {
				panic(unsupported("nil flag " + n))
			}
		case pos < np:
			b.kind, b.index = "param", pos
			pname[n] = pos
			pos++
			if c.fixed[b.index] > 0 {
				if _, ok := fn.Params[b.index].Type().Underlying().(*types.Slice); !ok {
					panic(unsupported(fmt.Sprintf("parameter %d of %s has type %s", b.index, c.key, fn.Params[b.index].Type())))
				}
			} else if !compatible(fn.Params[b.index].Type(), p.Type(), c.tree) {
				panic(unsupported(fmt.Sprintf("parameter %d of %s has type %s", b.index, c.key, fn.Params[b.index].Type())))
			}
		case isOld && strings.HasSuffix(n, "1"):
			b.kind, b.index = "param1", pname[base]
		case f.Dir["contract"] == nil:
			b.kind = "extra"
		default:
			if res >= nres {
				panic(unsupported(fmt.Sprintf("%s has %d results", c.key, nres)))
			}
			b.kind, b.index = "result", res
			if !compatible(fn.Signature.Results().At(res).Type(), p.Type(), c.tree) {
				panic(unsupported(fmt.Sprintf("result %d of %s has type %s", res, c.key, fn.Signature.Results().At(res).Type())))
			}
			res++
		}
		out = append(out, b)
	}
	if pos < np && f.Dir["contract"] != nil {
		panic(unsupported(fmt.Sprintf("%s has %d parameters", c.key, np)))
	}
	return out
}

// compatible tells whether a specification type can describe a Go type.
func compatible(code, spec types.Type, tree bool) bool {
	sn := specTypeName(spec)
	if isNodePtr(code) {
		return sn == "Node" || sn == "Ref"
	}
	if sn == "Ref" {
		return true
	}
	if p, ok := code.Underlying().(*types.Pointer); ok {
		code = p.Elem()
	}
	save := treeMode
	treeMode = tree
	defer func() { treeMode = save }()
	defer func() { recover() }()
	return sortOf(code) == sortOf(spec)
}

// modified tells which parameters the contract allows to change.
func (c *Contract) modified() map[int]bool {
	m := map[int]bool{}
	for _, p := range c.posts {
		for _, b := range c.binds(p) {
			if b.kind == "param1" {
				m[b.index] = true
			}
		}
	}
	return m
}

func (c *Contract) kinds(kind string) map[Sort]bool {
	m := map[Sort]bool{}
	for _, p := range c.posts {
		for _, b := range c.binds(p) {
			if b.kind == kind {
				m[b.sort] = true
			}
		}
	}
	return m
}

// entryInfo remembers the state at function entry.
type entryInfo struct {
	args  []Value
	terms []*Term // contract terms of the parameters at entry
	heap  map[Sort]*Term
	world *Term
	st    *State
}

// paramSpec is the specification type of parameter i.
func (c *Contract) paramSpec(i int) types.Type {
	for _, b := range c.binds(c.posts[0]) {
		if b.kind == "param" && b.index == i {
			return b.typ
		}
	}
	return nil
}

// ptrKind classifies how a parameter is represented.
func ptrKind(code, spec types.Type) string {
	sn := specTypeName(spec)
	if sn == "Ref" {
		return "ref"
	}
	if isNodePtr(code) {
		return "place"
	}
	if p, ok := code.Underlying().(*types.Pointer); ok {
		if _, isS := p.Elem().Underlying().(*types.Struct); isS {
			return "object"
		}
		return "cell"
	}
	if s, ok := code.Underlying().(*types.Slice); ok {
		if isNodePtr(s.Elem()) && treeMode {
			return "nodes"
		}
		return "slice"
	}
	return "value"
}

// kindOf classifies parameter i.
func (c *Contract) kindOf(i int) string {
	if c.fixed[i] > 0 {
		return "fixed"
	}
	return ptrKind(c.fn.Params[i].Type(), c.paramSpec(i))
}

// neutral tells whether a contract speaks of plain values only, so that it can
// be used whatever the mode of the caller.
func (c *Contract) neutral() bool {
	if !c.tree || len(c.fixed) > 0 || len(c.modified()) > 0 {
		return false
	}
	plain := func(t types.Type) bool {
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	for _, p := range c.fn.Params {
		if !plain(p.Type()) {
			return false
		}
	}
	for i := 0; i < c.fn.Signature.Results().Len(); i++ {
		t := c.fn.Signature.Results().At(i).Type()
		if !plain(t) && t.String() != "error" {
			return false
		}
	}
	return true
}

// boxString is string e as an element of a slice of type t.
func (x *Exec) boxString(t types.Type, e *Term) Value {
	if _, ok := t.Underlying().(*types.Slice).Elem().Underlying().(*types.Interface); ok {
		return &IfaceVal{typ: types.Typ[types.String], v: e}
	}
	return e
}

// verify generates the obligations of the contract's function.
func (x *Exec) verify(c *Contract) {
	treeMode = c.tree
	x.tree = c.tree
	x.con = c
	x.unit = c.key
	st := &State{cells: map[*Cell]Value{}, heap: map[Sort]*Term{}, moved: map[*Cell]bool{}, world: Const(SWorld, "world0")}
	x.entry = &entryInfo{heap: map[Sort]*Term{}, world: st.world}
	fr := x.newFrame(c.fn, nil)
	for i, p := range c.fn.Params {
		spec := c.paramSpec(i)
		name := p.Name()
		if name == "" || name == "_" {
			name = fmt.Sprintf("p%d", i)
		}
		name = "in_" + name
		var v Value
		var t *Term
		switch k := c.kindOf(i); k {
		case "fixed":
			cell := x.newCell(p.Name(), p.Type())
			cell.owned = true
			a := make(Arr, c.fixed[i])
			t = seqEmpty(SeqSort(SStr))
			for j := range a {
				e := Const(SStr, fmt.Sprintf("%s_%d", name, j))
				a[j] = x.boxString(p.Type(), e)
				t = SeqCat(t, SeqUnit(t.Sort, e))
			}
			st.cells[cell] = a
			v = &SliceVal{loc: &Loc{cell: cell}, lo: Int(0), hi: Int(int64(len(a))), nilT: False, seq: SeqSort(elemSortOf(x, p.Type().Underlying().(*types.Slice).Elem())), capped: true}
		case "ref":
			t = Const(SInt, name)
			v = t
			st.assume(Lt(Int(0), t))
		case "place":
			cell := x.newCell(p.Name(), derefType(p.Type()))
			cell.param = true
			cell.nilEmpty = c.nilEmpty[i]
			t = Const(SNode, name)
			st.cells[cell] = t
			v = &Loc{cell: cell}
		case "nodes":
			cell := x.newCell(p.Name(), p.Type())
			cell.param = true
			cell.nilEmpty = c.nilEmpty[i]
			t = Const(SeqSort(SNode), name)
			st.cells[cell] = t
			v = &SliceVal{loc: &Loc{cell: cell}, lo: Int(0), hi: SeqLen(t), nilT: Eq(SeqLen(t), Int(0)), seq: t.Sort}
		case "object":
			r := Const(SInt, name)
			st.assume(Lt(Int(0), r))
			v = r
			t = Select(x.heapArr(st, sortOf(derefType(p.Type()))), r)
		case "cell":
			cell := x.newCell(p.Name(), derefType(p.Type()))
			cell.param = true
			s := sortOf(spec)
			t = Const(s, name)
			st.cells[cell] = t
			x.typeRange(st, t, derefType(p.Type()))
			v = &Loc{cell: cell}
		case "slice":
			s := sortOf(spec)
			t = Const(s, name)
			n := Eq(SeqLen(t), Int(0))
			if x.hasNilFlag(c, i) {
				n = Const(SBool, name+"__nil")
				st.assume(Implies(n, Eq(SeqLen(t), Int(0))))
			} else {
				x.note("slice parameters are nil exactly when they are empty, where a contract does not say otherwise")
			}
			v = &SliceVal{snap: t, lo: Int(0), hi: SeqLen(t), nilT: n, seq: s}
		default:
			t = Const(sortOf(p.Type()), name)
			x.typeRange(st, t, p.Type())
			v = t
		}
		x.entry.args = append(x.entry.args, v)
		x.entry.terms = append(x.entry.terms, t)
		fr.vals[p] = v
	}
	st.frames = []*Frame{fr}
	x.entry.st = st.clone()
	if c.pre != nil {
		st.assume(x.evalSpec(c, c.pre, st, x.entry, nil))
		x.entry.st = st.clone()
	}
	// the precondition must be satisfiable
	x.run(st)
	if x.ends == 0 {
		x.note("no path of " + c.key + " returns")
	}
}

func (x *Exec) hasNilFlag(c *Contract, i int) bool {
	for _, p := range c.posts {
		bs := c.binds(p)
		for _, b := range bs {
			if b.kind == "nilflag" && bs[b.index].kind == "param" && bs[b.index].index == i {
				return true
			}
		}
	}
	return false
}

func (x *Exec) newFrame(fn *ssa.Function, call ssa.Value) *Frame {
	if len(fn.Blocks) == 0 {
		panic(unsupported("function without body: " + fn.String()))
	}
	if fn.Recover != nil {
		// deferred calls exist
		_ = fn
	}
	x.nfr++
	return &Frame{id: x.nfr, fn: fn, vals: map[ssa.Value]Value{}, block: fn.Blocks[0], unroll: map[*ssa.BasicBlock]int{}, call: call}
}

// callEnv are the terms a specification function is evaluated with.
type callEnv struct {
	results []*Term
	nils    []*Term
	cur     []*Term // current values of the parameters
	st      *State
}

func (x *Exec) curParam(st *State, c *Contract, e *entryInfo, i int) *Term {
	switch v := e.args[i].(type) {
	case *Loc:
		if st.moved[v.cell] {
			panic(unsupported("parameter moved"))
		}
		return x.termAt(st, v)
	case *SliceVal:
		if v.loc != nil {
			return x.termAt(st, v.loc)
		}
		return v.snap
	case *Term:
		if c.kindOf(i) == "object" {
			return Select(x.heapArr(st, sortOf(derefType(c.fn.Params[i].Type()))), v)
		}
		return v
	}
	return e.terms[i]
}

// evalSpec evaluates a pre- or postcondition of the unit under verification.
func (x *Exec) evalSpec(c *Contract, f *SpecFn, st *State, e *entryInfo, ce *callEnv) *Term {
	bs := c.binds(f)
	args := make([]*Term, len(bs))
	for i, b := range bs {
		switch b.kind {
		case "param":
			args[i] = e.terms[b.index]
			if b.sort == SInt && e.terms[b.index].Sort != SInt {
				args[i] = x.toTerm(st, e.args[b.index], SInt)
			}
		case "param1":
			args[i] = x.curParam(st, c, e, b.index)
		case "world":
			args[i] = e.world
		case "world1":
			args[i] = st.world
		case "heap":
			args[i] = x.entryHeap(st, e, b.sort)
		case "heap1":
			args[i] = x.heapArr(st, arrKV[b.sort][1])
		case "result":
			args[i] = ce.results[b.index]
		case "nilflag":
			t := bs[b.index]
			switch t.kind {
			case "result":
				args[i] = ce.nils[t.index]
			case "param":
				args[i] = e.args[t.index].(*SliceVal).nilT
			}
		}
		if args[i] == nil {
			panic(unsupported("no value for " + b.name + " of " + f.Name))
		}
		if args[i].Sort != b.sort {
			panic(unsupported(fmt.Sprintf("%s of %s has sort %s, not %s", b.name, f.Name, args[i].Sort, b.sort)))
		}
	}
	return x.spec.inlineFn(f, args)
}

func (x *Exec) entryHeap(st *State, e *entryInfo, s Sort) *Term {
	h := arrKV[s][1]
	if e.heap[h] == nil {
		t := x.heapArr(st, h) // first use: unchanged so far
		if e.heap[h] == nil {
			e.heap[h] = t
		}
	}
	return e.heap[h]
}

func (s *Spec) inlineFn(f *SpecFn, args []*Term) *Term {
	save := treeMode
	treeMode = false
	defer func() { treeMode = save }()
	s.ensureAxioms(f)
	return s.inline(f, args, nil)
}

// finish emits the postconditions at a return of the unit.
func (x *Exec) finish(st *State, res Value, p token.Pos) {
	c := x.con
	ce := &callEnv{st: st}
	sig := c.fn.Signature.Results()
	vals := []Value{res}
	if t, ok := res.(Tuple); ok {
		vals = t
	}
	if sig.Len() == 0 {
		vals = nil
	}
	rs := map[int]Sort{}
	for _, f := range c.posts {
		for _, b := range c.binds(f) {
			if b.kind == "result" {
				rs[b.index] = b.sort
			}
		}
	}
	for i, v := range vals {
		var t *Term
		n := False
		if sv, ok := v.(*SliceVal); ok {
			n = sv.nilT
		}
		if want, used := rs[i]; used {
			t = x.toTerm(st, v, want)
		}
		ce.results = append(ce.results, t)
		ce.nils = append(ce.nils, n)
	}
	if x.quiet > 0 {
		return
	}
	for _, f := range c.posts {
		t := x.evalSpec(c, f, st, x.entry, ce)
		parts := []*Term{t}
		if t.Op == "and" {
			parts = t.Args
		}
		for k, q := range parts {
			o := len(x.obls)
			x.addObl(st, q, "postcondition", fmt.Sprintf("%s, part %d of %d", f.Name, k+1, len(parts)), p)
			for ; o < len(x.obls); o++ {
				x.obls[o].Props = props(f)
			}
		}
	}
	// frame
	mod := c.modified()
	for i := range c.fn.Params {
		if mod[i] {
			continue
		}
		switch c.kindOf(i) {
		case "place", "cell", "nodes":
			cur := x.curParam(st, c, x.entry, i)
			x.addObl(st, Eq(cur, x.entry.terms[i]), "frame", fmt.Sprintf("parameter %d is not modified", i), p)
		}
	}
	if !c.tree {
		x.frameHeap(st, c, mod, p)
	}
}

func (x *Exec) frameHeap(st *State, c *Contract, mod map[int]bool, p token.Pos) {
	h1 := c.kinds("heap1")
	for _, s := range sortedKeys(st.heap) {
		if h1[st.heap[s].Sort] || strings.HasPrefix(s, "X_") {
			continue
		}
		e := x.entry.heap[s]
		if e == nil || e == st.heap[s] {
			continue
		}
		t := st.heap[s]
		allowed := map[*Term]bool{}
		for i := range mod {
			if v, ok := x.entry.args[i].(*Term); ok && sortOf(derefType(c.fn.Params[i].Type())) == s {
				allowed[v] = true
			}
		}
		// every other object of the entry state keeps its value
		k := Fresh(SInt, "frame")
		asm := []*Term{Le(Int(0), k)}
		for a := range allowed {
			asm = append(asm, Not(Eq(a, k)))
		}
		x.addObl(st, Implies(And(asm...), Eq(Select(t, k), Select(e, k))), "frame", "no other "+s+" is modified", p)
	}
	if st.world != x.entry.world && len(c.kinds("world1")) != 0 && !c.sets() {
		x.addObl(st, Eq(confOf(st.world), confOf(x.entry.world)), "frame", "no setting is changed", p)
	}
	if st.world != x.entry.world && len(c.kinds("world1")) == 0 {
		x.addObl(st, Eq(st.world, x.entry.world), "frame", "no effect on the outside", p)
	}
}

// sets tells whether the function may change settings.
func (c *Contract) sets() bool {
	for _, f := range c.posts {
		if f.Dir["sets"] != nil {
			return true
		}
	}
	return false
}

func props(f *SpecFn) []string {
	var out []string
	for _, p := range f.Dir["prop"] {
		out = append(out, strings.Fields(p)...)
	}
	return out
}

// allProps lists the properties a contract serves.
func (c *Contract) allProps() []string {
	m := map[string]bool{}
	for _, f := range c.posts {
		for _, p := range props(f) {
			m[p] = true
		}
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// ---- using a contract at a call ----

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(st *State, c *Contract, args []Value, pos token.Pos) Value {
	x.used[c.key] = true
	e := &entryInfo{heap: map[Sort]*Term{}, world: st.world, args: args}
	for s, h := range st.heap {
		e.heap[s] = h
	}
	name := c.fn.Name()
	for i, a := range args {
		var t *Term
		switch c.kindOf(i) {
		case "fixed":
			t = x.fixedArg(st, a, c.fixed[i], c.fn.Params[i].Type())
		case "ref":
			t = x.ident(st, a)
		case "place":
			switch l := a.(type) {
			case *Loc:
				t = x.termAt(st, l)
				if t.Sort != SNode {
					panic(unsupported("node argument"))
				}
			default:
				panic(unsupported(fmt.Sprintf("node argument %T", a)))
			}
		case "object":
			t = Select(x.heapArr(st, sortOf(derefType(c.fn.Params[i].Type()))), x.toTerm(st, a, SInt))
		case "cell":
			t = x.termAt(st, x.ptr(st, a, c.fn.Params[i].Type(), pos))
		case "nodes", "slice":
			sv, ok := a.(*SliceVal)
			if !ok {
				panic(unsupported(fmt.Sprintf("slice argument %T", a)))
			}
			t = x.sliceTerm(st, sv)
			if !x.hasNilFlag(c, i) && c.kindOf(i) == "slice" {
				x.oblige(st, Eq(sv.nilT, Eq(SeqLen(t), Int(0))), "precondition", fmt.Sprintf("%s: slice argument %d is nil exactly when it is empty", name, i), pos)
			}
		default:
			t = x.toTerm(st, a, sortOf(c.fn.Params[i].Type()))
		}
		e.terms = append(e.terms, t)
	}
	// the node trees handed over must be disjoint when one is modified
	mod := c.modified()
	for i := range args {
		for j := range args {
			if i == j || !mod[i] {
				continue
			}
			if k := c.kindOf(j); k == "ref" || k == "value" || k == "object" {
				continue
			}
			if d := disjoint(args[i], args[j]); d != True {
				x.oblige(st, d, "precondition", fmt.Sprintf("%s: arguments %d and %d do not overlap", name, i, j), pos)
			}
		}
	}
	for i := range args {
		if c.nilEmpty[i] {
			if l, ok := args[i].(*Loc); ok && l.cell != nil && !l.cell.nilEmpty {
				x.note("overlay values have a nil Content exactly when they have no children")
			}
		}
	}
	if c.pre != nil {
		x.oblige(st, x.evalCall(c, c.pre, st, e, nil), "precondition", "precondition of "+name, pos)
	}
	if x.con != nil && x.recursive(c.fn) && !x.con.noTerm {
		if c.dec == nil || x.con.dec == nil {
			x.note("termination of the recursion through " + name + " is not proved")
		} else {
			d1 := x.evalCall(c, c.dec, st, e, nil)
			d0 := x.evalSpec(x.con, x.con.dec, x.entry.st, x.entry, nil)
			x.oblige(st, And(Le(Int(0), d1), Lt(d1, d0)), "termination", "the recursive call of "+name+" is smaller", pos)
		}
	}
	// results and modified parameters
	ce := &callEnv{st: st}
	var freshT []*Term
	type upd struct {
		i int
		t *Term
	}
	var upds []upd
	for i := range args {
		if mod[i] {
			f := Fresh(e.terms[i].Sort, name+"_"+c.fn.Params[i].Name())
			upds = append(upds, upd{i, f})
			freshT = append(freshT, f)
		}
	}
	cur := make([]*Term, len(args))
	copy(cur, e.terms)
	for _, u := range upds {
		cur[u.i] = u.t
	}
	newHeap := map[Sort]*Term{}
	for s := range c.kinds("heap1") {
		h := arrKV[s][1]
		f := Fresh(s, "heap_"+h)
		newHeap[h] = f
		freshT = append(freshT, f)
	}
	for _, s := range sortedKeys(st.heap) {
		if t := st.heap[s]; strings.HasPrefix(s, "X_") && len(c.kinds("world1")) > 0 {
			// objects whose structs are not known have no frame
			newHeap[s] = Fresh(t.Sort, "heap_"+s)
			freshT = append(freshT, newHeap[s])
		}
	}
	var newWorld *Term
	if len(c.kinds("world1")) > 0 {
		newWorld = Fresh(SWorld, "world")
		freshT = append(freshT, newWorld)
	}
	ce.cur = cur
	sig := c.fn.Signature.Results()
	var vals []Value
	var lows []*Term
	base := st.low()
	for i := 0; i < sig.Len(); i++ {
		t := sig.At(i).Type()
		if x.tree && isNodePtr(t) {
			cell := x.newCell(name, derefType(t))
			cell.owned = true
			f := Fresh(SNode, name)
			st.cells[cell] = f
			ce.results = append(ce.results, f)
			ce.nils = append(ce.nils, False)
			vals = append(vals, &Loc{cell: cell})
			freshT = append(freshT, f)
			continue
		}
		v := x.freshVal(st, t, name+"_r")
		vals = append(vals, v)
		if sv, ok := v.(*SliceVal); ok {
			ce.results = append(ce.results, sv.snap)
			ce.nils = append(ce.nils, sv.nilT)
			freshT = append(freshT, sv.snap, sv.nilT)
		} else {
			ce.results = append(ce.results, v.(*Term))
			ce.nils = append(ce.nils, False)
			freshT = append(freshT, v.(*Term))
			if p, ok := t.Underlying().(*types.Pointer); ok && !x.tree && v.(*Term).Sort == SInt && adts[sortOf(p.Elem())] != nil {
				// objects made later are none that the call gives
				low := Fresh(SInt, "low")
				lows = append(lows, And(Le(low, st.low()), Le(low, v.(*Term))))
				st.allocLow = low
			}
		}
	}
	var post []*Term
	x.spec.base = base
	defer func() { x.spec.base = nil }()
	for _, f := range c.posts {
		t := x.evalCallPost(c, f, st, e, ce, newHeap, newWorld)
		if t.Op == "and" {
			post = append(post, t.Args...)
		} else {
			post = append(post, t)
		}
	}
	// equations define the new values
	def := map[*Term]*Term{}
	isFresh := map[*Term]bool{}
	for _, f := range freshT {
		isFresh[f] = true
	}
	for again := true; again; {
		again = false
		for i, q := range post {
			if q.Op != "=" && !isFresh[q] && !(q.Op == "not" && isFresh[q.Args[0]]) {
				continue
			}
			var l, r *Term
			switch {
			case isFresh[q]:
				l, r = q, True
			case q.Op == "not":
				l, r = q.Args[0], False
			case isFresh[q.Args[0]] && !mentions(q.Args[1], q.Args[0]):
				l, r = q.Args[0], q.Args[1]
			case isFresh[q.Args[1]] && !mentions(q.Args[0], q.Args[1]):
				l, r = q.Args[1], q.Args[0]
			default:
				continue
			}
			post = append(post[:i:i], post[i+1:]...)
			m := map[*Term]*Term{l: r}
			for k, v := range def {
				def[k] = subst(v, m)
			}
			def[l] = r
			isFresh[l] = false
			for k := range post {
				post[k] = subst(post[k], m)
			}
			again = true
			break
		}
	}
	sub := func(t *Term) *Term {
		if r := def[t]; r != nil {
			return r
		}
		return t
	}
	for _, u := range upds {
		x.storeBack(st, args[u.i], sub(u.t), c.fn.Params[u.i].Type(), pos)
	}
	for _, h := range sortedKeys(newHeap) {
		st.heap[h] = sub(newHeap[h])
	}
	if newWorld != nil {
		old := st.world
		st.world = sub(newWorld)
		if !c.sets() {
			st.assume(Eq(confOf(st.world), confOf(old)))
		}
	}
	for i, v := range vals {
		switch u := v.(type) {
		case *Term:
			vals[i] = sub(u)
		case *SliceVal:
			n := *u
			n.snap = sub(u.snap)
			n.hi = SeqLen(n.snap)
			n.nilT = sub(u.nilT)
			vals[i] = &n
		case *Loc:
			st.cells[u.cell] = sub(st.cells[u.cell].(*Term))
		}
	}
	for _, q := range post {
		st.assume(q)
	}
	for _, q := range lows {
		st.assume(subst(q, def))
	}
	switch len(vals) {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	return Tuple(vals)
}

// fixedArg reads a slice of n strings; the callee may overwrite the slice.
func (x *Exec) fixedArg(st *State, a Value, n int, typ types.Type) *Term {
	sv, ok := a.(*SliceVal)
	if !ok || sv.loc == nil || len(sv.loc.path) != 0 || sv.lo != Int(0) {
		panic(unsupported("slice argument"))
	}
	ar, ok := x.rootVal(st, sv.loc).(Arr)
	if !ok || len(ar) != n || sv.hi != Int(int64(n)) || !sv.loc.cell.owned {
		panic(unsupported("slice argument"))
	}
	t := seqEmpty(SeqSort(SStr))
	nw := make(Arr, n)
	for j, e := range ar {
		if iv, ok := e.(*IfaceVal); ok {
			b, isB := iv.typ.(*types.Basic)
			if iv.v == nil || !isB || b.Kind() != types.String {
				panic(unsupported("element of a slice argument"))
			}
			e = iv.v
		}
		et := x.toTerm(st, e, SStr)
		t = SeqCat(t, SeqUnit(t.Sort, et))
		nw[j] = x.boxString(typ, Fresh(SStr, "overwritten"))
	}
	st.cells[sv.loc.cell] = nw
	return t
}

func (x *Exec) storeBack(st *State, a Value, t *Term, typ types.Type, pos token.Pos) {
	switch l := a.(type) {
	case *Loc:
		if len(l.path) == 0 {
			x.setRoot(st, l, t)
			x.bump(st, l)
			return
		}
		root, ok := x.rootVal(st, l).(*Term)
		if !ok {
			if a, isA := x.rootVal(st, l).(Arr); isA && len(l.path) == 1 && l.path[0].idx.lit {
				b := append(Arr(nil), a...)
				b[l.path[0].idx.n] = t
				st.cells[l.cell] = b
				return
			}
			panic(unsupported("modified argument"))
		}
		x.setRoot(st, l, put(root, l.path, t))
		x.bump(st, l)
	case *SliceVal:
		if l.loc == nil {
			panic(unsupported("callee modifies the nodes of a slice without a place"))
		}
		if ar, ok := x.rootVal(st, l.loc).(Arr); ok && len(l.loc.path) == 0 {
			// each element is a node of its own
			for i, e := range ar {
				p, ok := e.(*Loc)
				if !ok || l.lo != Int(0) || l.hi != Int(int64(len(ar))) {
					panic(unsupported("modified slice argument"))
				}
				x.storeBack(st, p, SeqNth(t, Int(int64(i))), nil, pos)
			}
			return
		}
		b := x.backing(st, l)
		nt := SeqCat(SeqCat(SeqSub(b, Int(0), l.lo), t), SeqSub(b, l.hi, SeqLen(b)))
		if x.subSeq(st, b, l.lo, l.hi) == b {
			nt = t
			if e := Eq(SeqLen(t), SeqLen(b)); e != True && !contains2(st.pc, e) {
				st.assume(e) // a contract cannot change the length of a slice
			}
		}
		if len(l.loc.path) == 0 {
			x.setRoot(st, l.loc, nt)
		} else {
			root := x.rootVal(st, l.loc).(*Term)
			x.setRoot(st, l.loc, put(root, l.loc.path, nt))
		}
		x.bump(st, l.loc.sub(step{any: true}))
	case *Term:
		s := sortOf(derefType(typ))
		st.heap[s] = Store(x.heapArr(st, s), l, t)
	default:
		panic(unsupported(fmt.Sprintf("modified argument %T", a)))
	}
}

// disjoint is the condition under which two arguments share no location.
func disjoint(a, b Value) *Term {
	la, lb := argLoc(a), argLoc(b)
	if la == nil || lb == nil || la.cell != lb.cell || la.heap != lb.heap {
		return True
	}
	d := False
	if la.cell == nil {
		d = Not(Eq(la.ref, lb.ref))
	}
	for i := 0; i < len(la.path) && i < len(lb.path); i++ {
		s, t := la.path[i], lb.path[i]
		if s.field != t.field {
			return True
		}
		if s.idx != nil && t.idx != nil {
			// equal up to here, or different from here on
			d = Or(d, Not(Eq(s.idx, t.idx)))
		}
	}
	return d
}

func argLoc(v Value) *Loc {
	switch u := v.(type) {
	case *Loc:
		return u
	case *SliceVal:
		return u.loc
	}
	return nil
}

func (x *Exec) evalCall(c *Contract, f *SpecFn, st *State, e *entryInfo, ce *callEnv) *Term {
	return x.evalCallPost(c, f, st, e, ce, nil, nil)
}

func (x *Exec) evalCallPost(c *Contract, f *SpecFn, st *State, e *entryInfo, ce *callEnv, nh map[Sort]*Term, nw *Term) *Term {
	bs := c.binds(f)
	args := make([]*Term, len(bs))
	for i, b := range bs {
		switch b.kind {
		case "param":
			args[i] = e.terms[b.index]
		case "param1":
			args[i] = ce.cur[b.index]
		case "world":
			args[i] = e.world
		case "world1":
			args[i] = nw
		case "heap":
			args[i] = x.entryHeap(st, e, b.sort)
		case "heap1":
			args[i] = nh[arrKV[b.sort][1]]
		case "result":
			args[i] = ce.results[b.index]
		case "nilflag":
			t := bs[b.index]
			switch t.kind {
			case "result":
				args[i] = ce.nils[t.index]
			case "param":
				args[i] = e.args[t.index].(*SliceVal).nilT
			}
		}
		if args[i] == nil || args[i].Sort != b.sort {
			panic(unsupported("value of " + b.name + " of " + f.Name + " at a call"))
		}
	}
	return x.spec.inlineFn(f, args)
}

// recursive tells whether fn may call the unit again.
func (x *Exec) recursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == x.con.fn {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && visit(g) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(fn)
}

// ---- hints ----

// hintCands instantiates the hints of the unit over the values at a loop.
func (x *Exec) hintCands(entry, probe *State, l *loop) []*cand {
	var out []*cand
	for _, h := range x.con.hints {
		for _, ev := range x.hintInst(h, probe, l) {
			out = append(out, ev)
		}
	}
	return out
}

// getter reads a wildcard value from a state at the loop header.
type getter struct {
	desc string
	get  func(s *State) *Term
}

func (x *Exec) hintInst(h *SpecFn, probe *State, l *loop) []*cand {
	bs := x.con.bindsHint(h)
	choices := make([][]getter, len(bs))
	for i, b := range bs {
		i, b := i, b
		switch b.kind {
		case "entry":
			t := x.entry.terms[b.index]
			choices[i] = []getter{{b.name, func(*State) *Term { return t }}}
		case "current":
			choices[i] = []getter{{b.name, func(s *State) *Term { return x.curParam(s, x.con, x.entry, b.index) }}}
		case "world":
			choices[i] = []getter{{b.name, func(*State) *Term { return x.entry.world }}}
		case "world1":
			choices[i] = []getter{{b.name, func(s *State) *Term { return s.world }}}
		case "heap":
			b := b
			choices[i] = []getter{{b.name, func(s *State) *Term { return x.entryHeap(s, x.entry, b.sort) }}}
		case "heap1":
			b := b
			choices[i] = []getter{{b.name, func(s *State) *Term { return x.heapArr(s, arrKV[b.sort][1]) }}}
		case "low":
			choices[i] = []getter{{b.name, func(s *State) *Term { return s.low() }}}
		case "wild":
			if isRune(b.typ) {
				choices[i] = x.wildRunes(probe, l)
				continue
			}
			choices[i] = x.wild(b.sort, specTypeName(b.typ) == "Ref", probe, l)
		}
	}
	n := 1
	for _, c := range choices {
		n *= len(c)
		if n > 4000 {
			n = 4000
		}
	}
	var out []*cand
	idx := make([]int, len(bs))
	for k := 0; k < n; k++ {
		sel := make([]getter, len(bs))
		var desc []string
		for i := range bs {
			sel[i] = choices[i][idx[i]]
			desc = append(desc, sel[i].desc)
		}
		out = append(out, &cand{h.Name + "(" + strings.Join(desc, ", ") + ")", true, func(s *State) *Term {
			args := make([]*Term, len(sel))
			for i := range sel {
				args[i] = sel[i].get(s)
				if args[i].Sort != bs[i].sort {
					panic(unsupported("hint sort"))
				}
			}
			return x.spec.inlineFn(h, args)
		}})
		for i := len(bs) - 1; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(choices[i]) {
				break
			}
			idx[i] = 0
		}
	}
	return out
}

// bindsHint classifies the parameters of a hint: x0 is the entry value of
// parameter x, x its current value, anything else a wildcard.
func (c *Contract) bindsHint(h *SpecFn) []bind {
	pos := map[string]int{}
	for _, b := range c.binds(c.posts[0]) {
		if b.kind == "param" {
			pos[b.name] = b.index
		}
	}
	var out []bind
	for i := 0; i < h.Sig.Params().Len(); i++ {
		p := h.Sig.Params().At(i)
		b := bind{name: p.Name(), typ: p.Type(), sort: sortOf(p.Type())}
		tn := specTypeName(p.Type())
		if k, ok := pos[p.Name()]; ok {
			b.kind, b.index = "current", k
		} else if k, ok := pos[strings.TrimSuffix(p.Name(), "0")]; ok && strings.HasSuffix(p.Name(), "0") {
			b.kind, b.index = "entry", k
		} else if p.Name() == "low" && tn == "Ref" {
			b.kind = "low"
		} else if tn == "World" || tn == "Heap" {
			b.kind = strings.ToLower(tn)
			if !strings.HasSuffix(p.Name(), "0") {
				b.kind += "1"
			}
		} else {
			b.kind = "wild"
		}
		out = append(out, b)
	}
	return out
}

// wild lists the values of a sort available at a loop header.
func (x *Exec) wild(s Sort, ref bool, probe *State, l *loop) []getter {
	var out []getter
	depth := len(probe.frames) - 1
	seen := map[string]bool{}
	add := func(g getter) {
		if !seen[g.desc] {
			seen[g.desc] = true
			out = append(out, g)
		}
	}
	for d := depth; d >= 0; d-- {
		x.wildVals(s, ref, probe, l, d, add)
	}
	var cells []*Cell
	for c := range probe.cells {
		if !c.param {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		c := c
		switch u := probe.cells[c].(type) {
		case *Term:
			if a := adts[u.Sort]; a != nil && s == SErr && c.owned {
				for i, f := range a.Fields {
					if f := f; a.Sorts[i] == s {
						add(getter{fmt.Sprintf("%s#%d.%s", c.name, c.id, f), func(st *State) *Term { return Field(st.cells[c].(*Term), f) }})
					}
				}
			}
			if u.Sort == s && (s != SInt || c.typ == nil || ref != isNumeric(c.typ)) {
				add(getter{fmt.Sprintf("%s#%d", c.name, c.id), func(st *State) *Term {
					t, ok := st.cells[c].(*Term)
					if !ok {
						panic(unsupported("cell"))
					}
					return t
				}})
				if s == SInt && !ref {
					add(getter{fmt.Sprintf("%s#%d+1", c.name, c.id), func(st *State) *Term { return Add(st.cells[c].(*Term), Int(1)) }})
				}
			}
		case *SliceVal:
			if u.seq == s {
				add(getter{fmt.Sprintf("%s#%d", c.name, c.id), func(st *State) *Term { return x.sliceTerm(st, st.cells[c].(*SliceVal)) }})
			}
		}
	}
	return out
}

func isRune(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// wildRunes lists the runes that variables hold at a loop header.
func (x *Exec) wildRunes(probe *State, l *loop) []getter {
	var out []getter
	d := len(probe.frames) - 1
	f := probe.frames[d]
	var vals []ssa.Value
	for v := range f.vals {
		in, ok := v.(ssa.Instruction)
		_, isParam := v.(*ssa.Parameter)
		if isRune(v.Type()) && (isParam && d > 0 || ok && (in.Block() == l.head || in.Block().Dominates(l.head))) {
			if _, ok := f.vals[v].(*Term); ok {
				vals = append(vals, v)
			}
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	for _, v := range vals {
		v := v
		out = append(out, getter{v.Name(), func(st *State) *Term { return st.frames[d].vals[v].(*Term) }})
	}
	return out
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// wildVals lists the values of a sort that the variables of frame d hold: loop
// variables, and results of calls and parameters that are not integers.
func (x *Exec) wildVals(s Sort, ref bool, probe *State, l *loop, d int, add func(getter)) {
	f := probe.frames[d]
	at := f.block
	if d == len(probe.frames)-1 {
		at = l.head
	}
	var vals []ssa.Value
	for v := range f.vals {
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() == at || v.Block().Dominates(at) {
				vals = append(vals, v)
			}
		case *ssa.Call, *ssa.Extract:
			b := v.(ssa.Instruction).Block()
			if (s != SInt || ref) && b != at && b.Dominates(at) {
				vals = append(vals, v)
			}
		case *ssa.Parameter:
			if (s != SInt || ref) && d > 0 {
				vals = append(vals, v)
			}
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	prefix := strings.Repeat("^", len(probe.frames)-1-d)
	for _, v := range vals {
		v := v
		name := prefix + v.Name()
		switch u := f.vals[v].(type) {
		case *Term:
			if u.Sort != s || s == SInt && ref == isNumeric(v.Type()) {
				continue
			}
			add(getter{name, func(st *State) *Term { return st.frames[d].vals[v].(*Term) }})
			if s == SInt && !ref && !u.lit {
				add(getter{name + "+1", func(st *State) *Term { return Add(st.frames[d].vals[v].(*Term), Int(1)) }})
			}
		case *SliceVal:
			if u.seq != s {
				continue
			}
			add(getter{name, func(st *State) *Term { return x.sliceTerm(st, st.frames[d].vals[v].(*SliceVal)) }})
		}
	}
}

func (x *Exec) variantHints(head *State, l *loop) []func(*State) *Term {
	var out []func(*State) *Term
	for _, h := range x.con.variants {
		for _, c := range x.hintInst(h, head, l) {
			c := c
			out = append(out, func(s *State) (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupportedErr); !ok {
							panic(r)
						}
						t = nil
					}
				}()
				return c.eval(s)
			})
		}
	}
	return out
}
