package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

// Value is a symbolic value: *Term, *Loc, *SliceVal, *Clo, *IfaceVal,
// Tuple, Arr, *MapVal, NilPtr or *Iter.
type Value interface{}

type step struct {
	field string
	idx   *Term
	any   bool // some index
}

// Cell is a memory object of its own.
type Cell struct {
	id      int
	name    string
	typ     types.Type
	param   bool
	shallow bool // shares its children with another node
	owned   bool // allocated by the code under verification
	// nodes of this cell have a nil Content exactly when it is empty
	nilEmpty bool
}

// Loc is the address of a location: in a cell or in a heap object.
type Loc struct {
	cell *Cell
	heap Sort // heap mode: the struct type
	ref  *Term
	path []step
}

func (l *Loc) sub(s step) *Loc {
	p := make([]step, len(l.path)+1)
	copy(p, l.path)
	p[len(l.path)] = s
	return &Loc{l.cell, l.heap, l.ref, p}
}

func (l *Loc) same(m *Loc) bool {
	if l.cell != m.cell || l.heap != m.heap || l.ref != m.ref || len(l.path) != len(m.path) {
		return false
	}
	for i := range l.path {
		if l.path[i] != m.path[i] {
			return false
		}
	}
	return true
}

func (l *Loc) String() string {
	s := ""
	if l.cell != nil {
		s = l.cell.name
	} else {
		s = l.heap + "@" + l.ref.String()
	}
	for _, p := range l.path {
		if p.idx != nil {
			s += "[" + p.idx.String() + "]"
		} else {
			s += "." + p.field
		}
	}
	return s
}

// SliceVal is a slice: a view of the sequence at loc, or an immutable
// snapshot when loc is nil.
type SliceVal struct {
	loc    *Loc
	snap   *Term
	lo, hi *Term
	nilT   *Term
	seq    Sort
	full   *Loc // the slice is the result of append(x, ...) with x at full
	capped bool // the capacity equals the length
	vers   int
}

// Clo is a function value.
type Clo struct {
	fn    *ssa.Function
	binds []Value
	id    *Term // the identity of a closure that is used as a value
	made  *ssa.MakeClosure
}

// IfaceVal is an interface value with a known dynamic type.
type IfaceVal struct {
	typ types.Type
	v   Value
}

type Tuple []Value

// Arr is the content of an array cell.
type Arr []Value

// MapVal is a map object.
type MapVal struct {
	cell   *Cell // holds the Map ADT term
	shared bool  // others may hold it
}

type NilPtr struct{}

// Iter iterates over a string.
type Iter struct{ cell *Cell }

// ---- states ----

type Frame struct {
	id       int
	fn       *ssa.Function
	vals     map[ssa.Value]Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	ip       int
	call     ssa.Value                  // the call instruction in the caller
	after    func(st *State, res Value) // replaces storing the result
	unroll   map[*ssa.BasicBlock]int
	deferred []*deferred
}

type State struct {
	pc       []*Term
	frames   []*Frame
	cells    map[*Cell]Value
	heap     map[Sort]*Term
	world    *Term
	moved    map[*Cell]bool
	allocLow *Term
	bumps    []*Loc // locations assigned so far: slices read before are stale
	trace    []string
}

// low is at or below every object that was made.
func (st *State) low() *Term {
	if st.allocLow == nil {
		return Int(0)
	}
	return st.allocLow
}

func (st *State) clone() *State {
	c := &State{allocLow: st.allocLow, pc: st.pc[:len(st.pc):len(st.pc)], world: st.world, trace: st.trace[:len(st.trace):len(st.trace)]}
	c.cells = make(map[*Cell]Value, len(st.cells))
	for k, v := range st.cells {
		c.cells[k] = v
	}
	c.heap = make(map[Sort]*Term, len(st.heap))
	for k, v := range st.heap {
		c.heap[k] = v
	}
	c.moved = make(map[*Cell]bool, len(st.moved))
	for k, v := range st.moved {
		c.moved[k] = v
	}
	c.bumps = st.bumps[:len(st.bumps):len(st.bumps)]
	for _, f := range st.frames {
		g := *f
		g.vals = make(map[ssa.Value]Value, len(f.vals))
		for k, v := range f.vals {
			g.vals[k] = v
		}
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		c.frames = append(c.frames, &g)
	}
	return c
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

// Obligation is a proof obligation.
type Obligation struct {
	Unit   string // function under contract
	Kind   string
	Desc   string
	Pos    string
	Props  []string
	text   string
	By     string
	Result string
	Goal   string // of an open obligation, for the report
	Path   []string
	goal   *Term
	pc     []*Term
}

// Exec verifies one unit.
type Exec struct {
	prog   *ssa.Program
	spec   *Spec
	cons   map[string]*Contract
	unit   string
	con    *Contract
	obls   []*Obligation
	quiet  int
	nfr    int
	ncell  int
	nvers  int
	deep   int
	steps  int
	work   []*State
	ctx    *loopCtx
	loops  map[*ssa.Function]map[*ssa.BasicBlock]*loop
	notes  map[string]bool // assumptions used
	inl    map[string]bool // inlined functions
	used   map[string]bool // contracts used at calls
	entry  *entryInfo
	libs   map[string]bool
	tree   bool
	dead   int
	ends   int
	refSeq int
	cur    token.Pos
	path   string         // the loops being inferred
	visits map[string]int // visits of inner loops in this round
	surv   map[string]map[string]bool
	quick  int // > 0: only the changes of a loop matter

	inClosure bool // the body of a function value is verified
	onEnd     func(st *State, res Value, p token.Pos)
}

type loopCtx struct {
	frame  int
	blocks map[*ssa.BasicBlock]bool
	head   *ssa.BasicBlock
	back   []*State
	exits  []*exit
	up     *loopCtx
}

type exit struct {
	st       *State
	from, to *ssa.BasicBlock // nil: returned
	popped   int
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (x *Exec) note(s string) { x.notes[s] = true }

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/internal/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) newCell(name string, typ types.Type) *Cell {
	x.ncell++
	return &Cell{id: x.ncell, name: name, typ: typ}
}

// oblige records an obligation and assumes it from then on.
func (x *Exec) oblige(st *State, goal *Term, kind, desc string, p token.Pos) {
	if goal == True {
		if x.quiet == 0 && kind != "bounds" && kind != "range" {
			x.addObl(st, goal, kind, desc, p)
		}
		return
	}
	if x.quiet == 0 {
		x.addObl(st, goal, kind, desc, p)
	}
	st.assume(goal)
}

func (x *Exec) addObl(st *State, goal *Term, kind, desc string, p token.Pos) {
	x.addOblPC(st.pc, goal, kind, desc, p)
}

func (x *Exec) addOblPC(pc []*Term, goal *Term, kind, desc string, p token.Pos) {
	o := &Obligation{Unit: x.unit, Kind: kind, Desc: desc, Pos: x.pos(p), goal: goal, pc: pc}
	if goal == True {
		o.By = "simplifier"
		o.Result = "unsat"
	} else {
		for _, q := range pc {
			if q == goal {
				o.By = "simplifier"
				o.Result = "unsat"
			}
		}
		if o.By == "" {
			o.text = buildQuery(pc, goal, 10000, true)
		}
	}
	x.obls = append(x.obls, o)
}

// ---- memory ----

func (x *Exec) rootVal(st *State, l *Loc) Value {
	if l.cell != nil {
		if st.moved[l.cell] {
			panic(unsupported("access to a node after it was moved into a tree"))
		}
		v, ok := st.cells[l.cell]
		if !ok {
			panic(unsupported("unknown cell " + l.cell.name))
		}
		return v
	}
	if x.inClosure {
		x.readable(l)
	}
	if l.heap == SNode && l.ref.Sort == SNode {
		return l.ref // a node of a tree value
	}
	if l.heap == SNode && !x.tree {
		if r := x.read(st, "Node", l.ref); r != nil {
			return r
		}
		panic(unsupported("read of a node"))
	}
	return Select(x.heapArr(st, l.heap), l.ref)
}

// read is what the specification says about reading an external object.
func (x *Exec) read(st *State, key string, ref *Term) *Term {
	f := x.spec.reads[key]
	if f == nil {
		return nil
	}
	x.spec.ensureAxioms(f)
	args := []*Term{ref}
	if len(f.params) == 2 {
		args = []*Term{st.world, ref}
	}
	return x.spec.apply(f, args, nil)
}

func (x *Exec) heapArr(st *State, s Sort) *Term {
	if h := st.heap[s]; h != nil {
		return h
	}
	h := Const(mkArrSort(SInt, s), "heap0_"+s)
	st.heap[s] = h
	if x.entry != nil && x.entry.heap[s] == nil {
		x.entry.heap[s] = h
	}
	return h
}

func walk(t *Term, path []step) *Term {
	for _, s := range path {
		if s.idx != nil {
			t = SeqNthR(t, s.idx)
		} else {
			t = Field(t, s.field)
		}
	}
	return t
}

func put(t *Term, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx != nil {
		return SeqUpd(t, s.idx, put(SeqNthR(t, s.idx), path[1:], v))
	}
	return WithField(t, s.field, put(Field(t, s.field), path[1:], v))
}

func (x *Exec) termAt(st *State, l *Loc) *Term {
	v := x.rootVal(st, l)
	path := l.path
	for {
		switch u := v.(type) {
		case *Term:
			return walk(u, path)
		case Arr:
			if len(path) > 0 && path[0].idx != nil && path[0].idx.lit {
				v = u[path[0].idx.n]
				path = path[1:]
				continue
			}
			if len(path) > 0 && path[0].idx != nil {
				// symbolic index into a constant table
				r := walk(x.toTerm(st, u[len(u)-1], ""), path[1:])
				for i := len(u) - 2; i >= 0; i-- {
					r = Ite(Eq(path[0].idx, Int(int64(i))), walk(x.toTerm(st, u[i], ""), path[1:]), r)
				}
				return r
			}
			if len(path) == 0 {
				return x.arrTerm(st, u, l.cell.typ)
			}
		default:
			if len(path) == 0 {
				return x.toTerm(st, v, "")
			}
		}
		panic(unsupported("read of " + l.String()))
	}
}

func (x *Exec) arrTerm(st *State, u Arr, t types.Type) *Term {
	var el types.Type
	switch a := t.Underlying().(type) {
	case *types.Array:
		el = a.Elem()
	case *types.Slice:
		el = a.Elem()
	}
	s := SeqSort(elemSort(el))
	r := seqEmpty(s)
	var es []*Term
	for _, e := range u {
		t := x.toTerm(st, e, seqElem[s])
		es = append(es, t)
		r = SeqCat(r, SeqUnit(s, t))
	}
	// a[i], a[i+1] is a[i:i+2]
	if len(es) > 1 && strings.HasPrefix(es[0].Op, "nth_") && es[0].Args[0].Sort == s {
		a, i := es[0].Args[0], es[0].Args[1]
		for k, t := range es {
			if t != SeqNthR(a, Add(i, Int(int64(k)))) && (len(t.Args) != 2 || t.Op != es[0].Op || t.Args[0] != a || t.Args[1] != Add(i, Int(int64(k)))) {
				return r
			}
		}
		if n := Int(int64(len(es))); valid(st.pc, And(Le(Int(0), i), Le(Add(i, n), SeqLen(a))), 2000) {
			return SeqSub(a, i, Add(i, n))
		}
	}
	return r
}

func (x *Exec) setRoot(st *State, l *Loc, v Value) {
	if l.cell != nil {
		st.cells[l.cell] = v
		return
	}
	if l.ref.Sort == SNode {
		panic(unsupported("write to a node of a tree value"))
	}
	t := x.toTerm(st, v, l.heap)
	st.heap[l.heap] = Store(x.heapArr(st, l.heap), l.ref, t)
}

// load reads the location as a value of the Go type t.
func (x *Exec) load(st *State, l *Loc, t types.Type) Value {
	if l.cell == nil && l.heap == SNode && !x.tree && len(l.path) == 1 && l.ref.Sort != SNode {
		if r := x.read(st, "Node."+l.path[0].field, l.ref); r != nil {
			return x.fromTerm(st, r, t, nil)
		}
		return x.freshVal(st, t, "node_"+l.path[0].field)
	}
	v := x.rootVal(st, l)
	path := l.path
	for {
		if a, ok := v.(Arr); ok && len(path) > 0 && path[0].idx != nil && path[0].idx.lit {
			v = a[path[0].idx.n]
			path = path[1:]
			continue
		}
		break
	}
	if len(path) == 0 {
		if tm, ok := v.(*Term); ok {
			return x.fromTerm(st, tm, t, l)
		}
		return v
	}
	return x.fromTerm(st, x.termAt(st, l), t, l)
}

// fromTerm gives a term the shape of a Go value; l is its location, if any.
func (x *Exec) fromTerm(st *State, t *Term, typ types.Type, l *Loc) Value {
	if x.tree && isNodePtr(typ) && t.Sort == SNode {
		if l == nil {
			c := x.newCell("node", typ)
			st.cells[c] = t
			return &Loc{cell: c}
		}
		return l
	}
	switch u := typ.Underlying().(type) {
	case *types.Map:
		if isMapSort(t.Sort) {
			c := x.newCell("map", typ)
			st.cells[c] = t
			return &MapVal{cell: c, shared: true}
		}
	case *types.Slice:
		_ = u
		if !isSeq(t.Sort) {
			panic(unsupported("slice of sort " + t.Sort))
		}
		return &SliceVal{loc: l, snap: t, lo: Int(0), hi: SeqLen(t), nilT: x.nilOf(st, l, t), seq: t.Sort, vers: len(st.bumps)}
	}
	return t
}

// bump records that the location was assigned.
func (x *Exec) bump(st *State, l *Loc) {
	st.bumps = append(st.bumps, l)
}

// stale tells whether the slice header at l may have changed since.
func stale(st *State, l *Loc, since int) bool {
	for _, b := range st.bumps[since:] {
		if b.cell != l.cell || b.heap != l.heap || len(b.path) > len(l.path) {
			continue
		}
		same := true
		for i, s := range b.path {
			t := l.path[i]
			if s.field != t.field {
				same = false
				break
			}
			if s.idx != nil && t.idx != nil {
				if d := Sub(s.idx, t.idx); d.lit && d.n != 0 {
					same = false
					break
				}
			}
		}
		if same {
			return true
		}
	}
	return false
}

// nilOf is the nil test of the slice at l.
func (x *Exec) nilOf(st *State, l *Loc, t *Term) *Term {
	if l != nil && len(l.path) > 0 {
		f := l.path[len(l.path)-1].field
		if f == "Content" {
			if l.cell != nil && l.cell.nilEmpty {
				return Eq(SeqLen(t), Int(0))
			}
			if k := len(l.path); k > 1 && l.path[k-2].field != "" {
				owner := x.termAt(st, &Loc{l.cell, l.heap, l.ref, l.path[:k-2]})
				if nilEmptyField[owner.Sort+"."+l.path[k-2].field] {
					return Eq(SeqLen(t), Int(0))
				}
			}
			n := Fresh(SBool, "isnil")
			st.assume(Implies(n, Eq(SeqLen(t), Int(0))))
			return n
		}
		if f != "" {
			parent := &Loc{l.cell, l.heap, l.ref, l.path[:len(l.path)-1]}
			p := x.termAt(st, parent)
			if d := adts[p.Sort]; d != nil && d.idx(f+"__nil") >= 0 {
				n := Field(p, f+"__nil")
				if n != False {
					st.assume(Implies(n, Eq(SeqLen(t), Int(0))))
				}
				return n
			}
		}
	}
	n := Fresh(SBool, "isnil")
	st.assume(Implies(n, Eq(SeqLen(t), Int(0))))
	return n
}

// store writes v at the location.
func (x *Exec) store(st *State, l *Loc, v Value) {
	if n := len(l.path); n > 0 && x.tree && l.cell != nil && isNodeCell(l.cell) && (l.path[n-1].field == "Line" || l.path[n-1].field == "Column") {
		return // the model of a node leaves them out
	}
	if len(l.path) == 0 {
		if p, ok := v.(*Loc); ok && l.cell != nil && !isNodeCell(l.cell) {
			st.cells[l.cell] = p
			return
		}
		if t, ok := v.(*Term); ok && t.Sort == SNode && x.tree && l.cell != nil {
			// a struct copy shares the children of its source
			if l.cell.param {
				x.oblige(st, Eq(SeqLen(Field(t, "Content")), Int(0)), "sharing", "a node copied by assignment shares no children", x.cur)
			} else if !isCopy(t) && len(l.path) == 0 {
				l.cell.shallow = true
			}
		}
		x.setRoot(st, l, v)
		return
	}
	root := x.rootVal(st, l)
	if a, ok := root.(Arr); ok {
		if !(l.path[0].idx != nil && l.path[0].idx.lit) {
			panic(unsupported("store at a symbolic index of an array"))
		}
		b := append(Arr(nil), a...)
		i := l.path[0].idx.n
		if len(l.path) == 1 {
			b[i] = v
		} else {
			el, ok := b[i].(*Term)
			if !ok {
				panic(unsupported("store into " + l.String()))
			}
			b[i] = put(el, l.path[1:], x.toTerm(st, v, walk(el, l.path[1:]).Sort))
		}
		st.cells[l.cell] = b
		return
	}
	rt, ok := root.(*Term)
	if !ok {
		panic(unsupported("store into " + l.String()))
	}
	if _, ok := v.(*Term); ok && adts[rt.Sort] == nil && strings.HasPrefix(rt.Sort, "X_") {
		// some change to an object whose struct is not known
		x.setRoot(st, l, Fresh(rt.Sort, "changed"))
		return
	}
	old := walk(rt, l.path)
	last := l.path[len(l.path)-1]
	if sv, ok := v.(*SliceVal); ok {
		if sv.full != nil && !sv.full.same(l) && !sv.capped {
			x.oblige(st, False, "aliasing", "the result of append goes back to the appended slice", x.cur)
		}
		if sv.seq == SeqSort(SNode) && x.tree && sv.loc != nil && !sv.loc.same(l) {
			t := x.sliceTerm(st, sv)
			x.moveAll(st, sv, x.cur)
			sv = &SliceVal{snap: t, lo: Int(0), hi: SeqLen(t), nilT: sv.nilT, seq: sv.seq}
		}
		t := x.sliceTerm(st, sv)
		nt := put(rt, l.path, t)
		if last.field != "" && last.field != "Content" {
			pp := append(append([]step(nil), l.path[:len(l.path)-1]...), step{field: last.field + "__nil"})
			parent := walk(nt, pp[:len(pp)-1])
			if d := adts[parent.Sort]; d != nil && d.idx(last.field+"__nil") >= 0 {
				nt = put(nt, pp, sv.nilT)
			}
		}
		x.setRoot(st, l, nt)
		x.bump(st, l)
		return
	}
	t := x.toTerm(st, v, old.Sort)
	x.setRoot(st, l, put(rt, l.path, t))
	if p, ok := v.(*Loc); ok && old.Sort == SNode {
		x.move(st, p)
	}
	if l.cell != nil && l.cell.shallow {
		for _, s := range l.path {
			if s.field == "Content" {
				x.oblige(st, False, "sharing", "children shared with another node are not modified", x.cur)
			}
		}
	}
	if old.Sort == SNode || isSeq(old.Sort) {
		x.bump(st, l)
	}
}

func isNodeCell(c *Cell) bool {
	return c.typ != nil && isNodeType(c.typ)
}

// move marks the object at p as part of another tree.
func (x *Exec) move(st *State, p *Loc) {
	if p.cell != nil && p.cell.owned && len(p.path) == 0 {
		st.moved[p.cell] = true
		return
	}
	x.oblige(st, False, "sharing", "a stored node belongs to no other tree", x.cur)
}

func isCopy(t *Term) bool { return false }

// sliceTerm is the current content of a slice.
func (x *Exec) sliceTerm(st *State, s *SliceVal) *Term {
	return x.subSeq(st, x.backing(st, s), s.lo, s.hi)
}

// subSeq is b[lo:hi], or b where the path condition says that this is all.
func (x *Exec) subSeq(st *State, b, lo, hi *Term) *Term {
	if lo == Int(0) {
		if e := Eq(hi, SeqLen(b)); e == True || contains2(st.pc, e) {
			return b
		}
	}
	return SeqSub(b, lo, hi)
}

func contains2(ts []*Term, t *Term) bool {
	for _, p := range ts {
		if p == t {
			return true
		}
	}
	return false
}

func (x *Exec) backing(st *State, s *SliceVal) *Term {
	if s.loc == nil {
		return s.snap
	}
	x.checkFresh(st, s)
	x.deep++
	defer func() { x.deep-- }()
	if x.deep > 1000 {
		panic(unsupported("a slice of itself"))
	}
	return x.termAt(st, s.loc)
}

// checkFresh makes sure that the variable of a slice was not assigned since.
func (x *Exec) checkFresh(st *State, s *SliceVal) {
	if s.loc == nil {
		return
	}
	if s.loc.cell != nil && st.moved[s.loc.cell] {
		panic(unsupported("access to a slice after it was moved"))
	}
	if stale(st, s.loc, s.vers) {
		panic(unsupported("use of a slice after its variable was assigned: " + s.loc.String()))
	}
}

// toTerm converts a value to a term (of the given sort, if not empty).
func (x *Exec) toTerm(st *State, v Value, want Sort) *Term {
	switch u := v.(type) {
	case *Term:
		if want != "" && u.Sort != want {
			if want == SIface {
				return box(u)
			}
			panic(unsupported("value of sort " + u.Sort + " where " + want + " is needed"))
		}
		return u
	case *SliceVal:
		return x.sliceTerm(st, u)
	case *Loc:
		if want == SInt || want == "" && !x.tree {
			return x.addrTerm(st, u)
		}
		if want == SIface {
			return mk(SIface, "box_ptr", x.addrTerm(st, u))
		}
		return x.termAt(st, u)
	case Arr:
		if isSeq(want) {
			s := want
			r := seqEmpty(s)
			for _, e := range u {
				r = SeqCat(r, SeqUnit(s, x.toTerm(st, e, seqElem[s])))
			}
			return r
		}
	case NilPtr:
		if want == SNode {
			return Const(SNode, "nilNode")
		}
		if want == SInt || want == "" {
			return Int(0)
		}
		if want == SErr {
			return NilErr
		}
		if want == SIface {
			return Const(SIface, "nilIface")
		}
		if want == SStr && x.tree {
			return zeroTerm(SStr) // no alias
		}
		if isSeq(want) && !x.tree {
			return Const(want, "nilPointer_"+clean(want)) // of a nil pointer to a slice nothing is known
		}
	case *IfaceVal:
		if u.v == nil {
			if want == SErr {
				return NilErr
			}
			return Const(SIface, "nilIface")
		}
		t := x.toTerm(st, u.v, "")
		if want == SErr {
			return mk(SErr, "errOf_"+clean(u.typ.String()), t)
		}
		return box(t)
	case *Clo:
		if u.fn == nil {
			return Int(0)
		}
		t := x.fnTerm(u)
		x.made(st, u, t)
		return t
	case *MapVal:
		if u.cell == nil {
			break
		}
		return st.cells[u.cell].(*Term)
	}
	panic(unsupported(fmt.Sprintf("value %T as a term", v)))
}

// fnTerm is the identity of a function value.
func (x *Exec) fnTerm(c *Clo) *Term {
	if len(c.binds) > 0 {
		return x.cloTerm(c)
	}
	t := Const(SInt, "fn_"+clean(c.fn.RelString(nil)))
	distinctConst[t] = true
	if symAxioms[t.Op] == nil {
		symAxioms[t.Op] = []*Term{Not(Eq(t, Int(0)))}
	}
	fnOf[t] = c.fn
	return t
}

// cloTerm is the identity of a closure: a new value. What the closure does when
// it is called is not known, so its variables must only be read by it, and no
// function of its package may call a function value of its type that is under
// verification (dynCall refuses).
func (x *Exec) cloTerm(c *Clo) *Term {
	for _, v := range c.fn.FreeVars {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
			case *ssa.DebugRef:
			default:
				_ = r
				panic(unsupported("a closure that changes or shares its variables as a value"))
			}
		}
	}
	if c.id == nil {
		c.id = Fresh(SInt, "closure")
		symAxioms[c.id.Op] = []*Term{Lt(Int(0), c.id)}
	}
	return c.id
}

var fnOf = map[*Term]*ssa.Function{}

// addrTerm is the identity of an object.
func (x *Exec) addrTerm(st *State, l *Loc) *Term {
	if l.cell != nil {
		if l.cell.typ != nil && isNodeCell(l.cell) || x.tree {
			if len(l.path) == 0 || l.path[len(l.path)-1].idx != nil {
				if t, ok := st.cells[l.cell].(*Term); ok && !st.moved[l.cell] {
					w := walk(t, l.path)
					if w.Sort == SNode {
						return Field(w, "ID")
					}
				}
			}
		}
		if len(l.path) == 0 {
			t := Const(SInt, fmt.Sprintf("cell!%d", l.cell.id))
			distinctConst[t] = true
			return t
		}
		panic(unsupported("address of " + l.String()))
	}
	t := l.ref
	n := l.heap
	for _, s := range l.path {
		if s.idx != nil {
			panic(unsupported("address of " + l.String()))
		}
		n += "_" + s.field
	}
	if len(l.path) == 0 {
		return t
	}
	return mk(SInt, "addr_"+n, t)
}

// ---- values of instructions ----

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch u := v.(type) {
	case *ssa.Const:
		return x.constVal(u)
	case *ssa.Function:
		return &Clo{fn: u}
	case *ssa.Global:
		return u
	case *ssa.Builtin:
		return u
	}
	r, ok := st.top().vals[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), st.top().fn)))
	}
	if p, ok := r.(*pendingAlloc); ok {
		r = x.alloc(st, p.i)
		x.set(st, v, r)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolTerm(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		n, ok := constant.Int64Val(c.Value)
		if !ok {
			panic(unsupported("large constant"))
		}
		return Int(n)
	}
	panic(unsupported("constant " + c.String()))
}

// zero is the zero value of a type.
func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return seqEmpty(SStr)
		case u.Kind() == types.UntypedNil:
			return NilPtr{}
		}
	case *types.Slice:
		s := SeqSort(elemSortOf(x, u.Elem()))
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			s = SStr
		}
		return &SliceVal{snap: seqEmpty(s), lo: Int(0), hi: Int(0), nilT: True, seq: s}
	case *types.Pointer:
		if x.tree && isNodePtr(t) {
			return NilPtr{}
		}
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return Int(0)
		}
		return NilPtr{}
	case *types.Interface:
		if sortOf(t) == SErr {
			return NilErr
		}
		return &IfaceVal{}
	case *types.Signature:
		return &Clo{}
	case *types.Struct:
		s := sortOf(t)
		if s == SStr {
			return seqEmpty(SStr)
		}
		if s == "Unit" || adts[s] == nil {
			return Const(s, "zero_"+clean(s))
		}
		return zeroTerm(s)
	case *types.Array:
		if u.Len() > 256 {
			break
		}
		a := make(Arr, u.Len())
		for i := range a {
			a[i] = x.zero(u.Elem())
		}
		return a
	case *types.Map:
		return &MapVal{}
	case *types.Chan:
		return Int(0)
	}
	panic(unsupported("zero value of " + t.String()))
}

func elemSortOf(x *Exec, t types.Type) Sort {
	save := treeMode
	treeMode = x.tree
	defer func() { treeMode = save }()
	return elemSort(t)
}

// freshVal is an arbitrary value of a type.
func (x *Exec) freshVal(st *State, t types.Type, name string) Value {
	if x.tree && isNodePtr(t) {
		panic(unsupported("arbitrary node pointer " + name))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := SeqSort(elemSortOf(x, u.Elem()))
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			s = SStr
		}
		f := Fresh(s, name)
		n := Fresh(SBool, name+"_nil")
		st.assume(Implies(n, Eq(SeqLen(f), Int(0))))
		return &SliceVal{snap: f, lo: Int(0), hi: SeqLen(f), nilT: n, seq: s}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = x.freshVal(st, u.At(i).Type(), fmt.Sprintf("%s_%d", name, i))
		}
		return r
	}
	f := Fresh(sortOf(t), name)
	x.typeRange(st, f, t)
	return f
}

// typeRange assumes the machine range of an integer.
func (x *Exec) typeRange(st *State, f *Term, t types.Type) {
	if lo, hi, ok := intRange(t); ok && f.Sort == SInt && !f.lit {
		st.assume(And(Le(lo, f), Le(f, hi)))
	}
}

func bigInt(s string) *Term { return mk(SInt, s) }

var (
	minI64 = bigInt("(- 9223372036854775808)")
	maxI64 = bigInt("9223372036854775807")
	two64  = bigInt("18446744073709551616")
	maxU64 = bigInt("18446744073709551615")
)

func intRange(t types.Type) (lo, hi *Term, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return nil, nil, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return minI64, maxI64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return Int(0), maxU64, true
	case types.Uint32:
		return Int(0), Int(1<<32 - 1), true
	case types.Uint8:
		return Int(0), Int(255), true
	case types.Int32:
		return Int(-1 << 31), Int(1<<31 - 1), true
	}
	return nil, nil, false
}

func (x *Exec) set(st *State, v ssa.Value, r Value) { st.top().vals[v] = r }

// ---- running ----

const maxSteps = 400000

// run executes until the work list is empty.
func (x *Exec) run(st *State) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		work = append(work, x.exec(s)...)
	}
}

// exec runs a state until it ends or forks and returns the successors.
func (x *Exec) exec(st *State) []*State {
	for {
		x.steps++
		if x.steps > maxSteps {
			panic(unsupported("too many steps"))
		}
		if x.steps%64 == 0 && pastDeadline() {
			panic(unsupported("no time left"))
		}
		if len(st.frames) == 0 {
			return nil
		}
		f := st.top()
		if f.ip >= len(f.block.Instrs) {
			panic(unsupported("fell off block"))
		}
		in := f.block.Instrs[f.ip]
		f.ip++
		if in.Pos().IsValid() {
			x.cur = in.Pos()
		}
		switch i := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			next := x.jump(st, f.block, f.block.Succs[0])
			if len(next) == 1 {
				st = next[0]
				continue
			}
			return next
		case *ssa.If:
			c := x.val(st, i.Cond).(*Term)
			return x.branch(st, c, f.block.Succs[0], f.block.Succs[1])
		case *ssa.Return:
			var res Value
			switch len(i.Results) {
			case 0:
			case 1:
				res = x.val(st, i.Results[0])
			default:
				t := make(Tuple, len(i.Results))
				for k, r := range i.Results {
					t[k] = x.val(st, r)
				}
				res = t
			}
			if !x.ret(st, res, i.Pos()) {
				return nil
			}
			continue
		case *ssa.Panic:
			x.oblige(st, False, "panic", "the explicit panic is unreachable", i.Pos())
			x.dead++
			return nil
		case *ssa.RunDefers:
			if n := len(f.deferred); n > 0 {
				d := f.deferred[n-1]
				f.deferred = f.deferred[:n-1]
				f.ip--
				if d.builtin != "" {
					x.builtin(st, d.builtin, d.args, d.call, i.Pos())
					continue
				}
				clo, ok := d.fn.(*Clo)
				if !ok {
					panic(unsupported("deferred call"))
				}
				x.invokeFn(st, clo.fn, clo, d.args, nil, i.Pos())
			}
			continue
		case ssa.CallInstruction:
			if g := i.Common().StaticCallee(); g != nil && strings.HasPrefix(fullName(g), "(*github.com/op/go-logging.Logger).Fatal") {
				if _, ok := in.(*ssa.Call); ok && !x.tree {
					x.note("Fatal ends the process with a message and status 1; contracts speak of what comes back")
					x.dead++
					return nil
				}
			}
			succ, stay := x.call(st, i)
			if !stay {
				return succ
			}
			continue
		default:
			x.instr(st, in)
		}
	}
}

// feasible tells whether the path condition may hold together with c.
func (x *Exec) feasible(st *State, c *Term) bool {
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	n := Not(c)
	for _, p := range st.pc {
		if p == n {
			return false
		}
		if p == c {
			return true
		}
	}
	return !valid(st.pc, n, 300)
}

func (x *Exec) branch(st *State, c *Term, a, b *ssa.BasicBlock) []*State {
	from := st.top().block
	fa := x.feasible(st, c)
	fb := x.feasible(st, Not(c))
	var out []*State
	if fa && fb {
		s2 := st.clone()
		s2.assume(Not(c))
		st.assume(c)
		out = append(out, x.jump(s2, from, b)...)
		out = append(out, x.jump(st, from, a)...)
		return out
	}
	if fa {
		st.assume(c)
		return x.jump(st, from, a)
	}
	if fb {
		st.assume(Not(c))
		return x.jump(st, from, b)
	}
	x.dead++
	return nil
}

// ret returns from the top frame; it reports whether the state goes on.
func (x *Exec) ret(st *State, res Value, p token.Pos) bool {
	f := st.top()
	if len(st.frames) == 1 && x.onEnd != nil {
		x.onEnd(st, res, p)
		return false
	}
	if len(st.frames) == 1 {
		x.ends++
		x.finish(st, res, p)
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.after != nil {
		f.after(st, res)
	} else if f.call != nil {
		x.set(st, f.call, res)
	}
	if x.ctx != nil && x.ctx.frame == f.id {
		x.ctx.exits = append(x.ctx.exits, &exit{st: st, popped: f.id})
		return false
	}
	return true
}

// jump moves to a block; loop headers are handled by invariants.
func (x *Exec) jump(st *State, from, to *ssa.BasicBlock) []*State {
	f := st.top()
	if c := x.ctx; c != nil && c.frame == f.id {
		if to == c.head {
			// evaluate the header's phis for the next iteration
			x.phis(st, from, to)
			c.back = append(c.back, st)
			return nil
		}
		if !c.blocks[to] {
			c.exits = append(c.exits, &exit{st: st, from: from, to: to})
			return nil
		}
	}
	return x.enter(st, from, to)
}

func (x *Exec) enter(st *State, from, to *ssa.BasicBlock) []*State {
	f := st.top()
	ls := x.loopsOf(f.fn)
	if l := ls[to]; l != nil && !(l.blocks[from] && f.unroll[to] == 0) {
		entering := !l.blocks[from]
		x.phis(st, from, to)
		if entering {
			f.unroll[to] = 0
		}
		// concrete iteration?
		c, ok := x.headerCond(st, to)
		if ok && (c == True || c == False) {
			f.unroll[to]++
			if f.unroll[to] > 80 {
				panic(unsupported("too many unrolled iterations"))
			}
			return []*State{st}
		}
		if !entering && f.unroll[to] > 0 {
			// was concrete, became symbolic
			f.unroll[to] = 0
		}
		return x.loop(st, l)
	}
	x.phis(st, from, to)
	return []*State{st}
}

// phis moves to block to and sets its phis.
func (x *Exec) phis(st *State, from, to *ssa.BasicBlock) {
	f := st.top()
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vs []Value
	var ps []*ssa.Phi
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(st, p.Edges[k]))
		n++
	}
	for i, p := range ps {
		f.vals[p] = vs[i]
	}
	f.prev, f.block, f.ip = from, to, n
}

// headerCond evaluates the condition at the end of the header, if the header
// is straight-line code without effects.
func (x *Exec) headerCond(st *State, h *ssa.BasicBlock) (c *Term, ok bool) {
	br, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false
	}
	for _, in := range h.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
			if u, isU := in.(*ssa.UnOp); isU && u.Op == token.ARROW {
				return nil, false
			}
		case *ssa.Call:
			if _, b := i.Call.Value.(*ssa.Builtin); !b {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	s := st.clone()
	x.quiet++
	defer func() {
		x.quiet--
		if r := recover(); r != nil {
			if _, isU := r.(unsupportedErr); isU {
				c, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	f := s.top()
	for f.ip < len(h.Instrs)-1 {
		in := h.Instrs[f.ip]
		f.ip++
		switch i := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			x.call(s, i)
		default:
			x.instr(s, in)
		}
	}
	t, isT := x.val(s, br.Cond).(*Term)
	return t, isT
}

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if m, ok := x.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					stack = append(stack, c.Preds...)
				}
			}
		}
	}
	x.loops[fn] = m
	return m
}

// ---- loops ----

type cand struct {
	desc string
	hint bool
	eval func(st *State) *Term
}

// pcLens is the path condition together with the bounds of lengths.
func (x *Exec) pcLens(pc []*Term, more ...*Term) []*Term {
	x.note("lengths of strings and slices are at most 2^40")
	out := pc[:len(pc):len(pc)]
	seen := map[*Term]bool{}
	for _, p := range append(more, pc...) {
		for _, b := range lenBounds(p) {
			if !seen[b] {
				seen[b] = true
				out = append(out, b)
			}
		}
	}
	return out
}

func (c *cand) pc(x *Exec, st *State) []*Term {
	if strings.HasSuffix(c.desc, rangeCand) {
		return x.pcLens(st.pc)
	}
	return st.pc
}

var dumpDir = os.Getenv("GOVER_DUMP")

const rangeCand = " stays small"

// loop verifies a loop by inferring an invariant and returns the states that
// leave it. st is at the header with the phis of the entry set.
func (x *Exec) loop(st *State, l *loop) []*State {
	x.forceAllocs(st)
	f := st.top()
	entry := st.clone()
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	type hv struct {
		fields map[string]bool // nil: the whole value
	}
	havocPhi := map[*ssa.Phi]bool{}
	havocCell := map[*Cell]*hv{}
	type hh struct {
		all  bool
		refs map[*Term]*hv
	}
	havocHeap := map[Sort]*hh{}
	havocWorld := false
	havocLow := false
	var loopBumps []*Loc
	bumpSeen := map[string]bool{}
	fresh0 := fresh
	cell0, ref0 := x.ncell, x.refSeq

	mkState := func() *State {
		fresh, x.ncell, x.refSeq = fresh0, cell0, ref0
		s := entry.clone()
		tf := s.top()
		for _, p := range phis {
			if !havocPhi[p] {
				continue
			}
			name := "l_" + p.Name()
			if p.Comment != "" {
				name = "l_" + p.Comment
			}
			tf.vals[p] = x.freshVal(s, p.Type(), name)
		}
		var cs []*Cell
		for c := range havocCell {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, c := range cs {
			h := havocCell[c]
			old := s.cells[c]
			switch o := old.(type) {
			case *Term:
				if h.fields == nil || adts[o.Sort] == nil {
					s.cells[c] = Fresh(o.Sort, "h_"+c.name)
					x.typeRange(s, s.cells[c].(*Term), c.typ)
				} else {
					t := o
					for _, fl := range sortedKeys(h.fields) {
						t = WithField(t, fl, Fresh(Field(o, fl).Sort, "h_"+c.name+"_"+fl))
					}
					s.cells[c] = t
				}
			case *SliceVal:
				s.cells[c] = x.freshVal(s, c.typ, "h_"+c.name)
			case Arr:
				panic(unsupported("array modified in a loop"))
			default:
				panic(unsupported(fmt.Sprintf("%T modified in a loop", old)))
			}
			for _, b := range loopBumps {
				if b.cell == c {
					x.bump(s, b)
				}
			}
		}
		for _, b := range loopBumps {
			if b.cell == nil {
				x.bump(s, b)
			}
		}
		for _, hs := range sortedKeys(havocHeap) {
			h := havocHeap[hs]
			if h.all {
				s.heap[hs] = Fresh(x.heapArr(entry, hs).Sort, "h_heap_"+hs)
				continue
			}
			var rs []*Term
			for r := range h.refs {
				rs = append(rs, r)
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
			t := x.heapArr(entry, hs)
			for _, r := range rs {
				o := Select(t, r)
				n := o
				if adts[hs] == nil {
					n = Fresh(hs, "h_"+hs)
				} else {
					for _, fl := range sortedKeys(h.refs[r].fields) {
						n = WithField(n, fl, Fresh(Field(o, fl).Sort, "h_"+hs+"_"+fl))
					}
				}
				t = Store(t, r, n)
			}
			s.heap[hs] = t
		}
		if havocWorld {
			s.world = Fresh(SWorld, "h_world")
		}
		if havocLow {
			// everything made so far is at or above it
			low := Fresh(SInt, "h_low")
			s.assume(Le(low, entry.low()))
			s.allocLow = low
		}
		return s
	}
	runBody := func(inv []*cand, start *State) (*State, *loopCtx) {
		for _, c := range inv {
			start.assume(c.eval(start))
		}
		head := start.clone()
		ctx := &loopCtx{frame: f.id, blocks: l.blocks, head: l.head, up: x.ctx}
		saveCtx := x.ctx
		x.ctx = ctx
		x.run(start)
		x.ctx = saveCtx
		return head, ctx
	}
	sameVal := func(a, b Value) bool { return equalVal(a, b) }

	// What an earlier visit of this loop found, in an earlier round of the loop
	// around it, was found under stronger assumptions: what failed there fails
	// here. (Dropping a candidate is always safe.)
	if x.visits == nil {
		x.visits = map[string]int{}
	}
	key := fmt.Sprintf("%s/%s.%d", x.path, l.head.Parent().Name(), l.head.Index)
	x.visits[key]++
	key = fmt.Sprintf("%s#%d", key, x.visits[key])
	savePath, saveVisits := x.path, x.visits
	if x.path == "" {
		x.surv = map[string]map[string]bool{}
	}
	x.path = key
	defer func() { x.path, x.visits = savePath, saveVisits }()

	// 1. what does the body change?
	x.quiet++
	x.quick++
	for round := 0; ; round++ {
		if round > 24 {
			x.quiet--
			panic(unsupported("loop analysis does not end"))
		}
		x.visits = nil
		head, ctx := runBody(nil, mkState())
		changed := false
		for _, b := range ctx.back {
			for _, p := range phis {
				if !havocPhi[p] && !sameVal(b.top().vals[p], head.top().vals[p]) {
					havocPhi[p] = true
					changed = true
				}
			}
			for c, v := range head.cells {
				nv, ok := b.cells[c]
				if b.moved[c] != head.moved[c] {
					x.quiet--
					panic(unsupported("node moved in a loop"))
				}
				if !ok || sameVal(nv, v) {
					continue
				}
				h := havocCell[c]
				ot, ok1 := v.(*Term)
				nt, ok2 := nv.(*Term)
				if ok1 && ok2 && adts[ot.Sort] != nil {
					if h == nil {
						h = &hv{fields: map[string]bool{}}
						havocCell[c] = h
						changed = true
					}
					if h.fields != nil {
						for _, fl := range adts[ot.Sort].Fields {
							if Field(ot, fl) != Field(nt, fl) && !h.fields[fl] {
								h.fields[fl] = true
								changed = true
							}
						}
					}
				} else if h == nil {
					havocCell[c] = &hv{}
					changed = true
				}
			}
			for _, l := range b.bumps[len(head.bumps):] {
				g := &Loc{cell: l.cell, heap: l.heap, ref: l.ref}
				for _, s := range l.path {
					if s.idx != nil {
						s = step{any: true}
					}
					g.path = append(g.path, s)
				}
				k := fmt.Sprint(g.heap, g.cell, g.path)
				if !bumpSeen[k] {
					bumpSeen[k] = true
					loopBumps = append(loopBumps, g)
					changed = true
				}
			}
			for hs, t := range b.heap {
				h0 := x.heapArr(head, hs)
				if t == h0 {
					continue
				}
				h := havocHeap[hs]
				if h == nil {
					h = &hh{refs: map[*Term]*hv{}}
					havocHeap[hs] = h
					changed = true
				}
				if h.all {
					continue
				}
				refs := map[*Term]bool{}
				base, base0 := t, h0
				for ; base.Op == "store"; base = base.Args[0] {
					refs[base.Args[1]] = true
				}
				for base0.Op == "store" {
					base0 = base0.Args[0]
				}
				if base != base0 {
					// a call made a new heap
					h.all, changed = true, true
					continue
				}
				for r := range refs {
					if madeSince(r, fresh0) {
						h.all, changed = true, true
						break
					}
					if h.refs[r] == nil {
						h.refs[r] = &hv{fields: map[string]bool{}}
						changed = true
					}
					if adts[hs] == nil {
						continue
					}
					o, n := Select(h0, r), Select(t, r)
					for _, fl := range adts[hs].Fields {
						if Field(o, fl) != Field(n, fl) && !h.refs[r].fields[fl] {
							h.refs[r].fields[fl] = true
							changed = true
						}
					}
				}
			}
			if b.world != head.world && !havocWorld {
				havocWorld = true
				changed = true
			}
			if b.low() != head.low() && !havocLow {
				havocLow = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	x.quick--
	// 2. candidates
	probe := mkState()
	var cands []*cand
	add := func(desc string, ev func(st *State) *Term) { cands = append(cands, &cand{desc, false, ev}) }
	for _, p := range phis {
		p := p
		if !havocPhi[p] {
			continue
		}
		if first, ok := entry.top().vals[p].(*SliceVal); ok {
			if first.nilT == False {
				add(p.Name()+" is not nil", func(s *State) *Term { return Not(s.top().vals[p].(*SliceVal).nilT) })
			}
			add(p.Name()+" is nil exactly when it is empty", func(s *State) *Term {
				v := s.top().vals[p].(*SliceVal)
				return Eq(v.nilT, Eq(Sub(v.hi, v.lo), Int(0)))
			})
		}
		e, ok := entry.top().vals[p].(*Term)
		if !ok {
			continue
		}
		get := func(s *State) *Term { return s.top().vals[p].(*Term) }
		switch e.Sort {
		case SInt:
			if _, _, ok := intRange(p.Type()); ok {
				add(p.Name()+rangeCand, func(s *State) *Term {
					return And(Le(Int(-1<<41), get(s)), Le(get(s), Int(1<<41)))
				})
			}
			add(p.Name()+" >= its first value", func(s *State) *Term { return Le(e, get(s)) })
			add(p.Name()+" <= its first value", func(s *State) *Term { return Le(get(s), e) })
			if e.lit {
				if e.n != 0 {
					add(p.Name()+" >= 0", func(s *State) *Term { return Le(Int(0), get(s)) })
				}
				add(p.Name()+" has the parity of its first value", func(s *State) *Term {
					return Eq(mk(SInt, "mod", get(s), Int(2)), Int(((e.n%2)+2)%2))
				})
			} else {
				add(p.Name()+" >= -1", func(s *State) *Term { return Le(Int(-1), get(s)) })
				add(p.Name()+" >= 0", func(s *State) *Term { return Le(Int(0), get(s)) })
			}
		case SBool:
			add(p.Name()+" keeps its value", func(s *State) *Term { return Eq(e, get(s)) })
		}
	}
	if havocWorld {
		add("the settings stay", func(s *State) *Term { return Eq(confOf(s.world), confOf(entry.world)) })
	}
	for _, hs := range sortedKeys(havocHeap) {
		hs := hs
		if havocHeap[hs].all {
			add("old "+hs+" objects keep their values", func(s *State) *Term {
				k := Const(SInt, "qref")
				h := x.heapArr(s, hs)
				sel := mk(hs, "select", h, k)
				return mkQuant("forall", []*Term{k}, [][]*Term{{sel}}, Implies(Le(Int(0), k), Eq(sel, Select(x.heapArr(entry, hs), k))))
			})
		}
	}
	if c, ok := x.headerCond(probe, l.head); ok {
		add("loop bound", func(s *State) *Term {
			c2, ok := x.headerCond(s, l.head)
			if !ok {
				return True
			}
			_ = c
			if c2.Op == "not" {
				c2 = c2.Args[0]
				// not (a < b)  ==  b <= a
				if c2.Op == "<" {
					return Le(c2.Args[1], Add(c2.Args[0], Int(1)))
				}
				return True
			}
			switch c2.Op {
			case "<":
				return Le(c2.Args[0], c2.Args[1])
			case "<=":
				return Le(c2.Args[0], Add(c2.Args[1], Int(1)))
			}
			return True
		})
	}
	if x.quick == 0 {
		cands = append(cands, x.hintCands(entry, probe, l)...)
	}
	if f := x.surv[key]; f != nil && x.quick == 0 {
		var keep []*cand
		for _, c := range cands {
			if f[c.desc] {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	// initially true?
	{
		var jobs []job
		for _, c := range cands {
			jobs = append(jobs, job{pc: c.pc(x, entry), goal: x.safeEval(c, entry)})
		}
		var keep []*cand
		for i, ok := range validAll(jobs, 2000) {
			if ok {
				keep = append(keep, cands[i])
			} else if debug > 1 {
				fmt.Printf("  [%s] not true at first: %s\n", x.unit, cands[i].desc)
				if dumpDir != "" {
					os.WriteFile(fmt.Sprintf("%s/first%d.smt2", dumpDir, i), []byte("; "+cands[i].desc+"\n"+buildQuery(jobs[i].pc, jobs[i].goal, 20000, true)), 0o644)
				}
			}
		}
		cands = keep
	}
	// 3. Houdini
	for round := 0; ; round++ {
		x.visits = nil
		_, ctx := runBody(cands, mkState())
		drop := make([]bool, len(cands))
		var jobs []job
		var which []int
		for _, b := range ctx.back {
			for i, c := range cands {
				jobs = append(jobs, job{c.pc(x, b), x.safeEval(c, b), c.hint})
				which = append(which, i)
			}
		}
		n := 0
		for k, ok := range validAll(jobs, 3000) {
			if !ok && !drop[which[k]] {
				drop[which[k]] = true
				n++
				if debug > 1 {
					fmt.Printf("  [%s] dropped %s\n", x.unit, cands[which[k]].desc)
					if dumpDir != "" && jobs[k].goal != True {
						os.WriteFile(fmt.Sprintf("%s/drop%d.smt2", dumpDir, k), []byte("; "+cands[which[k]].desc+"\n"+buildQuery(jobs[k].pc, jobs[k].goal, 20000, true)), 0o644)
					}
				}
			}
		}
		if n == 0 {
			break
		}
		var keep []*cand
		for i, c := range cands {
			if !drop[i] {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	if x.quick == 0 {
		m := map[string]bool{}
		for _, c := range cands {
			m[c.desc] = true
		}
		x.surv[key] = m
	}
	x.quiet--
	// 4. final pass: obligations, exits
	if debug > 0 && x.quiet == 0 {
		for _, c := range cands {
			fmt.Printf("  [%s] loop %s: invariant %s\n", x.unit, x.pos(loopPos(l)), c.desc)
		}
	}
	if x.quiet == 0 {
		for _, c := range cands {
			x.addOblPC(c.pc(x, entry), c.eval(entry), "invariant", "loop invariant holds on entry: "+c.desc, loopPos(l))
		}
	}
	x.visits = nil
	head, ctx := runBody(cands, mkState())
	if x.quiet == 0 {
		for _, b := range ctx.back {
			for _, c := range cands {
				x.addOblPC(c.pc(x, b), c.eval(b), "invariant", "loop invariant is preserved: "+c.desc, loopPos(l))
			}
		}
		x.variant(head, ctx.back, l)
	}
	if len(ctx.exits) == 0 {
		x.note("a loop of " + x.unit + " never ends normally")
	}
	var out []*State
	for _, e := range ctx.exits {
		if e.to == nil {
			if x.ctx != nil && x.ctx.frame == e.popped {
				x.ctx.exits = append(x.ctx.exits, e)
			} else {
				out = append(out, e.st)
			}
			continue
		}
		e.st.top().unroll[l.head] = 0
		out = append(out, x.jump(e.st, e.from, e.to)...)
	}
	return out
}

// madeSince tells whether a term mentions a symbol made after number n.
func madeSince(t *Term, n int) bool {
	if i := strings.LastIndexByte(t.Op, '!'); i >= 0 && len(t.Args) == 0 {
		if k, err := strconv.Atoi(t.Op[i+1:]); err == nil && k > n && !strings.HasPrefix(t.Op, "cell!") {
			return true
		}
	}
	for _, a := range t.Args {
		if madeSince(a, n) {
			return true
		}
	}
	return false
}

func loopPos(l *loop) token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// variant emits the termination obligations of a loop.
func (x *Exec) variant(head *State, back []*State, l *loop) {
	if x.con != nil && x.con.noTerm {
		x.note("termination of the loops of " + x.unit + " is not proved")
		return
	}
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return // a map that does not change has finitely many keys
		}
	}
	c0, ok := x.headerCond(head, l.head)
	var ms []func(s *State) *Term
	if ok {
		neg := false
		if c0.Op == "not" {
			c0 = c0.Args[0]
			neg = true
		}
		if c0.Op == "<" || c0.Op == "<=" {
			ms = append(ms, func(s *State) *Term {
				c, ok := x.headerCond(s, l.head)
				if !ok {
					return nil
				}
				if neg {
					if c.Op != "not" {
						return nil
					}
					c = c.Args[0]
					if c.Op == "<" || c.Op == "<=" {
						return Add(Sub(c.Args[0], c.Args[1]), Int(1))
					}
					return nil
				}
				if c.Op == "<" || c.Op == "<=" {
					return Add(Sub(c.Args[1], c.Args[0]), Int(1))
				}
				return nil
			})
		}
	}
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && n.IsString {
			rg := n.Iter.(*ssa.Range)
			ms = append(ms, func(s *State) *Term {
				it, ok := x.val(s, rg).(*Iter)
				if !ok {
					return nil
				}
				return Sub(SeqLen(x.val(s, rg.X).(*Term)), s.cells[it.cell].(*Term))
			})
		}
	}
	ms = append(ms, x.variantHints(head, l)...)
	for _, m := range ms {
		m0 := m(head)
		if m0 == nil {
			continue
		}
		good := true
		for _, b := range back {
			m1 := m(b)
			if m1 == nil || !valid(b.pc, And(Le(Int(0), m0), Lt(m1, m0)), 3000) {
				good = false
				break
			}
		}
		if good {
			for _, b := range back {
				x.addObl(b, And(Le(Int(0), m0), Lt(m(b), m0)), "termination", "the loop variant decreases", loopPos(l))
			}
			return
		}
	}
	for _, b := range back {
		x.addObl(b, False, "termination", "no loop variant found", loopPos(l))
	}
}

func (x *Exec) safeEval(c *cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				t = False
				return
			}
			panic(r)
		}
	}()
	return c.eval(st)
}

func equalVal(a, b Value) bool {
	switch u := a.(type) {
	case *Loc:
		v, ok := b.(*Loc)
		return ok && u.same(v)
	case *SliceVal:
		v, ok := b.(*SliceVal)
		if !ok {
			return false
		}
		if (u.loc == nil) != (v.loc == nil) || u.loc != nil && !u.loc.same(v.loc) {
			return false
		}
		if u.loc == nil && u.snap != v.snap {
			return false
		}
		return u.lo == v.lo && u.hi == v.hi && u.nilT == v.nilT
	case *Clo:
		v, ok := b.(*Clo)
		return ok && (u == v || u.fn == v.fn && len(u.binds) == 0 && len(v.binds) == 0)
	case *IfaceVal:
		v, ok := b.(*IfaceVal)
		return ok && u.typ == v.typ && equalVal(u.v, v.v)
	case Arr:
		v, ok := b.(Arr)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range u {
			if !equalVal(u[i], v[i]) {
				return false
			}
		}
		return true
	case *MapVal:
		v, ok := b.(*MapVal)
		return ok && u.cell == v.cell
	case Tuple:
		return false
	}
	return a == b
}
