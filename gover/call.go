package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn      Value
	args    []Value
	builtin string
	call    *ssa.CallCommon
}

// call executes a call; stay tells whether st goes on itself.
func (x *Exec) call(st *State, in ssa.CallInstruction) ([]*State, bool) {
	c := in.Common()
	v, _ := in.(ssa.Value)
	switch in.(type) {
	case *ssa.Go:
		if c.IsInvoke() {
			panic(unsupported("goroutine of an interface method"))
		}
		x.note("a goroutine runs to its end where it is started; what others change of what it captures is unknown to it")
	case *ssa.Defer:
		d := &deferred{}
		if c.IsInvoke() {
			panic(unsupported("deferred interface call"))
		}
		if g := c.StaticCallee(); g != nil && isNoop(fullName(g)) {
			return nil, true
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			d.builtin, d.call = b.Name(), c
		} else {
			d.fn = x.val(st, c.Value)
		}
		for _, a := range c.Args {
			d.args = append(d.args, x.val(st, a))
		}
		st.top().deferred = append(st.top().deferred[:len(st.top().deferred):len(st.top().deferred)], d)
		return nil, true
	}
	if c.IsInvoke() {
		recv := x.val(st, c.Value)
		if iv, ok := recv.(*IfaceVal); ok && shimPkg != nil && iv.typ != nil {
			if m := shimPkg.Prog.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name()); m != nil && m.Pkg == shimPkg {
				args := []Value{iv.v}
				for _, a := range c.Args {
					args = append(args, x.val(st, a))
				}
				return nil, x.invokeFn(st, m, nil, args, v, in.Pos())
			}
		}
		x.set(st, v, x.invoke(st, c, recv, in.Pos()))
		return nil, true
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.set(st, v, x.builtin(st, b.Name(), args, c, in.Pos()))
		return nil, true
	}
	fn := c.StaticCallee()
	_, isGo := in.(*ssa.Go)
	var clo *Clo
	if fn == nil || fn.Parent() != nil {
		switch f := x.val(st, c.Value).(type) {
		case *Clo:
			if isGo {
				f = x.spawned(st, f)
			}
			clo = f
			fn = f.fn
			if fn == nil {
				x.oblige(st, False, "nil", "call of a nil function", in.Pos())
				panic(unsupported("call of nil"))
			}
		default:
			return x.dynCall(st, in, f, args)
		}
	}
	return nil, x.invokeFn(st, fn, clo, args, v, in.Pos())
}

func fullName(fn *ssa.Function) string {
	if fn.Object() != nil {
		return fn.Object().(*types.Func).FullName()
	}
	return fn.String()
}

func (x *Exec) invokeFn(st *State, fn *ssa.Function, clo *Clo, args []Value, v ssa.Value, pos token.Pos) bool {
	setRes := func(r Value) {
		if v != nil {
			x.set(st, v, r)
		}
	}
	if k := fnKey(fn); k != "" && fn.Parent() == nil {
		if c := x.cons[k]; c != nil && c.attach == "" && (c.tree == x.tree || c.neutral()) && (x.tree || x.spec.eff[fullName(fn)] == nil || fn.Pkg == st.frames[0].fn.Pkg) {
			setRes(x.applyContract(st, c, args, pos))
			return true
		}
	}
	if r, ok := x.libraryCall(st, fn, args, v, pos); ok {
		setRes(r)
		return true
	}
	if s := shims[fullName(fn)]; s != nil {
		x.note(fullName(fn) + " does what " + s.Name() + " in shim.txt does")
		fn = s
		if f, ok := args[len(args)-1].(*Clo); ok && s.Name() == "Go" {
			args = append(append([]Value{}, args[:len(args)-1]...), x.spawned(st, f))
		}
	}
	if fn.Pkg == nil || !strings.Contains(fn.Pkg.Pkg.Path(), "yaml-overlay-tool") || len(fn.Blocks) == 0 {
		panic(unsupported("call of " + fullName(fn)))
	}
	// inline
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 0 {
		panic(unsupported("recursive function without a contract: " + fn.String()))
	}
	if len(st.frames) > 14 {
		panic(unsupported("call depth"))
	}
	if x.inl != nil {
		x.inl[fnName(fn)] = true
	}
	fr := x.newFrame(fn, v)
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	if clo != nil {
		for i, fv := range fn.FreeVars {
			fr.vals[fv] = clo.binds[i]
		}
	}
	st.frames = append(st.frames, fr)
	return true
}

func fnName(fn *ssa.Function) string {
	if k := fnKey(fn); k != "" && fn.Parent() == nil {
		return k
	}
	return fn.String()
}

func isNoop(q string) bool {
	return strings.HasPrefix(q, "(*github.com/op/go-logging.Logger).") && !strings.Contains(q, "Fatal") && !strings.Contains(q, "Panic")
}

// spawned is a closure as another goroutine finds it: variables that it captures
// and that may be assigned after it was made have unknown values.
func (x *Exec) spawned(st *State, c *Clo) *Clo {
	if c.made == nil {
		return c
	}
	d := &Clo{fn: c.fn, binds: append([]Value{}, c.binds...), id: c.id}
	for i, b := range c.made.Bindings {
		p, ok := b.Type().Underlying().(*types.Pointer)
		if !ok {
			continue // a value
		}
		if assigns(c.fn, c.fn.FreeVars[i]) {
			panic(unsupported("a goroutine that assigns a variable it shares"))
		}
		if settled(c.made, b, 0) {
			continue
		}
		n := x.newCell("shared", p.Elem())
		n.owned = true
		st.cells[n] = x.freshVal(st, p.Elem(), "shared")
		d.binds[i] = &Loc{cell: n}
	}
	return d
}

// settled tells whether a captured variable is not assigned after the closure was
// made.
func settled(m *ssa.MakeClosure, b ssa.Value, depth int) bool {
	switch b := b.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Alloc:
		return !assignedAfter(m, b)
	case *ssa.FreeVar:
		p := b.Parent()
		if assigns(p, b) || depth > 5 {
			return false
		}
		for _, bl := range p.Parent().Blocks {
			for _, in := range bl.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == p {
					for j, v := range p.FreeVars {
						if v == b && !settled(mc, mc.Bindings[j], depth+1) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return false
}

// assigns tells whether a function, or a closure it makes, assigns a variable it
// captures.
func assigns(fn *ssa.Function, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v && assigns(r.Fn.(*ssa.Function), r.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// assignedAfter tells whether a variable may be assigned after a closure that
// captures it was made, before it is made anew.
func assignedAfter(m *ssa.MakeClosure, a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if c, ok := r.(*ssa.MakeClosure); ok && c != m {
			for i, b := range c.Bindings {
				if b == a && assigns(c.Fn.(*ssa.Function), c.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	use := func(in ssa.Instruction) bool {
		switch r := in.(type) {
		case *ssa.Store:
			return r.Addr == a
		case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op == a {
				return true // it may be assigned through another pointer
			}
		}
		return false
	}
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	var todo []at
	for i, in := range m.Block().Instrs {
		if in == m {
			todo = append(todo, at{m.Block(), i + 1})
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	for len(todo) > 0 {
		t := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		made := false
		for _, in := range t.b.Instrs[t.i:] {
			if in == a {
				made = true
				break
			}
			if use(in) {
				return true
			}
		}
		if made {
			continue
		}
		for _, s := range t.b.Succs {
			if !seen[s] {
				seen[s] = true
				todo = append(todo, at{s, 0})
			}
		}
	}
	return false
}

// dynCall calls a function value: one case for each function of its type in
// the package that is used as a value; it must be one of them.
func (x *Exec) dynCall(st *State, in ssa.CallInstruction, f Value, args []Value) ([]*State, bool) {
	t, ok := f.(*Term)
	if !ok {
		panic(unsupported("call of an unknown function value"))
	}
	if b := x.spec.buildsOf(in.Common().Value.Type(), in.Parent().Pkg); b != nil {
		if v, _ := in.(ssa.Value); v != nil {
			x.set(st, v, x.callBuilds(st, b, t, v.Type(), in.Pos()))
			return nil, true
		}
	}
	fns := x.valueFns(in.Common().Value.Type(), in.Parent().Pkg)
	if len(fns) == 0 {
		panic(unsupported("call of an unknown function value"))
	}
	var any []*Term
	for _, g := range fns {
		any = append(any, Eq(t, x.fnTerm(&Clo{fn: g})))
	}
	x.oblige(st, Or(any...), "nil", "the function called is one of the package", in.Pos())
	v, _ := in.(ssa.Value)
	var out []*State
	for k, g := range fns {
		if !x.feasible(st, any[k]) {
			continue
		}
		s := st.clone()
		s.assume(any[k])
		if x.invokeFn(s, g, nil, args, v, in.Pos()) {
			out = append(out, s)
		}
	}
	return out, false
}

// pkgFuncs are the functions of a package.
func pkgFuncs(pkg *ssa.Package) map[*ssa.Function]bool {
	visited := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if !visited[fn] {
			visited[fn] = true
			for _, a := range fn.AnonFuncs {
				visit(a)
			}
		}
	}
	for _, m := range pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			visit(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := pkg.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if g := pkg.Prog.MethodValue(ms.At(i)); g != nil {
						visit(g)
					}
				}
			}
		}
	}
	return visited
}

// valueFns are the functions of a type that a package uses as values.
func (x *Exec) valueFns(t types.Type, pkg *ssa.Package) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	for fn := range pkgFuncs(pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && types.Identical(m.Type().Underlying(), t.Underlying()) {
					panic(unsupported("call of a function value that may be a closure"))
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().Value == *op {
						ok = false
					}
					if ok && types.Identical(g.Signature.Underlying(), t.Underlying()) && g.Parent() == nil {
						seen[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for g := range seen {
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, recv Value, pos token.Pos) Value {
	if c.Method.Name() == "Error" && sortOf(c.Value.Type()) == SErr {
		return Fresh(SStr, "errtext")
	}
	q := c.Method.FullName()
	if ef := x.spec.eff[q]; ef != nil {
		args := []Value{recv}
		for _, a := range c.Args {
			args = append(args, x.val(st, a))
		}
		return x.effect(st, q, ef, c.Method.Type().(*types.Signature), args, pos)
	}
	panic(unsupported("interface call " + c.Method.Name()))
}

func (x *Exec) builtin(st *State, name string, args []Value, c *ssa.CallCommon, pos token.Pos) Value {
	switch name {
	case "len":
		switch a := args[0].(type) {
		case *Term:
			if isSeq(a.Sort) {
				return SeqLen(a)
			}
		case *SliceVal:
			return Sub(a.hi, a.lo)
		case Arr:
			return Int(int64(len(a)))
		}
	case "cap":
		if a, ok := args[0].(*SliceVal); ok {
			t := Fresh(SInt, "cap")
			st.assume(Le(Sub(a.hi, a.lo), t))
			return t
		}
	case "append":
		a, ok := args[0].(*SliceVal)
		if !ok {
			break
		}
		var b *SliceVal
		switch v := args[1].(type) {
		case *SliceVal:
			b = v
		case *Term: // append([]byte, string...)
			b = &SliceVal{snap: v, lo: Int(0), hi: SeqLen(v), nilT: False, seq: v.Sort}
		default:
			panic(unsupported("append"))
		}
		ta, tb := x.sliceTerm(st, a), x.sliceTerm(st, b)
		inPlace := false
		if x.tree && a.seq == SeqSort(SNode) {
			// a list closes up over elements that are left out of it
			inPlace = a.loc != nil && b.loc != nil && a.loc.same(b.loc) && a.lo == Int(0) && !a.capped && valid(st.pc, Le(a.hi, b.lo), 2000)
			if !inPlace {
				x.moveAll(st, b, pos)
			}
		}
		t := SeqCat(ta, tb)
		if inPlace {
			// until the result is stored, the old list holds both
			old := x.backing(st, a)
			mess := Fresh(old.Sort, "overwritten")
			st.assume(Eq(SeqLen(mess), SeqLen(old)))
			if len(a.loc.path) == 0 {
				x.setRoot(st, a.loc, mess)
			} else {
				root, ok := x.rootVal(st, a.loc).(*Term)
				if !ok {
					break
				}
				x.setRoot(st, a.loc, put(root, a.loc.path, mess))
			}
			x.bump(st, a.loc.sub(step{any: true}))
		}
		r := &SliceVal{snap: t, lo: Int(0), hi: SeqLen(t), nilT: And(a.nilT, Eq(SeqLen(tb), Int(0))), seq: t.Sort}
		if a.loc != nil && !a.capped && a.nilT != True {
			r.full = a.loc
			if a.loc.cell != nil && a.loc.cell.owned && len(a.loc.path) == 0 {
				r.full = nil // a temporary
			}
			if a.loc.cell == nil {
				x.note("the lists of different objects share no spare capacity")
			}
			if a.lo != Int(0) {
				r.full = nil
				x.note("append to a slice that does not start at its array is taken as a copy")
			}
		} else if a.full != nil {
			r.full = a.full
		}
		return r
	case "copy":
		d, ok := args[0].(*SliceVal)
		s, ok2 := args[1].(*SliceVal)
		if !ok || !ok2 || d.loc == nil {
			break
		}
		dl, sl := Sub(d.hi, d.lo), Sub(s.hi, s.lo)
		n := Ite(Le(sl, dl), sl, dl)
		if valid(st.pc, Le(sl, dl), 2000) {
			n = sl
		} else if valid(st.pc, Le(dl, sl), 2000) {
			n = dl
		}
		src := x.backing(st, s)
		dst := x.backing(st, d)
		if x.tree && d.seq == SeqSort(SNode) && (s.loc == nil || !s.loc.same(d.loc)) {
			x.moveAll(st, s, pos)
		}
		nt := SeqCat(SeqCat(SeqSub(dst, Int(0), d.lo), SeqSub(src, s.lo, Add(s.lo, n))), SeqSub(dst, Add(d.lo, n), SeqLen(dst)))
		st.assume(Eq(SeqLen(nt), SeqLen(dst)))
		if len(d.loc.path) == 0 {
			x.setRoot(st, d.loc, nt)
		} else {
			root, ok := x.rootVal(st, d.loc).(*Term)
			if !ok {
				break
			}
			x.setRoot(st, d.loc, put(root, d.loc.path, nt))
		}
		x.bump(st, d.loc.sub(step{any: true}))
		return n
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return nil
	case "close":
		st.world = x.chanOp(st, "close", c.Args[0].Type(), x.toTerm(st, args[0], SInt))
		return nil
	}
	panic(unsupported("builtin " + name))
}

// chanOp applies what the specification says about a channel operation.
func (x *Exec) chanOp(st *State, op string, ch types.Type, args ...*Term) *Term {
	name := chanName(ch)
	f := x.spec.chans[op+" "+name]
	if f == nil || x.tree {
		panic(unsupported(op + " on a channel of " + name))
	}
	x.spec.ensureAxioms(f)
	return x.spec.apply(f, append([]*Term{st.world}, args...), nil)
}

// chanName names what a channel carries.
func chanName(ch types.Type) string {
	el := derefType(ch.Underlying().(*types.Chan).Elem())
	if n, ok := el.(*types.Named); ok {
		return n.Obj().Name()
	}
	return el.String()
}

// payload is the value that travels through a channel: the object itself when
// a pointer to a struct is sent.
func (x *Exec) payload(st *State, v Value, t types.Type) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok && !isNodePtr(t) {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			return x.termAt(st, x.ptr(st, v, t, x.cur))
		}
	}
	return x.toTerm(st, v, sortOf(t))
}

func (x *Exec) recv(st *State, i *ssa.UnOp, ch Value) Value {
	c := x.toTerm(st, ch, SInt)
	ct := i.X.Type()
	et := ct.Underlying().(*types.Chan).Elem()
	ok := x.chanOp(st, "recvok", ct, c)
	v := x.chanOp(st, "recvval", ct, c)
	st.world = x.chanOp(st, "recvw", ct, c)
	var r Value
	if p, isP := et.Underlying().(*types.Pointer); isP && v.Sort == SInt {
		r = Ite(ok, v, Int(0)) // the pointer itself travels
	} else if isP && adts[sortOf(p.Elem())] != nil && !isNodePtr(et) {
		s := sortOf(p.Elem())
		ref := x.newRef(st)
		st.heap[s] = Store(x.heapArr(st, s), ref, v)
		r = Ite(ok, ref, Int(0))
	} else {
		r = x.fromTerm(st, v, et, nil)
	}
	if i.CommaOk {
		return Tuple{r, ok}
	}
	return r
}

// moveAll moves the nodes of a slice into another tree; nodes that already
// belong to a tree would be shared.
func (x *Exec) moveAll(st *State, b *SliceVal, pos token.Pos) {
	if b.loc == nil {
		t := x.sliceTerm(st, b)
		if t.Op == "empty_"+t.Sort {
			return
		}
		x.oblige(st, Eq(SeqLen(t), Int(0)), "sharing", "nodes inserted into a tree belong to no other tree", pos)
		return
	}
	if b.loc.cell != nil && b.loc.cell.owned && len(b.loc.path) == 0 {
		if a, ok := st.cells[b.loc.cell].(Arr); ok {
			for _, e := range a {
				switch p := e.(type) {
				case *Loc:
					if p.cell != nil && p.cell.owned && len(p.path) == 0 && !st.moved[p.cell] {
						st.moved[p.cell] = true
						continue
					}
					x.oblige(st, False, "sharing", "nodes inserted into a tree belong to no other tree", pos)
				case NilPtr:
				default:
					panic(unsupported("moved element"))
				}
			}
			return
		}
		if !b.loc.cell.param {
			st.moved[b.loc.cell] = true
			return
		}
	}
	x.oblige(st, Eq(Sub(b.hi, b.lo), Int(0)), "sharing", "nodes inserted into a tree belong to no other tree", pos)
}

// ---- library ----

// pureLib lists the library functions that are functions of their arguments.
var pureLib = map[string]bool{}

func init() {
	for _, f := range strings.Fields(`strings.TrimPrefix strings.TrimSuffix strings.Contains strings.ReplaceAll strings.Index
		strings.HasPrefix strings.HasSuffix strings.ToLower strings.ToUpper strings.Trim strings.TrimSpace strings.Split strings.Join
		strings.EqualFold strings.Count strings.Fields strings.TrimLeft strings.TrimRight strings.LastIndex strings.IndexByte strings.SplitN strings.Repeat strings.ContainsAny strings.ContainsRune strings.IndexRune strings.Replace strings.TrimFunc strings.Title strings.Map
		strconv.Atoi strconv.Itoa strconv.ParseBool strconv.FormatBool strconv.ParseInt strconv.FormatInt strconv.Quote
		os.IsNotExist os.IsExist path.Join path.Clean path.Dir path.Base path.Ext path.IsAbs path/filepath.Base path/filepath.Ext path/filepath.Clean path/filepath.IsAbs path/filepath.Dir path/filepath.Join
		unicode.IsSpace unicode.IsLetter unicode.IsDigit unicode/utf8.RuneLen unicode/utf8.DecodeRuneInString unicode/utf8.DecodeLastRuneInString unicode/utf8.RuneCountInString unicode/utf8.ValidString
		github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath.NewPath (*gopkg.in/yaml.v3.Node).LongTag`) {
		pureLib[f] = true
	}
}

// canonLib gives functions that are the same on this system the same name.
func canonLib(q string) string {
	switch q {
	case "path/filepath.Base", "path/filepath.Ext", "path/filepath.Clean", "path/filepath.IsAbs", "path/filepath.Dir", "path/filepath.Join":
		return "path." + strings.TrimPrefix(q, "path/filepath.")
	}
	return q
}

// libSig caches the result sorts of library functions.
var libSig = map[string][]Sort{}

func libSorts(sig *types.Signature) []Sort {
	var out []Sort
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sortOf(sig.Results().At(i).Type()))
	}
	return out
}

// libCall is the application of a pure library function.
func libCall(q string, args []*Term) []*Term {
	rs, ok := libSig[q]
	if !ok {
		return nil
	}
	if r := libSimplify(q, args); r != nil {
		return r
	}
	if q == "strings.HasPrefix" {
		if l, ok := litOf[args[1]]; ok && len(l) <= 4 {
			r := []*Term{Le(Int(int64(len(l))), SeqLen(args[0]))}
			for i := range l {
				r = append(r, Eq(SeqNth(args[0], Int(int64(i))), Int(int64(l[i]))))
			}
			return []*Term{And(r...)}
		}
	}
	libAxioms(q)
	var out []*Term
	for i, s := range rs {
		n := "lib_" + clean(q)
		if len(rs) > 1 {
			n += fmt.Sprintf(".%d", i)
		}
		out = append(out, mk(s, n, args...))
	}
	return out
}

const decodeRuneFn = "unicode/utf8.DecodeRuneInString"

// libAxioms states what is assumed of some library functions.
func libAxioms(q string) {
	op := "lib_" + clean(q)
	switch q {
	case "strings.HasPrefix":
		if symAxioms[op] != nil {
			return
		}
		s, p, i := Const(SStr, "hp_s"), Const(SStr, "hp_p"), Const(SInt, "hp_i")
		h := mk(SBool, op, s, p)
		n, m := SeqLen(s), SeqLen(p)
		at := func(s *Term, i int64) *Term { return SeqNth(s, Int(i)) }
		body := And(Implies(h, Le(m, n)), Implies(Eq(m, Int(0)), h),
			Implies(And(h, Le(Int(1), m)), Eq(at(s, 0), at(p, 0))),
			Implies(And(h, Le(Int(2), m)), Eq(at(s, 1), at(p, 1))),
			Implies(And(Eq(m, Int(1)), Le(Int(1), n), Eq(at(s, 0), at(p, 0))), h),
			Implies(And(Eq(m, Int(2)), Le(Int(2), n), Eq(at(s, 0), at(p, 0)), Eq(at(s, 1), at(p, 1))), h))
		same := Implies(And(h, Le(Int(0), i), Lt(i, m)), Eq(SeqNth(s, i), SeqNth(p, i)))
		symAxioms[op] = []*Term{mkQuant("forall", []*Term{s, p}, [][]*Term{{h}}, body),
			mkQuant("forall", []*Term{s, p, i}, [][]*Term{{h, SeqNth(s, i)}, {h, SeqNth(p, i)}}, same)}
	case "strings.TrimPrefix", "strings.TrimSuffix":
		if symAxioms[op] != nil {
			return
		}
		s, p := Const(SStr, "tp_s"), Const(SStr, "tp_p")
		h := mk(SStr, op, s, p)
		n, m := SeqLen(s), SeqLen(p)
		at, rest := SeqNth(s, Int(0)), SeqSub(s, Int(1), n)
		if q == "strings.TrimSuffix" {
			at, rest = SeqNth(s, Sub(n, Int(1))), SeqSub(s, Int(0), Sub(n, Int(1)))
		}
		symAxioms[op] = []*Term{mkQuant("forall", []*Term{s, p}, [][]*Term{{h}},
			And(Implies(Lt(n, m), Eq(h, s)), Implies(Eq(m, Int(0)), Eq(h, s)),
				Implies(And(Eq(m, Int(1)), Le(Int(1), n)), And(
					Implies(Eq(at, SeqNth(p, Int(0))), Eq(h, rest)), Implies(Not(Eq(at, SeqNth(p, Int(0)))), Eq(h, s))))))}
	case "strings.Index":
		if symAxioms[op] != nil {
			return
		}
		s, p, i := Const(SStr, "ix_s"), Const(SStr, "ix_p"), Const(SInt, "ix_i")
		r := mk(SInt, op, s, p)
		n, m := SeqLen(s), SeqLen(p)
		symAxioms[op] = []*Term{
			mkQuant("forall", []*Term{s, p}, [][]*Term{{r}}, And(Le(Int(-1), r), Implies(Le(Int(0), r), Le(Add(r, m), n)))),
			mkQuant("forall", []*Term{s, p, i}, [][]*Term{{r, SeqNth(p, i)}}, Implies(And(Le(Int(0), r), Le(Int(0), i), Lt(i, m)), Eq(SeqNth(s, Add(r, i)), SeqNth(p, i)))),
			mkQuant("forall", []*Term{s, i, Const(SInt, "ix_j")}, [][]*Term{{mk(SInt, op, s, SeqSub(s, i, Const(SInt, "ix_j")))}},
				Implies(And(Le(Int(0), i), Le(i, Const(SInt, "ix_j")), Le(Const(SInt, "ix_j"), n)), And(Le(Int(0), mk(SInt, op, s, SeqSub(s, i, Const(SInt, "ix_j")))), Le(mk(SInt, op, s, SeqSub(s, i, Const(SInt, "ix_j"))), i)))),
		}
	case "unicode.IsSpace":
		if symAxioms[op] != nil {
			return
		}
		r := Const(SInt, "sp_r")
		h := mk(SBool, op, r)
		var is []*Term
		for _, c := range []int64{9, 10, 11, 12, 13, 32, 0x85, 0xA0} {
			is = append(is, Eq(r, Int(c)))
		}
		symAxioms[op] = []*Term{mkQuant("forall", []*Term{r}, [][]*Term{{h}},
			And(Implies(And(Le(Int(0), r), Le(r, Int(255))), Eq(h, Or(is...))), Implies(Lt(r, Int(0)), Not(h))))}
	case decodeRuneFn:
		if symAxioms[op+".0"] != nil {
			return
		}
		s := Const(SStr, "dr_s")
		r, w := mk(SInt, op+".0", s), mk(SInt, op+".1", s)
		n := SeqLen(s)
		c := SeqNth(s, Int(0))
		body := And(Le(Int(0), r), Le(r, Int(0x10FFFF)), Le(Int(0), w), Le(w, Int(4)), Le(w, n),
			Implies(Eq(n, Int(0)), Eq(r, Int(0xFFFD))),
			Implies(Lt(Int(0), n), Le(Int(1), w)),
			Implies(And(Lt(Int(0), n), Lt(c, Int(128))), And(Eq(r, c), Eq(w, Int(1)))),
			Implies(And(Lt(Int(0), n), Le(Int(128), c)), Le(Int(128), r)))
		ax := mkQuant("forall", []*Term{s}, [][]*Term{{r}, {w}}, body)
		symAxioms[op+".0"] = []*Term{ax}
		symAxioms[op+".1"] = []*Term{ax}
	}
}

// libSimplify evaluates calls on literals with the real functions.
func libSimplify(q string, args []*Term) []*Term {
	var ss []string
	for _, a := range args {
		l, ok := litOf[a]
		if !ok {
			return nil
		}
		ss = append(ss, l)
	}
	switch q {
	case "strings.TrimPrefix":
		return []*Term{StrLit(strings.TrimPrefix(ss[0], ss[1]))}
	case "strings.TrimSuffix":
		return []*Term{StrLit(strings.TrimSuffix(ss[0], ss[1]))}
	case "strings.ReplaceAll":
		return []*Term{StrLit(strings.ReplaceAll(ss[0], ss[1], ss[2]))}
	case "strings.Contains":
		return []*Term{boolTerm(strings.Contains(ss[0], ss[1]))}
	case "strings.HasPrefix":
		return []*Term{boolTerm(strings.HasPrefix(ss[0], ss[1]))}
	case "strings.ToLower":
		return []*Term{StrLit(strings.ToLower(ss[0]))}
	case "strings.TrimSpace":
		return []*Term{StrLit(strings.TrimSpace(ss[0]))}
	}
	return nil
}

func (x *Exec) libraryCall(st *State, fn *ssa.Function, args []Value, v ssa.Value, pos token.Pos) (Value, bool) {
	q := canonLib(fullName(fn))
	if isNoop(q) {
		x.note("logging has no effect on the results")
		return nil, true
	}
	if m, ok := strings.CutPrefix(q, "(*strings.Builder)."); ok {
		return x.textBuilder(st, m, fn, args, pos)
	}
	switch q {
	case "context.Background":
		return &IfaceVal{}, true
	case "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifshim.DoneIf":
		return &doneVal{x.toTerm(st, args[0], SErr)}, true
	case "errors.New":
		return mk(SErr, "errNew", x.toTerm(st, args[0], SStr)), true
	case "fmt.Errorf":
		return x.errorf(st, args), true
	case "fmt.Sprintf", "fmt.Sprint":
		if t := x.formatted(st, q, args); t != nil {
			x.note("fmt.Sprintf puts strings in for %s and %v, and a text that the value decides in for the %v of another value")
			return t, true
		}
		x.note("the text made by fmt.Sprintf is unspecified")
		return Fresh(SStr, "sprintf"), true
	case "github.com/google/go-cmp/cmp/cmpopts.IgnoreFields":
		return x.ignoreFields(st, args), true
	case "errors.Is":
		return ErrIs(x.toTerm(st, args[0], SErr), x.toTerm(st, args[1], SErr)), true
	case "regexp.MustCompile":
		t := x.toTerm(st, args[0], SStr)
		l, ok := litOf[t]
		if !ok {
			panic(unsupported("regular expression that is not a constant"))
		}
		_, err := regexp.Compile(l)
		x.oblige(st, boolTerm(err == nil), "panic", "the regular expression is valid", pos)
		return mk(SInt, "regexp", t), true
	case "(*regexp.Regexp).SubexpNames":
		if re := args[0].(*Term); re.Op == "regexp" {
			ns := seqEmpty(SeqSort(SStr))
			for _, n := range regexp.MustCompile(litOf[re.Args[0]]).SubexpNames() {
				ns = SeqCat(ns, SeqUnit(SeqSort(SStr), StrLit(n)))
			}
			return x.fromTerm(st, ns, fn.Signature.Results().At(0).Type(), nil), true
		}
	case "(*regexp.Regexp).FindAllStringSubmatch":
		re, n := args[0].(*Term), x.toTerm(st, args[2], SInt)
		if re.Op == "regexp" && n == Int(-1) {
			if f := x.spec.regexps[litOf[re.Args[0]]]; f != nil {
				x.spec.ensureAxioms(f)
				x.libs[q] = true
				return x.fromTerm(st, x.spec.apply(f, []*Term{x.toTerm(st, args[1], SStr)}, nil), fn.Signature.Results().At(0).Type(), nil), true
			}
		}
		panic(unsupported("regular expression"))
	case "github.com/qdm12/reprint.FromTo":
		return x.deepCopy(st, args[0], args[1], pos), true
	}
	if fnSym := x.spec.lib[q]; fnSym != "" {
		return x.specLib(st, fnSym, fn, args), true
	}
	if ef := x.effectOf(q, args, fn.Signature); ef != nil {
		return x.effect(st, q, ef, fn.Signature, args, pos), true
	}
	if pureLib[q] {
		if _, ok := libSig[q]; !ok {
			libSig[q] = libSorts(fn.Signature)
		}
		ts := make([]*Term, len(args))
		for i, a := range args {
			ts[i] = x.toTerm(st, a, "")
		}
		x.libs[q] = true
		rs := libCall(q, ts)
		return x.libResults(st, fn.Signature, rs), true
	}
	return nil, false
}

// textBuilder models strings.Builder as the text built so far.
func (x *Exec) textBuilder(st *State, m string, fn *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
	l := x.ptr(st, args[0], fn.Signature.Recv().Type(), pos)
	cur := x.termAt(st, l)
	add := func(t *Term) { x.store(st, l, SeqCat(cur, t)) }
	switch m {
	case "WriteString", "Write":
		t := x.toTerm(st, args[1], SStr)
		add(t)
		return Tuple{SeqLen(t), NilErr}, true
	case "WriteByte":
		add(SeqUnit(SStr, x.toTerm(st, args[1], SInt)))
		return NilErr, true
	case "WriteRune":
		t := x.runeStr(st, x.toTerm(st, args[1], SInt))
		add(t)
		return Tuple{SeqLen(t), NilErr}, true
	case "String":
		return cur, true
	case "Len":
		return SeqLen(cur), true
	case "Reset":
		x.store(st, l, seqEmpty(SStr))
		return nil, true
	case "Grow":
		return nil, true
	}
	return nil, false
}

// ignoreFields is the comparison option that ignores fields; their order does
// not matter.
func (x *Exec) ignoreFields(st *State, args []Value) Value {
	t := x.sliceTerm(st, args[1].(*SliceVal))
	var names []string
	var flat func(t *Term)
	flat = func(t *Term) {
		switch {
		case t.Op == "empty_"+t.Sort:
		case t.Op == "cat_"+t.Sort:
			flat(t.Args[0])
			flat(t.Args[1])
		case t.Op == "unit_"+t.Sort && isStrLit(t.Args[0]):
			names = append(names, litOf[t.Args[0]])
		default:
			panic(unsupported("names of ignored fields"))
		}
	}
	flat(t)
	sort.Strings(names)
	x.note("cmp.Equal with IgnoreFields compares the other fields (trusted)")
	return mk(SIface, "lib_ignorefields", x.toTerm(st, args[0], SIface), StrLit(strings.Join(names, " ")))
}

func (x *Exec) libResults(st *State, sig *types.Signature, rs []*Term) Value {
	var vs []Value
	for i, r := range rs {
		t := sig.Results().At(i).Type()
		x.typeRange(st, r, t)
		vs = append(vs, x.fromTerm(st, r, t, nil))
	}
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return Tuple(vs)
}

// specLib applies a function of the specification in place of a library
// function with a single result.
func (x *Exec) specLib(st *State, name string, fn *ssa.Function, args []Value) Value {
	f := x.spec.fns[name]
	x.spec.ensureAxioms(f)
	k := 0
	ts := make([]*Term, len(f.params))
	for i := range f.params {
		if f.params[i].Sort == SWorld {
			ts[i] = st.world
			continue
		}
		if k >= len(args) {
			panic(unsupported("arguments of " + name))
		}
		ts[i] = x.toTerm(st, args[k], f.params[i].Sort)
		k++
	}
	x.libs[fullName(fn)] = true
	r := x.spec.apply(f, ts, nil)
	return x.libResults(st, fn.Signature, []*Term{r})
}

// shortType is a type with the names of its packages.
func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// pointee is the type an argument points to, seen through an interface.
func pointee(v Value) types.Type {
	if u, ok := v.(*IfaceVal); ok && u.typ != nil {
		if p, ok := u.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

// effectOf is what the specification says about a call: an entry for the type
// a pointer in an interface argument has comes before one for all calls.
func (x *Exec) effectOf(q string, args []Value, sig *types.Signature) *effSpec {
	for _, a := range args {
		if t := pointee(a); t != nil {
			if ef := x.spec.eff[q+"#"+shortType(t)]; ef != nil {
				return ef
			}
		}
	}
	return x.spec.eff[q]
}

func (x *Exec) effect(st *State, q string, ef *effSpec, sig *types.Signature, args []Value, pos token.Pos) Value {
	if x.tree && (ef.eff != nil || len(ef.out) > 0 || len(ef.heaps) > 0) {
		panic(unsupported("effect in a contract about trees"))
	}
	x.libs[q] = true
	in := make([]Value, len(args))
	outLoc := map[int]*Loc{}
	for i, a := range args {
		in[i] = a
		u, boxed := a.(*IfaceVal)
		if boxed && pointee(a) != nil {
			in[i] = u.v
		}
		if ef.out[i] != nil {
			var pt types.Type
			if boxed {
				pt = u.typ
			}
			l, ok := in[i].(*Loc)
			if !ok && pt != nil {
				l = x.ptr(st, in[i], pt, pos)
			} else if !ok {
				panic(unsupported("output argument"))
			}
			outLoc[i] = l
		}
	}
	app := func(f *SpecFn) *Term {
		x.spec.ensureAxioms(f)
		k := 0
		ts := make([]*Term, len(f.params))
		for i := range f.params {
			switch s := f.params[i].Sort; {
			case s == SWorld:
				ts[i] = st.world
				continue
			case arrKV[s][0] == SInt && adts[arrKV[s][1]] != nil:
				ts[i] = x.heapArr(st, arrKV[s][1])
				continue
			}
			if k >= len(args) {
				panic(unsupported("arguments of " + f.Name))
			}
			if l := outLoc[k]; l != nil {
				ts[i] = x.termAt(st, l)
				if ts[i].Sort != f.params[i].Sort {
					panic(unsupported("arguments of " + f.Name))
				}
			} else {
				ts[i] = x.toTerm(st, in[k], f.params[i].Sort)
			}
			k++
		}
		return x.spec.apply(f, ts, nil)
	}
	var vs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if rf := ef.res[i]; rf != nil {
			r := app(rf)
			x.typeRange(st, r, t)
			vs = append(vs, x.fromTerm(st, r, t, nil))
		} else {
			vs = append(vs, x.freshVal(st, t, "eff"))
		}
	}
	newOut := map[int]*Term{}
	for i, f := range ef.out {
		newOut[i] = app(f)
	}
	newHeap := map[Sort]*Term{}
	for s, f := range ef.heaps {
		newHeap[arrKV[s][1]] = app(f)
	}
	if ef.eff != nil {
		st.world = app(ef.eff)
	}
	for s, t := range newHeap {
		st.heap[s] = t
	}
	for i := range args {
		if t := newOut[i]; t != nil {
			et := pointee(args[i])
			x.typeRange(st, t, et)
			x.store(st, outLoc[i], x.fromTerm(st, t, et, nil))
		}
	}
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return Tuple(vs)
}

// errorf models fmt.Errorf: a new error that wraps the error arguments of %w.
// formatted is the text that fmt.Sprintf makes, where the format is a constant
// of plain verbs; nil otherwise.
func (x *Exec) formatted(st *State, q string, args []Value) *Term {
	f, ok := args[0].(*Term)
	format, isLit := litOf[f]
	if q != "fmt.Sprintf" || !ok || !isLit || len(args) < 2 {
		return nil
	}
	var vals Arr
	sv, ok := args[1].(*SliceVal)
	if !ok {
		return nil
	}
	if sv.loc != nil {
		if vals, ok = x.rootVal(st, sv.loc).(Arr); !ok {
			return nil
		}
	}
	t, lit, n := StrLit(""), "", 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += format[i : i+1]
			continue
		}
		i++
		switch {
		case i < len(format) && format[i] == '%':
			lit += "%"
			continue
		case i >= len(format) || format[i] != 's' && format[i] != 'v' || n >= len(vals):
			return nil
		}
		var a *Term
		switch v := vals[n].(type) {
		case *IfaceVal:
			if v.v != nil && types.Identical(v.typ, types.Typ[types.String]) {
				a = x.toTerm(st, v.v, SStr)
			}
		case *Term:
			if v.Sort == SIface && format[i] == 'v' {
				a = mk(SStr, "printed", v)
			}
		}
		if a == nil {
			return nil
		}
		n++
		if lit != "" {
			t = SeqCat(t, StrLit(lit))
		}
		t, lit = SeqCat(t, a), ""
	}
	if n != len(vals) {
		return nil
	}
	if lit != "" {
		t = SeqCat(t, StrLit(lit))
	}
	return t
}

func (x *Exec) errorf(st *State, args []Value) Value {
	f, ok := args[0].(*Term)
	format, isLit := litOf[f]
	if !ok || !isLit {
		panic(unsupported("format of fmt.Errorf"))
	}
	n := 0
	var wrapped []int
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			for i < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[i])) {
				i++
			}
			if i >= len(format) {
				break
			}
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' {
				wrapped = append(wrapped, n)
			}
			n++
		}
	}
	if len(wrapped) == 0 {
		return mk(SErr, "errNew", f)
	}
	sv, ok := args[1].(*SliceVal)
	if !ok || sv.loc == nil {
		panic(unsupported("arguments of fmt.Errorf"))
	}
	a, ok := x.rootVal(st, sv.loc).(Arr)
	if !ok || wrapped[0] >= len(a) {
		panic(unsupported("arguments of fmt.Errorf"))
	}
	e := a[wrapped[0]]
	if iv, ok := e.(*IfaceVal); ok && iv.v != nil {
		e = iv.v
	}
	return mk(SErr, "errWrap", x.toTerm(st, e, SErr))
}

// ErrIs is errors.Is on error terms.
func ErrIs(a, b *Term) *Term {
	if a == b {
		return Not(Eq(a, NilErr))
	}
	if a == NilErr {
		return False
	}
	switch a.Op {
	case "errWrap":
		return ErrIs(a.Args[0], b)
	case "ite":
		return Ite(a.Args[0], ErrIs(a.Args[1], b), ErrIs(a.Args[2], b))
	case "errNew":
		if distinctConst[b] {
			return False
		}
	}
	if distinctConst[a] && distinctConst[b] {
		return False
	}
	return mk(SBool, "errIs", a, b)
}

func init() {
	e, t := Const(SErr, "qerr"), Const(SErr, "qerr2")
	s := Const(SStr, "qstr")
	w := mk(SErr, "errWrap", e)
	rn := Const(SInt, "qrn")
	rs := mk(SStr, "lib_runestr", rn)
	one := And(mk(SBool, "=", mk(SInt, "len_Str", rs), Int(1)), mk(SBool, "=", mk(SInt, "nth_Str", rs, Int(0)), rn))
	symAxioms["lib_runestr"] = []*Term{mkQuant("forall", []*Term{rn}, [][]*Term{{rs}}, Implies(And(mk(SBool, "<=", Int(0), rn), mk(SBool, "<", rn, Int(128))), one))}
	symAxioms["errWrap"] = []*Term{mkQuant("forall", []*Term{e}, [][]*Term{{w}}, Not(mk(SBool, "=", w, NilErr)))}
	n := mk(SErr, "errNew", s)
	symAxioms["errNew"] = []*Term{mkQuant("forall", []*Term{s}, [][]*Term{{n}}, Not(mk(SBool, "=", n, NilErr)))}
	is := mk(SBool, "errIs", w, t)
	symAxioms["errIs"] = []*Term{mkQuant("forall", []*Term{e, t}, [][]*Term{{is}}, mk(SBool, "=", is, mk(SBool, "errIs", e, t))),
		mkQuant("forall", []*Term{t}, [][]*Term{{mk(SBool, "errIs", NilErr, t)}}, Not(mk(SBool, "errIs", NilErr, t)))}
}

// deepCopy models reprint.FromTo(src, dst).
func (x *Exec) deepCopy(st *State, src, dst Value, pos token.Pos) Value {
	unbox := func(v Value) *Loc {
		if iv, ok := v.(*IfaceVal); ok {
			v = iv.v
		}
		l, ok := v.(*Loc)
		if !ok {
			panic(unsupported("reprint.FromTo"))
		}
		return l
	}
	s, d := unbox(src), unbox(dst)
	x.note("reprint.FromTo makes a deep copy and does not fail (trusted contract)")
	copyFn := func(name string, t *Term) *Term {
		f := x.spec.fns[name]
		if f == nil {
			panic(unsupported("specification has no " + name))
		}
		return x.spec.apply(f, []*Term{t}, nil)
	}
	sv := x.rootVal(st, s)
	if v, ok := sv.(*SliceVal); ok && len(s.path) == 0 {
		if v.seq != SeqSort(SNode) {
			panic(unsupported("deep copy of " + v.seq))
		}
		t := copyFn("CopyAll", x.sliceTerm(st, v))
		c := x.newCell("copies", nil)
		c.owned = true
		st.cells[c] = t
		if len(d.path) != 0 {
			panic(unsupported("deep copy target"))
		}
		st.cells[d.cell] = &SliceVal{loc: &Loc{cell: c}, lo: Int(0), hi: v.length(), nilT: v.nilT, seq: v.seq, vers: len(st.bumps)}
		st.assume(Eq(SeqLen(t), v.length()))
		return NilErr
	}
	t := x.termAt(st, s)
	switch t.Sort {
	case SNode:
		old := x.termAt(st, d)
		nt := WithField(copyFn("Copy", t), "ID", Field(old, "ID"))
		if len(d.path) == 0 {
			x.setRoot(st, d, nt)
		} else {
			x.setRoot(st, d, put(x.rootVal(st, d).(*Term), d.path, nt))
		}
		x.bump(st, d)
		return NilErr
	case SeqSort(SNode):
		x.store(st, d, copyFn("CopyAll", t))
		return NilErr
	}
	panic(unsupported("deep copy of " + t.Sort))
}

func (s *SliceVal) length() *Term { return Sub(s.hi, s.lo) }

func methodsOf(prog *ssa.Program, t *ssa.Type) []*ssa.Function {
	var out []*ssa.Function
	n, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if f := prog.FuncValue(n.Method(i)); f != nil {
			out = append(out, f)
		}
	}
	return out
}
