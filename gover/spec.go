package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// SpecFn is a function of the specification package.
type SpecFn struct {
	Name       string
	Decl       *ast.FuncDecl
	Sig        *types.Signature
	Dir        map[string][]string // directives: //@ key value
	recursive  bool
	axiomsDone bool
	params     []*Term
	retSort    Sort
}

// Spec is the loaded specification package.
type Spec struct {
	base   *Term // see made
	pkg    *packages.Package
	fns    map[string]*SpecFn
	order  []string
	lib    map[string]string // Go function -> symbol (pure library functions)
	eff    map[string]*effSpec
	reads  map[string]*SpecFn // "Type.Field" of external structs
	allocs map[string]*SpecFn
	chans  map[string]*SpecFn // operation and element type
	builds map[string]*buildsSpec
	// regexps are the matches of regular expressions, by their text
	regexps map[string]*SpecFn
}

type effSpec struct {
	eff   *SpecFn
	res   map[int]*SpecFn
	out   map[int]*SpecFn  // new values of variables an argument points to
	heaps map[Sort]*SpecFn // new states of the objects of a type
}

func loadSpec(dir string) (*Spec, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: dir}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	p := ps[0]
	if len(p.Errors) > 0 {
		return nil, p.Errors[0]
	}
	s := &Spec{pkg: p, fns: map[string]*SpecFn{}, eff: map[string]*effSpec{}, lib: map[string]string{}, reads: map[string]*SpecFn{}, chans: map[string]*SpecFn{}, allocs: map[string]*SpecFn{}, regexps: map[string]*SpecFn{}}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			obj := p.TypesInfo.Defs[fd.Name].(*types.Func)
			fn := &SpecFn{Name: fd.Name.Name, Decl: fd, Sig: obj.Type().(*types.Signature), Dir: map[string][]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if t, ok := strings.CutPrefix(strings.TrimSpace(strings.TrimPrefix(c.Text, "//")), "@"); ok {
						k, v, _ := strings.Cut(strings.TrimSpace(t), " ")
						fn.Dir[k] = append(fn.Dir[k], strings.TrimSpace(v))
					}
				}
			}
			s.fns[fn.Name] = fn
			s.order = append(s.order, fn.Name)
			for _, n := range fn.Dir["pure"] {
				s.lib[n] = fn.Name
			}
			for _, n := range fn.Dir["regexp"] {
				s.regexps[n] = fn
			}
			for _, n := range fn.Dir["effect"] {
				s.effect(n).eff = fn
			}
			for _, n := range fn.Dir["result"] {
				a, b, _ := strings.Cut(n, " ")
				i, _ := strconv.Atoi(b)
				s.effect(a).res[i] = fn
			}
			for _, n := range fn.Dir["out"] {
				a, b, _ := strings.Cut(n, " ")
				i, _ := strconv.Atoi(b)
				s.effect(a).out[i] = fn
			}
			for _, n := range fn.Dir["heapout"] {
				s.effect(n).heaps[sortOf(fn.Sig.Results().At(0).Type())] = fn
			}
			for _, d := range []string{"alloc", "allocw"} {
				for _, n := range fn.Dir[d] {
					s.allocs[d+" "+n] = fn
				}
			}
		}
	}
	s.markRecursive()
	for _, n := range s.order {
		for _, k := range s.fns[n].Dir["read"] {
			s.reads[k] = s.fns[n]
		}
		for _, d := range []string{"send", "close", "recvok", "recvval", "recvw", "makechan"} {
			for _, k := range s.fns[n].Dir[d] {
				s.chans[d+" "+k] = s.fns[n]
			}
		}
	}
	return s, nil
}

func (s *Spec) effect(n string) *effSpec {
	if s.eff[n] == nil {
		s.eff[n] = &effSpec{res: map[int]*SpecFn{}, out: map[int]*SpecFn{}, heaps: map[Sort]*SpecFn{}}
	}
	return s.eff[n]
}

func (s *Spec) callees(fn *SpecFn) map[string]bool {
	m := map[string]bool{}
	if fn.Decl.Body == nil {
		return m
	}
	ast.Inspect(fn.Decl.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && s.fns[id.Name] != nil {
				m[id.Name] = true
			}
		}
		return true
	})
	return m
}

func (s *Spec) markRecursive() {
	reach := map[string]map[string]bool{}
	for n, f := range s.fns {
		reach[n] = s.callees(f)
	}
	for changed := true; changed; {
		changed = false
		for n := range reach {
			for m := range reach[n] {
				for k := range reach[m] {
					if !reach[n][k] {
						reach[n][k] = true
						changed = true
					}
				}
			}
		}
	}
	for n, f := range s.fns {
		f.recursive = reach[n][n]
	}
	sccOf = func(a, b string) bool { return a == b && reach[a][a] || reach[a][b] && reach[b][a] }
}

var sccOf func(a, b string) bool

// sortOf maps a Go type (of the specification or of the code) to a sort.
func sortOf(t types.Type) Sort {
	switch u := t.(type) {
	case *types.Named:
		n := u.Obj().Name()
		pkg := ""
		if u.Obj().Pkg() != nil {
			pkg = u.Obj().Pkg().Path()
		}
		if n == "error" && pkg == "" {
			return SErr
		}
		if strings.HasSuffix(pkg, "verifspec") {
			switch n {
			case "Ref":
				return SInt
			case "World":
				return SWorld
			case "Heap":
				return mkArrSort(SInt, sortOf(u.TypeArgs().At(0)))
			}
			if _, ok := u.Underlying().(*types.Struct); ok {
				if m := strings.TrimSuffix(n, "_"); m != n {
					// the mirror of a struct of the code
					if adtOwner[m] == "" {
						panic(unsupported("the code has no struct " + m))
					}
					return m
				}
				if n == "Node" || specStruct[n] {
					if n != "Node" {
						declareSpecStruct(n, u)
					}
					return n
				}
				if adts[n] != nil {
					return n
				}
				declareSpecStruct(n, u)
				return n
			}
		}
		if pkg == "gopkg.in/yaml.v3" && n == "Node" {
			return SNode
		}
		if pkg == "strings" && n == "Builder" {
			return SStr // the text so far
		}
		if _, ok := u.Underlying().(*types.Struct); ok {
			return structSort(u)
		}
		if _, ok := u.Underlying().(*types.Interface); ok {
			return SIface
		}
		return sortOf(u.Underlying())
	case *types.Alias:
		return sortOf(types.Unalias(u))
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return "nil"
		}
	case *types.Chan:
		if el, n := queueElem(t); n > 0 {
			return SeqSort(sortOf(el))
		}
		return SInt
	case *types.Pointer, *types.Signature:
		return SInt
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return SStr
		}
		return SeqSort(elemSort(u.Elem()))
	case *types.Array:
		return SeqSort(elemSort(u.Elem()))
	case *types.Interface:
		return SIface
	case *types.Map:
		return mapSort(sortOf(u.Key()), sortOf(u.Elem()))
	case *types.Struct:
		if u.NumFields() == 0 {
			return "Unit"
		}
	}
	panic(unsupported("sort of type " + t.String()))
}

// elemSort is the sort of slice elements: in tree mode a slice of node
// pointers is a sequence of nodes.
func elemSort(t types.Type) Sort {
	if treeMode && isNodePtr(t) {
		return SNode
	}
	return sortOf(t)
}

var treeMode bool

func isNodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	return isNodeType(p.Elem())
}

func isNodeType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "gopkg.in/yaml.v3"
}

var specStruct = map[string]bool{}

func declareSpecStruct(n string, u *types.Named) {
	if adts[n] != nil {
		return
	}
	st := u.Underlying().(*types.Struct)
	d := &ADT{Name: n}
	adts[n] = d
	specStruct[n] = true
	for i := 0; i < st.NumFields(); i++ {
		d.Fields = append(d.Fields, st.Field(i).Name())
		d.Sorts = append(d.Sorts, sortOf(st.Field(i).Type()))
	}
}

// declareStructs declares the datatypes of the struct types of the code.
func declareStructs(pkgs []*types.Package) {
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Path() < pkgs[j].Path() })
	for _, p := range pkgs {
		for _, n := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			u, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := u.Underlying().(*types.Struct); !ok {
				continue
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsupportedErr); !ok {
							panic(e)
						}
						delete(adts, n)
						delete(adtOwner, n)
					}
				}()
				sortOf(u)
			}()
		}
	}
}

// keptNil lists the slice fields whose nil-ness the specification speaks of:
// their field in the specification's struct has the tag nil:"kept". Whether
// another slice field is nil is unknown when the code asks.
var keptNil = map[string]bool{}

// nilEmptyField lists the fields of type node whose children are nil exactly
// when there are none, tag nil:"empty": what parsing a text makes.
var nilEmptyField = map[string]bool{}

// queues gives the capacity of the channels, by element type, that only one
// field holds and one goroutine uses: they are lists. Tag queue:"n".
var queues = map[string]int{}

func queueElem(t types.Type) (types.Type, int) {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil, 0
	}
	n, ok := c.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "yaml-overlay-tool") {
		return nil, 0
	}
	return n, queues[n.Obj().Name()]
}

func readKept(dir string) {
	ps, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	if err != nil {
		return
	}
	for _, p := range ps {
		ast.Inspect(p, func(n ast.Node) bool {
			t, ok := n.(*ast.TypeSpec)
			if !ok {
				return true
			}
			st, ok := t.Type.(*ast.StructType)
			if !ok {
				return true
			}
			for _, f := range st.Fields.List {
				if f.Tag != nil && strings.Contains(f.Tag.Value, `nil:"empty"`) {
					for _, n := range f.Names {
						nilEmptyField[strings.TrimSuffix(t.Name.Name, "_")+"."+n.Name] = true
					}
				}
				if f.Tag != nil && strings.Contains(f.Tag.Value, `queue:"`) {
					if a, ok := f.Type.(*ast.ArrayType); ok {
						if id, ok := a.Elt.(*ast.Ident); ok {
							_, v, _ := strings.Cut(f.Tag.Value, `queue:"`)
							v, _, _ = strings.Cut(v, `"`)
							c, _ := strconv.Atoi(v)
							queues[strings.TrimSuffix(id.Name, "_")] = c
						}
					}
				}
				if f.Tag != nil && strings.Contains(f.Tag.Value, `nil:"kept"`) {
					for _, n := range f.Names {
						keptNil[strings.TrimSuffix(t.Name.Name, "_")+"."+n.Name] = true
					}
				}
			}
			return true
		})
	}
}

// structSort declares the datatype of a struct type of the code. Slice fields
// of keptNil get an additional "<f>__nil" component.
func structSort(u *types.Named) Sort {
	if u.Obj().Pkg() != nil && u.Obj().Parent() != u.Obj().Pkg().Scope() {
		// a type inside a function that is another name of a declared struct
		sc := u.Obj().Pkg().Scope()
		for _, m := range sc.Names() {
			if tn, ok := sc.Lookup(m).(*types.TypeName); ok && !tn.IsAlias() {
				if v, ok := tn.Type().(*types.Named); ok && types.Identical(v.Underlying(), u.Underlying()) {
					return structSort(v)
				}
			}
		}
	}
	n := u.Obj().Name()
	if adts[n] != nil && adtOwner[n] == u.Obj().Pkg().Path() {
		return n
	}
	if !strings.Contains(u.Obj().Pkg().Path(), "yaml-overlay-tool") {
		return "X_" + clean(n) // opaque external struct
	}
	if adts[n] != nil {
		n = clean(u.Obj().Pkg().Name() + "_" + n)
		if adts[n] != nil {
			return n
		}
	}
	st := u.Underlying().(*types.Struct)
	d := &ADT{Name: n}
	adts[n] = d
	adtOwner[n] = u.Obj().Pkg().Path()
	save := treeMode
	treeMode = false
	defer func() { treeMode = save }()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		d.Fields = append(d.Fields, f.Name())
		d.Sorts = append(d.Sorts, sortOf(f.Type()))
		if _, ok := f.Type().Underlying().(*types.Slice); ok && keptNil[u.Obj().Name()+"."+f.Name()] {
			d.Fields = append(d.Fields, f.Name()+"__nil")
			d.Sorts = append(d.Sorts, SBool)
		}
	}
	return n
}

var adtOwner = map[string]string{}

func isMapSort(s Sort) bool { return strings.HasPrefix(s, "Map_") && adts[s] != nil }

func mapSort(k, v Sort) Sort {
	n := "Map_" + clean(k) + "_" + clean(v)
	if adts[n] == nil {
		adts[n] = &ADT{Name: n, Fields: []string{"val", "dom"}, Sorts: []Sort{mkArrSort(k, v), mkArrSort(k, SBool)}}
	}
	return n
}

func init() {
	adts[SNode] = &ADT{Name: SNode,
		Fields: []string{"ID", "Kind", "Style", "Tag", "Value", "Anchor", "Alias", "Content", "HeadComment", "LineComment", "FootComment"},
		Sorts:  []Sort{SInt, SInt, SInt, SStr, SStr, SStr, SStr, SeqSort(SNode), SStr, SStr, SStr}}
}

// ---- translation of expressions and bodies ----

type senv struct {
	s     *Spec
	fn    *SpecFn
	vars  map[types.Object]*Term
	limit func(callee string) string // renames recursive calls
	// lemma mode
	onAssert func(t *Term, what string)
	onAssume func(t *Term)
	pc       []*Term
}

func (e *senv) clone() *senv {
	c := *e
	c.vars = map[types.Object]*Term{}
	for k, v := range e.vars {
		c.vars[k] = v
	}
	c.pc = append([]*Term(nil), e.pc...)
	return &c
}

// made is at or below every object that exists at the entry of a function. At
// a call those that the caller made do.
func (s *Spec) made() *Term {
	if s.base == nil {
		return Int(0)
	}
	return s.base
}

func (e *senv) bad(n ast.Node, why string) unsupportedErr {
	return unsupported(fmt.Sprintf("spec %s: %s: %s", e.fn.Name, e.s.pkg.Fset.Position(n.Pos()), why))
}

func (e *senv) typeOf(x ast.Expr) types.Type { return e.s.pkg.TypesInfo.TypeOf(x) }

func (e *senv) expr(x ast.Expr) *Term {
	if tv, ok := e.s.pkg.TypesInfo.Types[x]; ok && tv.Value != nil {
		switch tv.Value.Kind() {
		case constant.Bool:
			return boolTerm(constant.BoolVal(tv.Value))
		case constant.Int:
			n, ok := constant.Int64Val(tv.Value)
			if !ok {
				panic(e.bad(x, "large constant"))
			}
			return Int(n)
		case constant.String:
			return StrLit(constant.StringVal(tv.Value))
		}
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.expr(x.X)
	case *ast.Ident:
		o := e.s.pkg.TypesInfo.ObjectOf(x)
		if t, ok := e.vars[o]; ok {
			return t
		}
		if v, ok := o.(*types.Var); ok && v.Parent() == e.s.pkg.Types.Scope() {
			// package level variables are opaque constants (error values)
			return globalConst(sortOf(v.Type()), v.Name())
		}
		panic(e.bad(x, "unbound "+x.Name))
	case *ast.SelectorExpr:
		return Field(e.expr(x.X), x.Sel.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return Not(e.expr(x.X))
		case token.SUB:
			return Sub(Int(0), e.expr(x.X))
		}
	case *ast.BinaryExpr:
		if x.Op == token.EQL || x.Op == token.NEQ {
			var t *Term
			if id, ok := x.Y.(*ast.Ident); ok && id.Name == "nil" {
				t = e.nilTest(x.X)
			} else {
				t = Eq(e.expr(x.X), e.expr(x.Y))
			}
			if x.Op == token.NEQ {
				t = Not(t)
			}
			return t
		}
		a := e.expr(x.X)
		b := e.expr(x.Y)
		switch x.Op {
		case token.LAND:
			return And(a, b)
		case token.LOR:
			return Or(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.LEQ:
			return Le(a, b)
		case token.GEQ:
			return Le(b, a)
		case token.ADD:
			if a.Sort == SStr {
				return SeqCat(a, b)
			}
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.REM:
			return mk(SInt, "mod", a, b)
		case token.QUO:
			return mk(SInt, "div", a, b)
		}
	case *ast.IndexExpr:
		a := e.expr(x.X)
		if _, ok := arrKV[a.Sort]; ok {
			return Select(a, e.expr(x.Index))
		}
		if isMapSort(a.Sort) {
			return Select(Field(a, "val"), e.expr(x.Index))
		}
		return SeqNth(a, e.expr(x.Index))
	case *ast.SliceExpr:
		a := e.expr(x.X)
		lo, hi := Int(0), SeqLen(a)
		if x.Low != nil {
			lo = e.expr(x.Low)
		}
		if x.High != nil {
			hi = e.expr(x.High)
		}
		return SeqSub(a, lo, hi)
	case *ast.CompositeLit:
		t := e.typeOf(x)
		srt := sortOf(t)
		if isSeq(srt) {
			r := seqEmpty(srt)
			for _, el := range x.Elts {
				v := e.expr(el)
				if seqElem[srt] == SIface && v.Sort != SIface {
					v = box(v)
				}
				r = SeqCat(r, SeqUnit(srt, v))
			}
			return r
		}
		d := adts[srt]
		if isMapSort(srt) {
			val, dom := ConstArr(d.Sorts[0], zeroTerm(arrKV[d.Sorts[0]][1])), ConstArr(d.Sorts[1], False)
			for _, el := range x.Elts {
				kv := el.(*ast.KeyValueExpr)
				k := e.expr(kv.Key)
				val, dom = Store(val, k, e.expr(kv.Value)), Store(dom, k, True)
			}
			return Make(srt, val, dom)
		}
		if d == nil {
			panic(e.bad(x, "literal of "+srt))
		}
		args := make([]*Term, len(d.Fields))
		for i := range args {
			args[i] = zeroTerm(d.Sorts[i])
			if strings.HasSuffix(d.Fields[i], "__nil") {
				args[i] = True
			}
		}
		for j, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				args[d.idx(kv.Key.(*ast.Ident).Name)] = e.expr(kv.Value)
			} else {
				args[j] = e.expr(el)
			}
		}
		return Make(srt, args...)
	case *ast.CallExpr:
		return e.call(x)
	}
	panic(e.bad(x, fmt.Sprintf("expression %T", x)))
}

func globalConst(s Sort, name string) *Term {
	t := Const(s, "g_"+name)
	if s == SErr {
		distinctConst[t] = true
	}
	return t
}

var NilErr = func() *Term { t := Const(SErr, "nilErr"); distinctConst[t] = true; return t }()

func (e *senv) nilTest(x ast.Expr) *Term {
	t := e.typeOf(x)
	switch t.Underlying().(type) {
	case *types.Slice:
		if s, ok := x.(*ast.SelectorExpr); ok {
			return Field(e.expr(s.X), s.Sel.Name+"__nil")
		}
		panic(e.bad(x, "nil test of a slice that is not a field"))
	case *types.Interface:
		if sortOf(t) == SErr {
			return Eq(e.expr(x), NilErr)
		}
	}
	panic(e.bad(x, "nil test"))
}

func zeroTerm(s Sort) *Term {
	switch {
	case s == SBool:
		return False
	case s == SInt:
		return Int(0)
	case s == SErr:
		return NilErr
	case s == SIface:
		return Const(SIface, "nilIface")
	case isSeq(s):
		return seqEmpty(s)
	}
	if d := adts[s]; d != nil {
		args := make([]*Term, len(d.Fields))
		for i := range args {
			args[i] = zeroTerm(d.Sorts[i])
			if strings.HasSuffix(d.Fields[i], "__nil") {
				args[i] = True
			}
		}
		return Make(s, args...)
	}
	if kv, ok := arrKV[s]; ok {
		return ConstArr(s, zeroTerm(kv[1]))
	}
	return Const(s, "zero_"+clean(s))
}

// OpTerm applies a built-in symbol; the arguments of commutative ones are
// ordered.
func OpTerm(s Sort, op string, args []*Term) *Term {
	if op == "lib_bitor" || op == "lib_bitand" {
		if args[0].id > args[1].id {
			args = []*Term{args[1], args[0]}
		}
	}
	return mk(s, op, args...)
}

func (e *senv) call(x *ast.CallExpr) *Term {
	// conversions
	if tv, ok := e.s.pkg.TypesInfo.Types[x.Fun]; ok && tv.IsType() {
		a := e.expr(x.Args[0])
		if a.Sort != sortOf(tv.Type) {
			if sortOf(tv.Type) == SStr && a.Sort == SInt {
				return mk(SStr, "lib_runestr", a)
			}
			if sortOf(tv.Type) == SIface {
				return box(a)
			}
			panic(e.bad(x, "conversion"))
		}
		return a
	}
	var args []*Term
	name := ""
	switch f := x.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		o := e.s.pkg.TypesInfo.ObjectOf(f.Sel)
		if fn, ok := o.(*types.Func); ok && fn.Pkg() != nil {
			for _, a := range x.Args {
				args = append(args, e.expr(a))
			}
			if sg := fn.Type().(*types.Signature); sg.Variadic() && !x.Ellipsis.IsValid() {
				n := sg.Params().Len() - 1
				last := seqEmpty(sortOf(sg.Params().At(n).Type()))
				for _, a := range args[n:] {
					if seqElem[last.Sort] == SIface && a.Sort != SIface {
						a = box(a)
					}
					last = SeqCat(last, SeqUnit(last.Sort, a))
				}
				args = append(args[:n:n], last)
			}
			q := fn.Pkg().Path() + "." + fn.Name()
			if q == "errors.Is" {
				return ErrIs(args[0], args[1])
			}
			if r := libCall(canonLib(q), args); r != nil {
				return r[0]
			}
		}
		panic(e.bad(x, "call"))
	default:
		panic(e.bad(x, "call"))
	}
	if name == "Forall" || name == "Exists" {
		lo, hi := e.expr(x.Args[0]), e.expr(x.Args[1])
		fl := x.Args[2].(*ast.FuncLit)
		p := fl.Type.Params.List[0].Names[0]
		fresh++
		v := Const(SInt, fmt.Sprintf("q%s%d", p.Name, fresh))
		c := e.clone()
		c.vars[e.s.pkg.TypesInfo.Defs[p]] = v
		body := c.body(fl.Body.List)
		rng := And(Le(lo, v), Lt(v, hi))
		if name == "Exists" {
			return mkQuant("exists", []*Term{v}, nil, And(rng, body))
		}
		return mkQuant("forall", []*Term{v}, patternsFor(v, body), Implies(rng, body))
	}
	for _, a := range x.Args {
		args = append(args, e.expr(a))
	}
	switch name {
	case "len":
		return SeqLen(args[0])
	case "append":
		if x.Ellipsis.IsValid() {
			return SeqCat(args[0], args[1])
		}
		r := args[0]
		for _, a := range args[1:] {
			r = SeqCat(r, SeqUnit(r.Sort, a))
		}
		return r
	case "PutKey":
		m := args[0]
		return Make(m.Sort, Store(Field(m, "val"), args[1], args[2]), Store(Field(m, "dom"), args[1], True))
	case "Put":
		return Store(args[0], args[1], args[2])
	case "Kept":
		k := Const(SInt, "qref")
		sel := Select(args[1], k)
		return mkQuant("forall", []*Term{k}, [][]*Term{{sel}}, Implies(Le(e.s.made(), k), Eq(sel, Select(args[0], k))))
	case "New":
		return Lt(args[0], e.s.made())
	case "Eq":
		return Eq(args[0], args[1])
	case "Upd", "UpdN", "UpdS":
		return SeqUpd(args[0], args[1], args[2])
	case "Implies":
		return Implies(args[0], args[1])
	case "Iff":
		return Eq(args[0], args[1])
	case "IfInt", "IfStr", "IfNode", "IfBool":
		return Ite(args[0], args[1], args[2])
	case "Height":
		return mk(SInt, "hseq", Field(args[0], "Content"))
	}
	fn := e.s.fns[name]
	if fn == nil {
		panic(e.bad(x, "unknown function "+name))
	}
	if d := fn.Dir["op"]; d != nil {
		e.s.ensureAxioms(fn)
		for i := range args {
			if fn.params[i].Sort == SIface && args[i].Sort != SIface {
				args[i] = box(args[i])
			}
		}
		return OpTerm(fn.retSort, d[0], args)
	}
	for _, k := range []string{"errnil", "libres"} {
		if d := fn.Dir[k]; d != nil {
			q, n, _ := strings.Cut(d[0], " ")
			i, _ := strconv.Atoi(n)
			r := libCall(q, args)
			if r == nil || i >= len(r) {
				panic(e.bad(x, "library function "+q))
			}
			if k == "errnil" {
				return Eq(r[i], NilErr)
			}
			return r[i]
		}
	}
	return e.s.apply(fn, args, e.limit)
}

// patternsFor picks the accesses indexed by v as triggers.
func patternsFor(v, body *Term) [][]*Term {
	var pats [][]*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.Op, "nth_") && t.Args[1] == v && !mentions(t.Args[0], v) {
			pats = append(pats, []*Term{t})
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(body)
	return pats
}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// fuel levels of recursive functions.
const fuelLevels = 2

func (s *Spec) apply(fn *SpecFn, args []*Term, limit func(string) string) *Term {
	s.ensureAxioms(fn)
	if len(args) != len(fn.params) {
		panic(unsupported(fmt.Sprintf("spec call of %s with %d arguments", fn.Name, len(args))))
	}
	for i, a := range args {
		if a.Sort != fn.params[i].Sort && fn.params[i].Sort == SIface {
			args = append([]*Term(nil), args...)
			args[i] = box(a)
		} else if a.Sort != fn.params[i].Sort {
			panic(unsupported(fmt.Sprintf("spec call of %s: argument %d has sort %s, want %s", fn.Name, i, a.Sort, fn.params[i].Sort)))
		}
	}
	if fn.Dir["inline"] != nil {
		return s.inline(fn, args, limit)
	}
	if fn.Dir["setting"] != nil {
		args = append([]*Term(nil), args...)
		for i, a := range args {
			if a.Sort == SWorld {
				args[i] = confOf(a)
			}
		}
	}
	name := s.symbol(fn)
	if limit != nil {
		name = limit(fn.Name)
		if name == "" {
			name = s.symbol(fn)
		}
	}
	return mk(fn.retSort, name, args...)
}

// keepsConf gives, for an effect that leaves the settings alone, the place of
// its world argument, from 1.
var keepsConf = map[string]int{}

// confOf is the part of a world that holds the settings: all effects leave it
// alone, except those that the specification marks with "sets".
func confOf(w *Term) *Term {
	for {
		if i := keepsConf[w.Op]; i > 0 {
			w = w.Args[i-1]
			continue
		}
		if w.Op == "confOf" {
			return w
		}
		if w.Op == "ite" {
			a, b := confOf(w.Args[1]), confOf(w.Args[2])
			if a == b {
				return a
			}
		}
		return mk(SWorld, "confOf", w)
	}
}

func (s *Spec) symbol(fn *SpecFn) string {
	if fn.recursive {
		return fmt.Sprintf("s%d_%s", fuelLevels, fn.Name)
	}
	return "s_" + fn.Name
}

func (s *Spec) inline(fn *SpecFn, args []*Term, limit func(string) string) *Term {
	e := &senv{s: s, fn: fn, vars: map[types.Object]*Term{}, limit: limit}
	for i := 0; i < fn.Sig.Params().Len(); i++ {
		e.vars[fn.Sig.Params().At(i)] = args[i]
	}
	return e.body(fn.Decl.Body.List)
}

func (s *Spec) ensureAxioms(fn *SpecFn) {
	if fn.axiomsDone {
		return
	}
	fn.axiomsDone = true
	save := treeMode
	treeMode = false
	defer func() { treeMode = save }()
	for i := 0; i < fn.Sig.Params().Len(); i++ {
		p := fn.Sig.Params().At(i)
		fn.params = append(fn.params, Const(sortOf(p.Type()), fmt.Sprintf("p%d_%s_%s", i, fn.Name, p.Name())))
	}
	if fn.Sig.Results().Len() == 1 {
		fn.retSort = sortOf(fn.Sig.Results().At(0).Type())
	}
	if fn.Dir["inline"] != nil || fn.Dir["lemma"] != nil || fn.Dir["contract"] != nil || fn.Dir["hint"] != nil || fn.Dir["axiom"] != nil || fn.Dir["op"] != nil || fn.Dir["errnil"] != nil || fn.Dir["libres"] != nil {
		return
	}
	if fn.Dir["uninterpreted"] != nil || fn.Dir["builds"] != nil || fn.Dir["pure"] != nil || fn.Dir["effect"] != nil || fn.Dir["result"] != nil || fn.Dir["read"] != nil || fn.Dir["send"] != nil || fn.Dir["close"] != nil || fn.Dir["recvok"] != nil || fn.Dir["recvval"] != nil || fn.Dir["recvw"] != nil || fn.Dir["makechan"] != nil || fn.Dir["out"] != nil || fn.Dir["heapout"] != nil || fn.Dir["alloc"] != nil || fn.Dir["allocw"] != nil {
		for _, ax := range s.fns {
			for _, n := range ax.Dir["axiom"] {
				if n == fn.Name {
					s.ensureAxioms(ax)
					body := s.inline(ax, ax.params, nil)
					var pat []*Term
					trig := mk(fn.retSort, s.symbol(fn), ax.params[:len(fn.params)]...)
					pat = append(pat, trig)
					pat = append(pat, (&senv{s: s, fn: ax, vars: s.lemmaVars(ax, nil)}).triggers()...)
					symAxioms[s.symbol(fn)] = append(symAxioms[s.symbol(fn)], mkQuant("forall", ax.params, [][]*Term{pat}, body))
				}
			}
		}
		if fn.retSort == SWorld && fn.Dir["sets"] == nil {
			sym := s.symbol(fn)
			for i, p := range fn.params {
				if p.Sort == SWorld {
					keepsConf[sym] = i + 1
					c := mk(SWorld, "confOf", mk(SWorld, sym, fn.params...))
					symAxioms[sym] = append(symAxioms[sym], mkQuant("forall", fn.params, [][]*Term{{c}}, Eq(c, mk(SWorld, "confOf", p))))
					break
				}
			}
		}
		return
	}
	s.knownLemmas(fn)
	if !fn.recursive {
		body := s.inline(fn, fn.params, nil)
		app := mk(fn.retSort, s.symbol(fn), fn.params...)
		symAxioms[app.Op] = append(symAxioms[app.Op], quantOver(fn.params, app, Eq(app, body)))
		return
	}
	for lv := fuelLevels; lv > 0; lv-- {
		lim := func(c string) string {
			if sccOf(fn.Name, c) {
				s.ensureAxioms(s.fns[c])
				return fmt.Sprintf("s%d_%s", lv-1, c)
			}
			return ""
		}
		body := s.inline(fn, fn.params, lim)
		op := fmt.Sprintf("s%d_%s", lv, fn.Name)
		app := mk(fn.retSort, op, fn.params...)
		low := mk(fn.retSort, fmt.Sprintf("s%d_%s", lv-1, fn.Name), fn.params...)
		symAxioms[op] = append(symAxioms[op], quantOver(fn.params, app, Eq(app, body)), quantOver(fn.params, app, Eq(app, low)))
	}
	// exported lemmas about this function
	_ = s
}

// box is a value as an interface value.
func box(t *Term) *Term { return mk(SIface, "box_"+clean(t.Sort), t) }

func quantOver(vars []*Term, pat, body *Term) *Term {
	if len(vars) == 0 {
		return body
	}
	return mkQuant("forall", vars, [][]*Term{{pat}}, body)
}

// body evaluates a statement list that ends in a return to a term.
func (e *senv) body(list []ast.Stmt) *Term {
	t := e.stmts(list)
	if t == nil {
		panic(e.bad(e.fn.Decl, "missing return"))
	}
	return t
}

// stmts returns the value returned on all paths, or nil if control falls
// through.
func (e *senv) stmts(list []ast.Stmt) *Term {
	for i, st := range list {
		rest := list[i+1:]
		switch st := st.(type) {
		case *ast.ReturnStmt:
			if len(st.Results) != 1 {
				return True
			}
			return e.expr(st.Results[0])
		case *ast.AssignStmt:
			if len(st.Lhs) == 1 {
				v := e.expr(st.Rhs[0])
				if st.Tok == token.ADD_ASSIGN {
					cur := e.expr(st.Lhs[0])
					if cur.Sort == SStr {
						v = SeqCat(cur, v)
					} else {
						v = Add(cur, v)
					}
				}
				e.assign(st.Lhs[0], v)
				continue
			}
			panic(e.bad(st, "multi-assignment"))
		case *ast.DeclStmt:
			for _, sp := range st.Decl.(*ast.GenDecl).Specs {
				vs := sp.(*ast.ValueSpec)
				for k, n := range vs.Names {
					o := e.s.pkg.TypesInfo.Defs[n]
					if k < len(vs.Values) {
						e.vars[o] = e.expr(vs.Values[k])
					} else {
						e.vars[o] = zeroTerm(sortOf(o.Type()))
					}
				}
			}
		case *ast.IfStmt:
			if st.Init != nil {
				if r := e.stmts([]ast.Stmt{st.Init}); r != nil {
					panic(e.bad(st, "if init"))
				}
			}
			c := e.expr(st.Cond)
			var els []ast.Stmt
			switch x := st.Else.(type) {
			case *ast.BlockStmt:
				els = x.List
			case *ast.IfStmt:
				els = []ast.Stmt{x}
			}
			return e.fork(c, st.Body.List, els, rest)
		case *ast.SwitchStmt:
			// turn into nested ifs
			if st.Init != nil {
				e.stmts([]ast.Stmt{st.Init})
			}
			var tag *Term
			if st.Tag != nil {
				tag = e.expr(st.Tag)
			}
			return e.switchCases(tag, st.Body.List, rest)
		case *ast.ExprStmt:
			e.exprStmt(st)
		case *ast.BlockStmt:
			return e.stmts(append(append([]ast.Stmt{}, st.List...), rest...))
		default:
			panic(e.bad(st, fmt.Sprintf("statement %T", st)))
		}
	}
	return nil
}

func (e *senv) switchCases(tag *Term, cases []ast.Stmt, rest []ast.Stmt) *Term {
	var def []ast.Stmt
	for i, c := range cases {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc.Body
			continue
		}
		cond := False
		for _, x := range cc.List {
			v := e.expr(x)
			if tag != nil {
				v = Eq(tag, v)
			}
			cond = Or(cond, v)
		}
		a, b := e.clone(), e.clone()
		a.pc = append(a.pc, cond)
		b.pc = append(b.pc, Not(cond))
		x := a.stmts(append(append([]ast.Stmt{}, cc.Body...), rest...))
		var others []ast.Stmt
		others = append(others, cases[:i]...)
		// remaining cases: keep the default clause
		var rem []ast.Stmt
		for _, o := range others {
			if o.(*ast.CaseClause).List == nil {
				rem = append(rem, o)
			}
		}
		rem = append(rem, cases[i+1:]...)
		y := b.switchCases(tag, rem, rest)
		return e.join(cond, x, y)
	}
	return e.stmts(append(append([]ast.Stmt{}, def...), rest...))
}

func (e *senv) fork(c *Term, thn, els, rest []ast.Stmt) *Term {
	a, b := e.clone(), e.clone()
	a.pc = append(a.pc, c)
	b.pc = append(b.pc, Not(c))
	if c == True {
		return a.stmts(append(append([]ast.Stmt{}, thn...), rest...))
	}
	if c == False {
		return b.stmts(append(append([]ast.Stmt{}, els...), rest...))
	}
	x := a.stmts(append(append([]ast.Stmt{}, thn...), rest...))
	y := b.stmts(append(append([]ast.Stmt{}, els...), rest...))
	return e.join(c, x, y)
}

func (e *senv) join(c, x, y *Term) *Term {
	if x == nil && y == nil {
		return nil
	}
	if x == nil || y == nil {
		if e.onAssert != nil { // lemma: no values
			return True
		}
		panic(e.bad(e.fn.Decl, "missing return"))
	}
	return Ite(c, x, y)
}

func (e *senv) assign(l ast.Expr, v *Term) {
	switch l := l.(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		e.vars[e.s.pkg.TypesInfo.ObjectOf(l)] = v
	case *ast.SelectorExpr:
		e.assign(l.X, WithField(e.expr(l.X), l.Sel.Name, v))
	default:
		panic(e.bad(l, "assignment target"))
	}
}

func (e *senv) exprStmt(st *ast.ExprStmt) {
	c, ok := st.X.(*ast.CallExpr)
	if !ok {
		panic(e.bad(st, "statement"))
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		panic(e.bad(st, "statement"))
	}
	switch id.Name {
	case "Requires", "Ensures", "panic", "Decreases", "Trigger":
		return // handled by the lemma verifier
	case "Assert":
		t := e.expr(c.Args[0])
		if e.onAssert != nil {
			e.onAssert(Implies(And(e.pc...), t), "assertion")
			e.onAssume(Implies(And(e.pc...), t))
		}
		return
	}
	fn := e.s.fns[id.Name]
	if fn == nil || fn.Dir["lemma"] == nil {
		panic(e.bad(st, "statement call"))
	}
	if e.onAssert == nil {
		panic(e.bad(st, "lemma call outside a lemma"))
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.expr(a))
	}
	pc := And(e.pc...)
	req, ens, dec := e.s.lemmaParts(fn, args)
	for _, r := range req {
		e.onAssert(Implies(pc, r), "requires of "+fn.Name)
	}
	if sccOf(e.fn.Name, fn.Name) {
		_, _, self := e.s.lemmaParts(e.fn, nil)
		if len(self) == 0 || len(self) != len(dec) {
			panic(e.bad(st, "recursive lemma without matching decreases"))
		}
		// lexicographic order
		ok := False
		eq := True
		for i := range self {
			ok = Or(ok, And(eq, And(Le(Int(0), self[i]), Lt(dec[i], self[i]))))
			eq = And(eq, Eq(dec[i], self[i]))
		}
		e.onAssert(Implies(pc, ok), "termination of the call of "+fn.Name)
	}
	e.onAssume(Implies(pc, And(ens...)))
}

// triggers are the arguments of the Trigger clauses of a function.
func (e *senv) triggers() []*Term {
	var pat []*Term
	for _, st := range e.fn.Decl.Body.List {
		if es, ok := st.(*ast.ExprStmt); ok {
			if c, ok := es.X.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "Trigger" {
					for _, a := range c.Args {
						pat = append(pat, e.expr(a))
					}
				}
			}
		}
	}
	return pat
}

// knownLemmas makes the lemmas about a function ("@ known") available where the
// function occurs, with the pattern of their Trigger clause.
func (s *Spec) knownLemmas(fn *SpecFn) {
	for _, n := range s.order {
		l := s.fns[n]
		if l.Dir["lemma"] == nil || !contains(l.Dir["known"], fn.Name) {
			continue
		}
		req, ens, _ := s.lemmaParts(l, nil)
		e := &senv{s: s, fn: l, vars: s.lemmaVars(l, nil)}
		pat := e.triggers()
		if len(pat) == 0 {
			panic(unsupported("no trigger for " + n))
		}
		lemmaAxioms[s.symbol(fn)] = append(lemmaAxioms[s.symbol(fn)], mkQuant("forall", l.params, [][]*Term{pat}, Implies(And(req...), And(ens...))))
	}
}

// lemmaVars binds the parameters of a lemma, by default to its own symbols.
func (s *Spec) lemmaVars(fn *SpecFn, args []*Term) map[types.Object]*Term {
	s.ensureAxioms(fn)
	if args == nil {
		args = fn.params
	}
	m := map[types.Object]*Term{}
	for i := 0; i < fn.Sig.Params().Len(); i++ {
		m[fn.Sig.Params().At(i)] = args[i]
	}
	return m
}

// lemmaParts instantiates the requires, ensures and decreases clauses.
func (s *Spec) lemmaParts(fn *SpecFn, args []*Term) (req, ens, dec []*Term) {
	e := &senv{s: s, fn: fn, vars: s.lemmaVars(fn, args)}
	for _, st := range fn.Decl.Body.List {
		if es, ok := st.(*ast.ExprStmt); ok {
			if c, ok := es.X.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok {
					switch id.Name {
					case "Requires":
						req = append(req, e.expr(c.Args[0]))
					case "Ensures":
						ens = append(ens, e.expr(c.Args[0]))
					case "Decreases":
						for _, a := range c.Args {
							dec = append(dec, e.expr(a))
						}
					}
				}
			}
		}
		if as, ok := st.(*ast.AssignStmt); ok { // let bindings before the clauses
			if as.Tok == token.DEFINE && len(as.Lhs) == 1 {
				if _, isCall := as.Lhs[0].(*ast.Ident); isCall {
					e.assign(as.Lhs[0], e.expr(as.Rhs[0]))
				}
			}
		}
	}
	return
}

// scanLibs records the signatures of the library functions the
// specification uses.
func (s *Spec) scanLibs() {
	for _, o := range s.pkg.TypesInfo.Uses {
		fn, ok := o.(*types.Func)
		if !ok || fn.Pkg() == nil {
			continue
		}
		q := canonLib(fn.FullName())
		if pureLib[q] {
			libSig[q] = libSorts(fn.Type().(*types.Signature))
		}
	}
}
