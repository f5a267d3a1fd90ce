package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is the name of an SMT sort.
type Sort = string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "Str"
	SErr   Sort = "Err"
	SIface Sort = "Iface"
	SNode  Sort = "Node"
	SWorld Sort = "World"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op    string
	Args  []*Term
	Sort  Sort
	Bound []*Term // quantified variables
	Pats  [][]*Term
	id    int
	lit   bool // integer literal
	n     int64
}

var (
	termTab = map[string]*Term{}
	termSeq int
	fresh   int
)

// mk builds a term without simplification.
func mk(s Sort, op string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t := termTab[k]; t != nil {
		return t
	}
	termSeq++
	t := &Term{Op: op, Args: args, Sort: s, id: termSeq}
	termTab[k] = t
	return t
}

func mkQuant(q string, bound []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	k := q + "|"
	for _, b := range bound {
		k += strconv.Itoa(b.id) + ","
	}
	k += "|"
	for _, p := range pats {
		for _, x := range p {
			k += strconv.Itoa(x.id) + ","
		}
		k += ";"
	}
	k += "|" + strconv.Itoa(body.id)
	if t := termTab[k]; t != nil {
		return t
	}
	termSeq++
	t := &Term{Op: q, Args: []*Term{body}, Sort: SBool, Bound: bound, Pats: pats, id: termSeq}
	termTab[k] = t
	return t
}

var (
	True  = mk(SBool, "true")
	False = mk(SBool, "false")
)

func Int(n int64) *Term {
	op := strconv.FormatInt(n, 10)
	if n < 0 {
		op = "(- " + strings.TrimPrefix(op, "-") + ")"
	}
	t := mk(SInt, op)
	t.lit = true
	t.n = n
	return t
}

func Const(s Sort, name string) *Term { return mk(s, name) }

func Fresh(s Sort, name string) *Term {
	fresh++
	return mk(s, fmt.Sprintf("%s!%d", clean(name), fresh))
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			return r
		}
		return '_'
	}, s)
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mk(SBool, "not", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == False {
			return False
		}
		if a == True {
			continue
		}
		xs := []*Term{a}
		if a.Op == "and" {
			xs = a.Args
		}
		for _, x := range xs {
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x)
			}
		}
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].id] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk(SBool, "and", out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		if a == False {
			continue
		}
		xs := []*Term{a}
		if a.Op == "or" {
			xs = a.Args
		}
		for _, x := range xs {
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x)
			}
		}
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].id] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk(SBool, "or", out...)
}

func Implies(a, b *Term) *Term {
	switch {
	case a == True:
		return b
	case a == False || b == True || a == b:
		return True
	case b == False:
		return Not(a)
	}
	return mk(SBool, "=>", a, b)
}

func Ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if a.Sort != b.Sort {
		panic(unsupported("ite sorts " + a.Sort + " / " + b.Sort))
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk(a.Sort, "ite", c, a, b)
}

func isStrLit(t *Term) bool { _, ok := litOf[t]; return ok }

var litOf = map[*Term]string{}
var litTerm = map[string]*Term{}

// StrLit is the term of a string literal.
func StrLit(s string) *Term {
	if t := litTerm[s]; t != nil {
		return t
	}
	if s == "" {
		t := seqEmpty(SStr)
		litTerm[s] = t
		litOf[t] = s
		return t
	}
	t := mk(SStr, fmt.Sprintf("lit!%d!%s", len(litTerm), clean(s)))
	litTerm[s] = t
	litOf[t] = s
	return t
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(unsupported(fmt.Sprintf("= sorts %s / %s (%s, %s)", a.Sort, b.Sort, a, b)))
	}
	if a.lit && b.lit {
		return False
	}
	if isStrLit(a) && isStrLit(b) {
		return False
	}
	if a.Sort == SBool {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if distinctConst[a] && distinctConst[b] {
		return False
	}
	if a.Op == "ite" && (b.lit || isStrLit(b) || distinctConst[b]) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (a.lit || isStrLit(a) || distinctConst[a]) {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(SBool, "=", a, b)
}

// distinctConst holds constants known to be pairwise distinct.
var distinctConst = map[*Term]bool{}

func Add(a, b *Term) *Term {
	if a.lit && b.lit {
		return Int(a.n + b.n)
	}
	if a.lit {
		a, b = b, a
	}
	if b.lit && b.n == 0 {
		return a
	}
	if a.Op == "+" && a.Args[1].lit {
		if b.lit {
			return Add(a.Args[0], Int(a.Args[1].n+b.n))
		}
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && len(b.Args) == 2 && b.Args[1].lit {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "-" && len(a.Args) == 2 && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Op == "-" && len(b.Args) == 2 && b.Args[1] == a {
		return b.Args[0]
	}
	return mk(SInt, "+", a, b)
}

func Sub(a, b *Term) *Term {
	if b.lit {
		return Add(a, Int(-b.n))
	}
	if a == b {
		return Int(0)
	}
	if b.Op == "+" && len(b.Args) == 2 && b.Args[1].lit {
		return Add(Sub(a, b.Args[0]), Int(-b.Args[1].n))
	}
	if a.Op == "+" && len(a.Args) == 2 {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
		if a.Args[1].lit {
			return Add(Sub(a.Args[0], b), a.Args[1])
		}
	}
	return mk(SInt, "-", a, b)
}

func Mul(a, b *Term) *Term {
	if a.lit && b.lit {
		return Int(a.n * b.n)
	}
	return mk(SInt, "*", a, b)
}

// Lt and Le are over mathematical integers.
func Lt(a, b *Term) *Term {
	if a.lit && b.lit {
		return boolTerm(a.n < b.n)
	}
	if a == b {
		return False
	}
	if d := Sub(b, a); d.lit {
		return boolTerm(d.n > 0)
	}
	return mk(SBool, "<", a, b)
}

func Le(a, b *Term) *Term {
	if a.lit && b.lit {
		return boolTerm(a.n <= b.n)
	}
	if a == b {
		return True
	}
	if d := Sub(b, a); d.lit {
		return boolTerm(d.n >= 0)
	}
	return mk(SBool, "<=", a, b)
}

func boolTerm(b bool) *Term {
	if b {
		return True
	}
	return False
}

// ---- datatypes (structs) ----

// ADT describes a struct sort.
type ADT struct {
	Name   Sort
	Fields []string // selector suffixes
	Sorts  []Sort
}

var adts = map[Sort]*ADT{}

func (d *ADT) sel(i int) string { return d.Name + "_" + d.Fields[i] }

func (d *ADT) idx(f string) int {
	for i, n := range d.Fields {
		if n == f {
			return i
		}
	}
	return -1
}

func Field(x *Term, f string) *Term {
	d := adts[x.Sort]
	if d == nil {
		panic(unsupported("field " + f + " of sort " + x.Sort))
	}
	i := d.idx(f)
	if i < 0 {
		panic(unsupported("no field " + f + " in " + x.Sort))
	}
	return fieldAt(x, d, i)
}

func fieldAt(x *Term, d *ADT, i int) *Term {
	if x.Op == "mk_"+d.Name {
		return x.Args[i]
	}
	if x.Op == "ite" && (x.Args[1].Op == "mk_"+d.Name || x.Args[2].Op == "mk_"+d.Name) {
		return Ite(x.Args[0], fieldAt(x.Args[1], d, i), fieldAt(x.Args[2], d, i))
	}
	return mk(d.Sorts[i], d.sel(i), x)
}

func Make(s Sort, args ...*Term) *Term {
	d := adts[s]
	// eta
	var src *Term
	ok := true
	for i, a := range args {
		if a.Sort != d.Sorts[i] {
			panic(unsupported(fmt.Sprintf("field %s.%s has sort %s, got %s", s, d.Fields[i], d.Sorts[i], a.Sort)))
		}
		if a.Op == d.sel(i) && len(a.Args) == 1 && (src == nil || src == a.Args[0]) {
			src = a.Args[0]
		} else {
			ok = false
		}
	}
	if ok && src != nil {
		return src
	}
	return mk(s, "mk_"+s, args...)
}

func WithField(x *Term, f string, v *Term) *Term {
	d := adts[x.Sort]
	if d == nil {
		panic(unsupported("field update of sort " + x.Sort))
	}
	i := d.idx(f)
	if i < 0 {
		panic(unsupported("no field " + f + " in " + x.Sort))
	}
	args := make([]*Term, len(d.Fields))
	for j := range args {
		args[j] = fieldAt(x, d, j)
	}
	args[i] = v
	return Make(x.Sort, args...)
}

// ---- sequences ----

func SeqSort(elem Sort) Sort {
	s := "Seq_" + elem
	if _, ok := seqElem[s]; !ok {
		seqElem[s] = elem
	}
	return s
}

var seqElem = map[Sort]Sort{SStr: SInt}

func isSeq(s Sort) bool { _, ok := seqElem[s]; return ok }

func seqEmpty(s Sort) *Term { return mk(s, "empty_"+s) }

func SeqLen(a *Term) *Term {
	if !isSeq(a.Sort) {
		panic(unsupported("len of sort " + a.Sort))
	}
	if l, ok := litOf[a]; ok {
		return Int(int64(len(l)))
	}
	switch a.Op {
	case "empty_" + a.Sort:
		return Int(0)
	case "unit_" + a.Sort:
		return Int(1)
	case "upd_" + a.Sort:
		return SeqLen(a.Args[0])
	case "cat_" + a.Sort:
		return Add(SeqLen(a.Args[0]), SeqLen(a.Args[1]))
	case "ite":
		x, y := SeqLen(a.Args[1]), SeqLen(a.Args[2])
		if x == y {
			return x
		}
	}
	return mk(SInt, "len_"+a.Sort, a)
}

func SeqNth(a, i *Term) *Term {
	if !isSeq(a.Sort) {
		panic(unsupported("index of sort " + a.Sort))
	}
	if l, ok := litOf[a]; ok && i.lit && i.n >= 0 && i.n < int64(len(l)) {
		return Int(int64(l[i.n]))
	}
	switch a.Op {
	case "unit_" + a.Sort:
		if i.lit && i.n == 0 {
			return a.Args[0]
		}
	case "upd_" + a.Sort:
		if a.Args[1] == i && nthInRange {
			return a.Args[2] // in range by the obligations on accesses
		}
		if d := Sub(a.Args[1], i); d.lit && d.n != 0 {
			return SeqNth(a.Args[0], i)
		}
	case "cat_" + a.Sort:
		if l := SeqLen(a.Args[0]); l.lit && i.lit {
			if i.n < l.n {
				return SeqNth(a.Args[0], i)
			}
			return SeqNth(a.Args[1], Int(i.n-l.n))
		}
	}
	return mk(seqElem[a.Sort], "nth_"+a.Sort, a, i)
}

// nthInRange is set while the executor builds accesses whose index has an
// in-range obligation; reading back an update is only simplified then.
var nthInRange bool

func SeqNthR(a, i *Term) *Term {
	nthInRange = true
	defer func() { nthInRange = false }()
	return SeqNth(a, i)
}

func SeqUpd(a, i, v *Term) *Term {
	if v.Op == "nth_"+a.Sort && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Op == "upd_"+a.Sort && a.Args[1] == i {
		return SeqUpd(a.Args[0], i, v)
	}
	if a.Op == "unit_"+a.Sort && i.lit && i.n == 0 {
		return SeqUnit(a.Sort, v)
	}
	if v.Sort != seqElem[a.Sort] {
		panic(unsupported("upd sort " + v.Sort + " in " + a.Sort))
	}
	return mk(a.Sort, "upd_"+a.Sort, a, i, v)
}

func SeqUnit(s Sort, v *Term) *Term {
	if v.Sort != seqElem[s] {
		panic(unsupported("unit sort " + v.Sort + " in " + s))
	}
	return mk(s, "unit_"+s, v)
}

func SeqCat(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(unsupported("concat sorts " + a.Sort + " / " + b.Sort))
	}
	if a.Op == "empty_"+a.Sort {
		return b
	}
	if b.Op == "empty_"+a.Sort {
		return a
	}
	if x, ok := litOf[a]; ok {
		if y, ok := litOf[b]; ok {
			return StrLit(x + y)
		}
	}
	if a.Op == "cat_"+a.Sort { // right-associate
		return SeqCat(a.Args[0], SeqCat(a.Args[1], b))
	}
	return mk(a.Sort, "cat_"+a.Sort, a, b)
}

func SeqSub(a, lo, hi *Term) *Term {
	if lo.lit && lo.n == 0 && hi == SeqLen(a) {
		return a
	}
	if lo == hi {
		return seqEmpty(a.Sort)
	}
	if l, ok := litOf[a]; ok && lo.lit && hi.lit && lo.n >= 0 && lo.n <= hi.n && hi.n <= int64(len(l)) {
		return StrLit(l[lo.n:hi.n])
	}
	if a.Op == "unit_"+a.Sort && lo.lit && hi.lit && lo.n == 0 && hi.n == 1 {
		return a
	}
	if a.Op == "cat_"+a.Sort {
		if l := SeqLen(a.Args[0]); l.lit && lo.lit && hi.lit {
			switch {
			case hi.n <= l.n:
				return SeqSub(a.Args[0], lo, hi)
			case lo.n >= l.n:
				return SeqSub(a.Args[1], Int(lo.n-l.n), Int(hi.n-l.n))
			default:
				return SeqCat(SeqSub(a.Args[0], lo, l), SeqSub(a.Args[1], Int(0), Int(hi.n-l.n)))
			}
		}
	}
	return mk(a.Sort, "sub_"+a.Sort, a, lo, hi)
}

// ---- arrays ----

func ArrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

var arrKV = map[Sort][2]Sort{}

func mkArrSort(k, v Sort) Sort {
	s := ArrSort(k, v)
	arrKV[s] = [2]Sort{k, v}
	return s
}

func Select(a, i *Term) *Term {
	kv := arrKV[a.Sort]
	for {
		if a.Op == "store" {
			e := Eq(a.Args[1], i)
			if e == True {
				return a.Args[2]
			}
			if e == False {
				a = a.Args[0]
				continue
			}
		}
		if strings.HasPrefix(a.Op, "(as const") {
			return a.Args[0]
		}
		break
	}
	return mk(kv[1], "select", a, i)
}

func Store(a, i, v *Term) *Term {
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	return mk(a.Sort, "store", a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk(s, "(as const "+s+")", v) }

// ---- substitution and printing ----

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = f(a)
			same = same && args[i] == a
		}
		var r *Term
		switch {
		case same:
			r = t
		case t.Bound != nil:
			var ps [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, f(x))
				}
				ps = append(ps, q)
			}
			r = mkQuant(t.Op, t.Bound, ps, args[0])
		default:
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// rebuild applies the smart constructors again.
func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a[0], a[1])
	case "-":
		if len(a) == 2 {
			return Sub(a[0], a[1])
		}
	case "*":
		return Mul(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "confOf":
		return confOf(a[0])
	}
	if strings.HasPrefix(t.Op, "mk_") && adts[t.Sort] != nil {
		return Make(t.Sort, a...)
	}
	if i := strings.IndexByte(t.Op, '_'); i > 0 && len(a) > 0 {
		s := t.Op[i+1:]
		if isSeq(s) {
			switch t.Op[:i] {
			case "len":
				return SeqLen(a[0])
			case "nth":
				return SeqNth(a[0], a[1])
			case "upd":
				return SeqUpd(a[0], a[1], a[2])
			case "cat":
				return SeqCat(a[0], a[1])
			case "sub":
				return SeqSub(a[0], a[1], a[2])
			}
		}
	}
	if len(a) == 1 {
		if d := adts[a[0].Sort]; d != nil {
			for i := range d.Fields {
				if d.sel(i) == t.Op {
					return fieldAt(a[0], d, i)
				}
			}
		}
	}
	return mk(t.Sort, t.Op, a...)
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 0)
	return b.String()
}

func (t *Term) write(b *strings.Builder, depth int) {
	if l, ok := litOf[t]; ok {
		fmt.Fprintf(b, "%q", l)
		return
	}
	if depth > 14 {
		b.WriteString("...")
		return
	}
	if len(t.Args) == 0 {
		b.WriteString(t.Op)
		return
	}
	b.WriteByte('(')
	b.WriteString(t.Op)
	for _, v := range t.Bound {
		b.WriteString(" " + v.Op)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		a.write(b, depth+1)
	}
	b.WriteByte(')')
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }
