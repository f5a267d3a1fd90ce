package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// symAxioms maps a function symbol to the axioms that define it.
var symAxioms = map[string][]*Term{}

// builtin operators that need no declaration.
var builtinOps = map[string]bool{"true": true, "false": true, "not": true, "and": true, "or": true, "=>": true, "ite": true,
	"=": true, "+": true, "-": true, "*": true, "<": true, "<=": true, "select": true, "store": true, "forall": true, "exists": true,
	"div": true, "mod": true, "distinct": true}

type query struct {
	decls   map[string]string // op -> declaration
	order   []string
	sorts   map[Sort]bool
	asserts []*Term
	seen    map[int]bool
	bound   map[*Term]bool
	usedLit map[*Term]bool
	seqUse  map[string]bool
}

// lemmaAxioms are the lemmas that proofs of code use; a lemma is proved
// without them.
var (
	lemmaAxioms  = map[string][]*Term{}
	provingLemma bool
)

func newQuery() *query {
	return &query{decls: map[string]string{}, sorts: map[Sort]bool{}, seen: map[int]bool{}, bound: map[*Term]bool{}, usedLit: map[*Term]bool{}, seqUse: map[string]bool{}}
}

func (q *query) sort(s Sort) {
	if q.sorts[s] {
		return
	}
	q.sorts[s] = true
	if kv, ok := arrKV[s]; ok {
		q.sort(kv[0])
		q.sort(kv[1])
		return
	}
	if e, ok := seqElem[s]; ok {
		q.sort(e)
	}
	if d := adts[s]; d != nil {
		for _, f := range d.Sorts {
			q.sort(f)
		}
	}
}

func (q *query) add(t *Term) {
	q.asserts = append(q.asserts, t)
	q.visit(t)
}

func (q *query) visit(t *Term) {
	if q.seen[t.id] {
		return
	}
	q.seen[t.id] = true
	q.sort(t.Sort)
	for _, b := range t.Bound {
		q.bound[b] = true
		q.sort(b.Sort)
		q.seen[b.id] = true
	}
	for _, p := range t.Pats {
		for _, x := range p {
			q.visit(x)
		}
	}
	for _, a := range t.Args {
		q.visit(a)
	}
	if t.lit || len(t.Args) == 0 && (t.Op[0] >= '0' && t.Op[0] <= '9' || t.Op[0] == '(') || builtinOps[t.Op] || q.bound[t] || strings.HasPrefix(t.Op, "(as const") {
		return
	}
	if _, ok := litOf[t]; ok {
		q.usedLit[t] = true
	}
	if q.isSel(t) {
		return
	}
	if i := strings.IndexByte(t.Op, '_'); i > 0 && isSeq(t.Op[i+1:]) {
		switch t.Op[:i] {
		case "empty", "unit", "len", "nth", "upd", "cat", "sub":
			q.sort(t.Op[i+1:])
			return // declared with the sort
		}
	}
	if _, ok := q.decls[t.Op]; !ok {
		var as []string
		for _, a := range t.Args {
			as = append(as, a.Sort)
		}
		q.decls[t.Op] = fmt.Sprintf("(declare-fun %s (%s) %s)", t.Op, strings.Join(as, " "), t.Sort)
		q.order = append(q.order, t.Op)
		for _, ax := range symAxioms[t.Op] {
			q.add(ax)
		}
		if !provingLemma {
			for _, ax := range lemmaAxioms[t.Op] {
				q.add(ax)
			}
		}
	}
}

func (q *query) isSel(t *Term) bool {
	if strings.HasPrefix(t.Op, "mk_") && adts[t.Sort] != nil && t.Op == "mk_"+t.Sort {
		return true
	}
	if len(t.Args) == 1 {
		if d := adts[t.Args[0].Sort]; d != nil {
			for i := range d.Fields {
				if d.sel(i) == t.Op {
					return true
				}
			}
		}
	}
	return false
}

func seqAxioms(s Sort) []*Term {
	e := seqElem[s]
	a, b := Const(s, "qa"+clean(s)), Const(s, "qb"+clean(s))
	i, j, lo, hi := Const(SInt, "qi"), Const(SInt, "qj"), Const(SInt, "qlo"), Const(SInt, "qhi")
	v := Const(e, "qv"+clean(e))
	raw := func(op string, srt Sort, args ...*Term) *Term { return mk(srt, op+"_"+s, args...) }
	ln := func(x *Term) *Term { return raw("len", SInt, x) }
	nth := func(x, i *Term) *Term { return raw("nth", e, x, i) }
	cat := raw("cat", s, a, b)
	sub := raw("sub", s, a, lo, hi)
	upd := raw("upd", s, a, i, v)
	unit := raw("unit", s, v)
	empty := seqEmpty(s)
	q := func(vars []*Term, pat *Term, body *Term) *Term {
		return mkQuant("forall", vars, [][]*Term{{pat}}, body)
	}
	inr := And(mk(SBool, "<=", Int(0), lo), mk(SBool, "<=", lo, hi), mk(SBool, "<=", hi, ln(a)))
	le := func(x, y *Term) *Term { return mk(SBool, "<=", x, y) }
	lt := func(x, y *Term) *Term { return mk(SBool, "<", x, y) }
	plus := func(x, y *Term) *Term { return mk(SInt, "+", x, y) }
	minus := func(x, y *Term) *Term { return mk(SInt, "-", x, y) }
	ax := []*Term{
		q([]*Term{a}, ln(a), And(le(Int(0), ln(a)), Or(Not(mk(SBool, "=", ln(a), Int(0))), mk(SBool, "=", a, empty)))),
		mk(SBool, "=", ln(empty), Int(0)),
		q([]*Term{v}, unit, And(mk(SBool, "=", ln(unit), Int(1)), mk(SBool, "=", nth(unit, Int(0)), v))),
		q([]*Term{a, b}, cat, mk(SBool, "=", ln(cat), plus(ln(a), ln(b)))),
		q([]*Term{a, b}, cat, Or(Not(mk(SBool, "=", a, empty)), mk(SBool, "=", cat, b))),
		q([]*Term{a, b}, cat, Or(Not(mk(SBool, "=", b, empty)), mk(SBool, "=", cat, a))),
		q([]*Term{a, b, i}, nth(cat, i), Implies(And(le(Int(0), i), lt(i, plus(ln(a), ln(b)))),
			mk(SBool, "=", nth(cat, i), mk(e, "ite", lt(i, ln(a)), nth(a, i), nth(b, minus(i, ln(a))))))),
		q([]*Term{a, lo, hi}, sub, Implies(inr, mk(SBool, "=", ln(sub), minus(hi, lo)))),
		q([]*Term{a, lo, hi}, sub, Implies(And(mk(SBool, "=", lo, Int(0)), mk(SBool, "=", hi, ln(a))), mk(SBool, "=", sub, a))),
		q([]*Term{a, lo, hi, i}, nth(sub, i), Implies(And(inr, le(Int(0), i), lt(i, minus(hi, lo))), mk(SBool, "=", nth(sub, i), nth(a, plus(i, lo))))),
		q([]*Term{a, i, v}, upd, mk(SBool, "=", ln(upd), ln(a))),
		q([]*Term{a, i, v, j}, nth(upd, j), Implies(And(le(Int(0), i), lt(i, ln(a))),
			mk(SBool, "=", nth(upd, j), mk(e, "ite", mk(SBool, "=", i, j), v, nth(a, j))))),
	}
	// an update with the element already there changes nothing
	ax = append(ax, q([]*Term{a, i, v}, upd, Implies(And(le(Int(0), i), lt(i, ln(a)), mk(SBool, "=", nth(a, i), v)), mk(SBool, "=", upd, a))))
	// a part that ends at an update
	subU := raw("sub", s, upd, lo, hi)
	ax = append(ax, q([]*Term{a, i, v, lo, hi}, subU, Implies(And(le(Int(0), lo), le(lo, i), mk(SBool, "=", hi, plus(i, Int(1))), le(hi, ln(a))),
		mk(SBool, "=", subU, raw("cat", s, raw("sub", s, a, lo, i), unit)))))
	// a part of a part
	lo2, hi2 := Const(SInt, "qlo2"), Const(SInt, "qhi2")
	sub2 := raw("sub", s, sub, lo2, hi2)
	ax = append(ax, q([]*Term{a, lo, hi, lo2, hi2}, sub2, Implies(And(inr, le(Int(0), lo2), le(lo2, hi2), le(hi2, minus(hi, lo))),
		mk(SBool, "=", sub2, raw("sub", s, a, plus(lo, lo2), plus(lo, hi2))))))
	// a part of a concatenation that lies within one side of it
	subC := raw("sub", s, cat, lo, hi)
	ax = append(ax, q([]*Term{a, b, lo, hi}, subC, And(
		Implies(And(le(Int(0), lo), le(lo, hi), le(hi, ln(a))), mk(SBool, "=", subC, sub)),
		Implies(And(le(ln(a), lo), le(lo, hi), le(hi, plus(ln(a), ln(b)))), mk(SBool, "=", subC, raw("sub", s, b, minus(lo, ln(a)), minus(hi, ln(a))))))))
	ax = append(ax, q([]*Term{a, b, lo, hi}, subC, Implies(And(le(Int(0), lo), lt(lo, ln(a)), lt(ln(a), hi), le(hi, plus(ln(a), ln(b)))),
		mk(SBool, "=", subC, raw("cat", s, raw("sub", s, a, lo, ln(a)), raw("sub", s, b, Int(0), minus(hi, ln(a))))))))
	c3 := Const(s, "qc_"+s)
	catL := raw("cat", s, cat, c3)
	ax = append(ax, q([]*Term{a, b, c3}, catL, mk(SBool, "=", catL, raw("cat", s, a, raw("cat", s, b, c3)))))
	// a part and the element after it
	catS := raw("cat", s, sub, unit)
	ax = append(ax, q([]*Term{a, lo, hi, v}, catS, Implies(And(le(Int(0), lo), le(lo, hi), lt(hi, ln(a)), mk(SBool, "=", v, nth(a, hi))),
		mk(SBool, "=", catS, raw("sub", s, a, lo, plus(hi, Int(1)))))))
	ax = append(ax, q([]*Term{a, lo, hi}, sub, Implies(mk(SBool, "=", lo, hi), mk(SBool, "=", sub, empty))))
	if s == SStr {
		ax = append(ax, mkQuant("forall", []*Term{a, i}, [][]*Term{{nth(a, i)}}, And(le(Int(0), nth(a, i)), le(nth(a, i), Int(255)))))
	}
	if d := adts[e]; d != nil && e == SNode {
		// the children of a node are smaller than the node
		h := func(c *Term) *Term { return mk(SInt, "hseq", c) }
		x := nth(a, i)
		ax = append(ax, mkQuant("forall", []*Term{a, i}, [][]*Term{{x}},
			Implies(And(le(Int(0), i), lt(i, ln(a))), And(le(Int(0), h(Field(x, "Content"))), lt(h(Field(x, "Content")), h(a))))),
			mkQuant("forall", []*Term{a}, [][]*Term{{h(a)}}, le(Int(0), h(a))))
	}
	return ax
}

func (q *query) text(timeoutMS int) string {
	// sequence axioms for all used sequence sorts, literals
	done := map[Sort]bool{}
	for changed := true; changed; {
		changed = false
		var ss []Sort
		for s := range q.sorts {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		for _, s := range ss {
			if isSeq(s) && !done[s] {
				done[s] = true
				changed = true
				for _, a := range seqAxioms(s) {
					q.add(a)
				}
			}
		}
	}
	var lits []*Term
	for l := range q.usedLit {
		lits = append(lits, l)
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].id < lits[j].id })
	for _, l := range lits {
		s := litOf[l]
		if s == "" {
			continue
		}
		q.add(mk(SBool, "=", mk(SInt, "len_Str", l), Int(int64(len(s)))))
		if len(s) <= 64 {
			for i := 0; i < len(s); i++ {
				q.add(mk(SBool, "=", mk(SInt, "nth_Str", l, Int(int64(i))), Int(int64(s[i]))))
			}
		}
	}
	if len(lits) > 1 {
		var nz []*Term
		for _, l := range lits {
			nz = append(nz, l)
		}
		q.add(mk(SBool, "distinct", nz...))
	}
	var dc []*Term
	bySort := map[Sort][]*Term{}
	for c := range distinctConst {
		if q.seen[c.id] {
			dc = append(dc, c)
		}
	}
	sort.Slice(dc, func(i, j int) bool { return dc[i].id < dc[j].id })
	for _, c := range dc {
		bySort[c.Sort] = append(bySort[c.Sort], c)
	}
	for _, s := range sortedKeys(bySort) {
		if len(bySort[s]) > 1 {
			q.add(mk(SBool, "distinct", bySort[s]...))
		}
	}
	for _, a := range bySort[SErr] {
		for _, b := range bySort[SErr] {
			// error variables wrap nothing
			if is := mk(SBool, "errIs", a, b); a != NilErr && b != NilErr {
				if a != b {
					is = Not(is)
				}
				q.add(is)
			}
		}
	}
	var b bytes.Buffer
	b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeoutMS)
	q.body(&b)
	b.WriteString("(check-sat)\n")
	return b.String()
}

func (q *query) body(b *bytes.Buffer) {
	var ss []Sort
	for s := range q.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		if s == SBool || s == SInt || strings.HasPrefix(s, "(Array") || adts[s] != nil {
			continue
		}
		fmt.Fprintf(b, "(declare-sort %s 0)\n", s)
	}
	emitted := map[Sort]bool{}
	var emit func(s Sort)
	emit = func(s Sort) {
		if emitted[s] {
			return
		}
		emitted[s] = true
		if kv, ok := arrKV[s]; ok {
			emit(kv[0])
			emit(kv[1])
			return
		}
		d := adts[s]
		if d == nil {
			return
		}
		for _, f := range d.Sorts {
			emit(f)
		}
		fmt.Fprintf(b, "(declare-datatypes ((%s 0)) (((mk_%s", s, s)
		for i := range d.Fields {
			fmt.Fprintf(b, " (%s %s)", d.sel(i), d.Sorts[i])
		}
		b.WriteString("))))\n")
	}
	for _, s := range ss {
		emit(s)
	}
	for _, s := range ss {
		if e, ok := seqElem[s]; ok {
			fmt.Fprintf(b, "(declare-fun empty_%s () %s)\n(declare-fun unit_%s (%s) %s)\n(declare-fun len_%s (%s) Int)\n(declare-fun nth_%s (%s Int) %s)\n(declare-fun upd_%s (%s Int %s) %s)\n(declare-fun cat_%s (%s %s) %s)\n(declare-fun sub_%s (%s Int Int) %s)\n",
				s, s, s, e, s, s, s, s, s, e, s, s, e, s, s, s, s, s, s, s, s)
		}
	}
	for _, o := range q.order {
		b.WriteString(q.decls[o] + "\n")
	}
	// shared subterms become definitions
	refs := map[*Term]int{}
	closed := map[*Term]bool{}
	var count func(t *Term) bool // returns closed
	count = func(t *Term) bool {
		refs[t]++
		if refs[t] > 1 {
			return closed[t]
		}
		c := !q.bound[t]
		for _, a := range t.Args {
			if !count(a) {
				c = false
			}
		}
		if t.Bound != nil {
			c = true // self-contained
			for _, p := range t.Pats {
				for _, x := range p {
					count(x)
				}
			}
		}
		closed[t] = c
		return c
	}
	for _, a := range q.asserts {
		count(a)
	}
	name := map[*Term]string{}
	var pr func(t *Term, w *strings.Builder)
	pr = func(t *Term, w *strings.Builder) {
		if n, ok := name[t]; ok {
			w.WriteString(n)
			return
		}
		if len(t.Args) == 0 {
			w.WriteString(t.Op)
			return
		}
		if t.Bound != nil {
			w.WriteString("(" + t.Op + " (")
			for _, v := range t.Bound {
				w.WriteString("(" + v.Op + " " + v.Sort + ")")
			}
			w.WriteString(") ")
			if len(t.Pats) > 0 {
				w.WriteString("(! ")
			}
			pr(t.Args[0], w)
			for _, p := range t.Pats {
				w.WriteString(" :pattern (")
				for _, x := range p {
					pr(x, w)
					w.WriteByte(' ')
				}
				w.WriteString(")")
			}
			if len(t.Pats) > 0 {
				w.WriteString(")")
			}
			w.WriteString(")")
			return
		}
		w.WriteString("(" + t.Op)
		for _, a := range t.Args {
			w.WriteByte(' ')
			pr(a, w)
		}
		w.WriteByte(')')
	}
	var define func(t *Term)
	defSeen := map[*Term]bool{}
	nDef := 0
	define = func(t *Term) {
		if defSeen[t] {
			return
		}
		defSeen[t] = true
		for _, a := range t.Args {
			define(a)
		}
		if refs[t] > 1 && closed[t] && len(t.Args) > 0 && t.Bound == nil && !q.hasBound(t) {
			var w strings.Builder
			pr(t, &w)
			nDef++
			n := fmt.Sprintf("$%d", nDef)
			fmt.Fprintf(b, "(define-fun %s () %s %s)\n", n, t.Sort, w.String())
			name[t] = n
		}
	}
	for _, a := range q.asserts {
		define(a)
		var w strings.Builder
		pr(a, &w)
		fmt.Fprintf(b, "(assert %s)\n", w.String())
	}
}

var hasBoundMemo = map[*Term]int8{}
var hbMu sync.Mutex

// hasBound tells whether t mentions a quantified variable.
func (q *query) hasBound(t *Term) bool {
	if q.bound[t] {
		return true
	}
	if m := hasBoundMemo[t]; m != 0 && len(t.Args) > 0 {
		return m == 2
	}
	r := false
	for _, a := range t.Args {
		if q.hasBound(a) {
			r = true
		}
	}
	if len(t.Args) > 0 {
		if r {
			hasBoundMemo[t] = 2
		} else {
			hasBoundMemo[t] = 1
		}
	}
	return r
}

// ---- running solvers ----

type solverStats struct {
	mu      sync.Mutex
	calls   int
	secs    float64
	byProof map[string]int
}

var stats = solverStats{byProof: map[string]int{}}

var queryCache = map[[32]byte]string{}
var cacheMu sync.Mutex

// deadline ends the proof search of a check, if it is set.
var deadline time.Time

const noTime = "unknown: no time left"

func pastDeadline() bool { return !deadline.IsZero() && time.Now().After(deadline) }

// patience stretches the time limits of the solvers: a unit that fails is
// tried once more with a patience of 3, in case the machine is slow.
var patience = 1

var limitRE = regexp.MustCompile(`(set-option :timeout |--tlimit=)([0-9]+)`)

func stretch(s string) string {
	return limitRE.ReplaceAllStringFunc(s, func(m string) string {
		p := limitRE.FindStringSubmatch(m)
		n, _ := strconv.Atoi(p[2])
		return p[1] + strconv.Itoa(n*patience)
	})
}

func runSolver(bin string, args []string, text string, timeout time.Duration) string {
	if patience > 1 {
		text = stretch(text)
		timeout *= time.Duration(patience)
		args = append([]string(nil), args...)
		for i := range args {
			args[i] = stretch(args[i])
		}
	}
	key := sha256.Sum256([]byte(bin + text))
	cacheMu.Lock()
	if r, ok := queryCache[key]; ok {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	if pastDeadline() {
		return noTime
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	start := time.Now()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(text)
	out, err := cmd.CombinedOutput()
	stats.mu.Lock()
	stats.calls++
	stats.secs += time.Since(start).Seconds()
	stats.mu.Unlock()
	if d := time.Since(start); dumpDir != "" && d > 1500*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/slow-%x-%s-%.1f.smt2", dumpDir, key[:3], bin, d.Seconds()), []byte(text), 0o644)
	}
	s := strings.TrimSpace(string(out))
	r := "unknown"
	line, _, _ := strings.Cut(s, "\n")
	switch {
	case line == "unsat" || line == "sat" || line == "unknown" || line == "timeout":
		r = line
	case ctx.Err() != nil:
		r = "timeout"
	default:
		r = "error: " + s
		if err != nil && s == "" {
			r = "error: " + err.Error()
		}
		if debug > 0 {
			fmt.Println("SOLVER", bin, r)
			os.WriteFile("/tmp/bad.smt2", []byte(text), 0o644)
		}
	}
	cacheMu.Lock()
	queryCache[key] = r
	cacheMu.Unlock()
	return r
}

// extensionality adds, for the equalities of sequences in a goal, the ground
// instances of the extensionality axiom.
func extensionality(q *query, goal *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	done := map[[2]*Term]bool{}
	var pair func(a, b *Term, depth int)
	pair = func(a, b *Term, depth int) {
		if a == b || done[[2]*Term{a, b}] || q.hasBound(a) || q.hasBound(b) {
			return
		}
		done[[2]*Term{a, b}] = true
		if isSeq(a.Sort) {
			k := mk(SInt, fmt.Sprintf("ext!%d!%d", a.id, b.id))
			na, nb := SeqNth(a, k), SeqNth(b, k)
			out = append(out, Or(Eq(a, b), Not(Eq(SeqLen(a), SeqLen(b))), And(Le(Int(0), k), Lt(k, SeqLen(a)), Not(Eq(na, nb)))))
			if depth > 0 {
				pair(na, nb, depth-1)
			}
			return
		}
		if d := adts[a.Sort]; d != nil {
			for i, s := range d.Sorts {
				if isSeq(s) || adts[s] != nil {
					pair(fieldAt(a, d, i), fieldAt(b, d, i), depth)
				}
			}
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || t.Bound != nil {
			return
		}
		seen[t] = true
		if t.Op == "=" {
			pair(t.Args[0], t.Args[1], 1)
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(goal)
	return out
}

var smtMu sync.Mutex // guards term construction

// buildQuery renders the query "pc and not goal"; must run under smtMu.
func buildQuery(pc []*Term, goal *Term, timeoutMS int, ext bool) string {
	q := newQuery()
	for _, t := range pc {
		q.add(t)
	}
	q.add(Not(goal))
	if ext {
		for _, t := range extensionality(q, goal) {
			q.add(t)
		}
	}
	return q.text(timeoutMS)
}

// valid is the quick check used during search.
func valid(pc []*Term, goal *Term, timeoutMS int) bool {
	if goal == True {
		return true
	}
	for _, p := range pc {
		if p == goal {
			return true
		}
		if p == False {
			return true
		}
	}
	t := buildQuery(pc, goal, timeoutMS, true)
	return runSolver("z3-new", []string{"-in"}, t, time.Duration(timeoutMS)*time.Millisecond) == "unsat"
}

// portfolio decides an obligation with all back ends; it returns the name of
// the one that proved it, or "".
func portfolio(text string, timeoutMS int) (string, string) {
	to := time.Duration(timeoutMS) * time.Millisecond
	if timeoutMS > 4000 {
		short := setTimeout(text, timeoutMS, 3000)
		for _, t := range []string{short, oldArith(short), withoutSplit(short), oldArith(withoutSplit(short))} {
			r := runSolver("z3-new", []string{"-in"}, t, 3*time.Second)
			if r == "unsat" {
				return "z3 5.3.2", r
			}
			if strings.HasPrefix(r, "error") || r == noTime {
				return "", r
			}
		}
	}
	r := runSolver("z3-new", []string{"-in"}, text, to)
	if r == "unsat" {
		return "z3 5.3.2", r
	}
	if strings.HasPrefix(r, "error") || r == noTime {
		return "", r
	}
	for _, alt := range []string{withoutSplit(text), oldArith(text)} {
		if r2 := runSolver("z3-new", []string{"-in"}, alt, to); r2 == "unsat" {
			return "z3 5.3.2", r2
		}
	}
	if r2 := runSolver("z3", []string{"-in"}, text, to); r2 == "unsat" {
		return "z3 4.8.12", r2
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, l := range strings.SplitAfter(text, "\n") {
		if !strings.HasPrefix(l, "(set-option") {
			b.WriteString(l)
		}
	}
	if r2 := runSolver("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMS)}, b.String(), to); r2 == "unsat" {
		return "cvc5 1.1.2", r2
	}
	return "", r
}

func withoutSplit(text string) string {
	return strings.Replace(text, "(set-option :smt.case_split 3)\n", "", 1)
}

func oldArith(text string) string { return "(set-option :smt.arith.solver 2)\n" + text }

func setTimeout(text string, from, to int) string {
	return strings.Replace(text, fmt.Sprintf("(set-option :timeout %d)", from), fmt.Sprintf("(set-option :timeout %d)", to), 1)
}

type job struct {
	pc   []*Term
	goal *Term
	hint bool // worth more effort
}

// validAll decides many quick checks in parallel.
func validAll(jobs []job, timeoutMS int) []bool {
	out := make([]bool, len(jobs))
	texts := make([]string, len(jobs))
	for i, j := range jobs {
		if j.goal == True {
			out[i] = true
			continue
		}
		if j.goal == False && len(j.pc) == 0 {
			continue
		}
		for _, p := range j.pc {
			if p == j.goal || p == False {
				out[i] = true
			}
		}
		if !out[i] {
			texts[i] = buildQuery(j.pc, j.goal, timeoutMS, true)
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range jobs {
		if texts[i] == "" {
			continue
		}
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			r := runSolver("z3-new", []string{"-in"}, texts[i], time.Duration(timeoutMS)*time.Millisecond)
			if r != "unsat" && jobs[i].hint {
				for _, t := range []string{withoutSplit(texts[i]), oldArith(texts[i])} {
					if r != "unsat" {
						r = runSolver("z3-new", []string{"-in"}, t, time.Duration(timeoutMS)*time.Millisecond)
					}
				}
			}
			out[i] = r == "unsat"
			<-sem
		}(i)
	}
	wg.Wait()
	return out
}
