package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sorts are SMT sort names. Sequences of E have the sort "Q_E".
type Sort = string

// A Term is a hash-consed SMT term.
type Term struct {
	Op    string // operator or function symbol; "#int", "#str", "#var", "#bv" (bound variable), "forall", "exists"
	Args  []*Term
	Sort  Sort
	ID    int
	Int   *big.Int // for #int
	Name  string   // for #var, #bv, #str (the literal)
	Bound []*Term  // for quantifiers
	Pats  [][]*Term
	open  bool // contains a bound variable
}

type termTable struct {
	mu    sync.Mutex
	terms map[string]*Term
	next  int
	fresh map[string]int
}

var tt = &termTable{terms: map[string]*Term{}, fresh: map[string]int{}}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	if t.Int != nil {
		sb.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, a := range t.Bound {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, p := range t.Pats {
		sb.WriteByte('!')
		for _, a := range p {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.ID))
		}
	}
	key := sb.String()
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if x, ok := tt.terms[key]; ok {
		return x
	}
	t.ID = tt.next
	tt.next++
	if t.Op == "#bv" {
		t.open = true
	} else {
		for _, a := range t.Args {
			if a.open {
				t.open = true
			}
		}
		// quantifier bodies are treated as closed by their binder only if all
		// their bound variables are their own; nested quantifiers are rare, so
		// stay conservative
	}
	tt.terms[key] = t
	return t
}

func freshName(prefix string) string {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	tt.fresh[prefix]++
	return fmt.Sprintf("%s!%d", prefix, tt.fresh[prefix])
}

func mkVar(name string, s Sort) *Term   { return intern(&Term{Op: "#var", Name: name, Sort: s}) }
func mkBV(name string, s Sort) *Term    { return intern(&Term{Op: "#bv", Name: name, Sort: s}) }
func fresh(prefix string, s Sort) *Term { return mkVar(freshName(prefix), s) }
func mkBig(v *big.Int) *Term            { return intern(&Term{Op: "#int", Int: v, Sort: "Int"}) }
func mkInt(v int64) *Term               { return mkBig(big.NewInt(v)) }
func mkStr(s string) *Term              { return intern(&Term{Op: "#str", Name: s, Sort: "Str"}) }

var tTrue = intern(&Term{Op: "true", Sort: "Bool"})
var tFalse = intern(&Term{Op: "false", Sort: "Bool"})

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// Datatypes known to the simplifier

type ctorInfo struct {
	name   string
	sort   Sort
	fields []string
	sorts  []Sort
	index  int
}
type selInfo struct {
	ctor  *ctorInfo
	index int
}

type funInfo struct {
	name string
	args []Sort
	ret  Sort
}

type recDef struct {
	name   string
	params []*Term
	body   *Term
	opaque bool
}

// classCase is a definition of a spec function for one constructor of its
// first argument
type classCase struct {
	fun    string
	ctor   string
	fields map[string]*Term // field name -> placeholder
	params []*Term
	body   *Term
}

type theory struct {
	sorts     []string
	dtypes    []string // in order
	dtCtors   map[string][]*ctorInfo
	ctors     map[string]*ctorInfo
	sels      map[string]selInfo
	funs      map[string]*funInfo
	funOrder  []string
	defs      map[string]*recDef   // non recursive macros
	about     map[string]*aboutFun // terms which are defined where a function is applied
	recs      map[string]*recDef
	cases     map[string]map[string]*classCase
	mkCtors   map[string]*classInfo // mk_X -> class
	axioms    []*namedAxiom
	lemmas    []*lemma
	seqs      map[Sort]bool
	sortKnown map[string]bool
}

type namedAxiom struct {
	name  string
	scope *scope
	t     *Term
	// axioms with one of these symbols absent from the query are not sent
	lemma bool
}

var th = &theory{
	dtCtors: map[string][]*ctorInfo{}, ctors: map[string]*ctorInfo{}, sels: map[string]selInfo{},
	funs: map[string]*funInfo{}, defs: map[string]*recDef{}, recs: map[string]*recDef{}, about: map[string]*aboutFun{},
	cases: map[string]map[string]*classCase{}, mkCtors: map[string]*classInfo{}, seqs: map[Sort]bool{}, sortKnown: map[string]bool{"Int": true, "Bool": true},
}

func declSort(s string) {
	if th.sortKnown[s] {
		return
	}
	th.sortKnown[s] = true
	th.sorts = append(th.sorts, s)
}

func declFun(name string, args []Sort, ret Sort) {
	if f, ok := th.funs[name]; ok {
		if f.ret != ret || len(f.args) != len(args) {
			panic(fmt.Sprintf("function %s redeclared with another type: %v %s vs %v %s", name, f.args, f.ret, args, ret))
		}
		return
	}
	th.funs[name] = &funInfo{name, args, ret}
	th.funOrder = append(th.funOrder, name)
}

func seqOf(e Sort) Sort {
	q := "Q_" + e
	if !th.seqs[q] {
		th.seqs[q] = true
		declSort(q)
		declFun("qlen_"+e, []Sort{q}, "Int")
		declFun("qat_"+e, []Sort{q, "Int"}, e)
		declFun("qempty_"+e, nil, q)
		declFun("qsnoc_"+e, []Sort{q, e}, q)
		declFun("qsub_"+e, []Sort{q, "Int", "Int"}, q)
		declFun("qcat_"+e, []Sort{q, q}, q)
		declFun("qupd_"+e, []Sort{q, "Int", e}, q)
		declFun("qdiff_"+e, []Sort{q, q}, "Int")
	}
	return q
}

func elemSort(q Sort) Sort { return strings.TrimPrefix(q, "Q_") }
func isSeq(s Sort) bool    { return strings.HasPrefix(s, "Q_") }

func seqAxioms() string {
	var sb strings.Builder
	var names []string
	for q := range th.seqs {
		names = append(names, q)
	}
	sort.Strings(names)
	for _, q := range names {
		e := elemSort(q)
		r := strings.NewReplacer("$Q", q, "$E", e)
		sb.WriteString(r.Replace(`
(assert (= (qlen_$E qempty_$E) 0))
(assert (forall ((s $Q)) (! (>= (qlen_$E s) 0) :pattern ((qlen_$E s)))))
(assert (forall ((s $Q)) (! (=> (= (qlen_$E s) 0) (= s qempty_$E)) :pattern ((qlen_$E s)))))
(assert (forall ((s $Q) (x $E)) (! (= (qlen_$E (qsnoc_$E s x)) (+ (qlen_$E s) 1)) :pattern ((qsnoc_$E s x)))))
(assert (forall ((s $Q) (x $E)) (! (= (qat_$E (qsnoc_$E s x) (qlen_$E s)) x) :pattern ((qsnoc_$E s x)))))
(assert (forall ((s $Q) (x $E) (i Int)) (! (=> (and (<= 0 i) (< i (qlen_$E s))) (= (qat_$E (qsnoc_$E s x) i) (qat_$E s i))) :pattern ((qat_$E (qsnoc_$E s x) i)) :pattern ((qat_$E s i) (qsnoc_$E s x)))))
(assert (forall ((s $Q) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (qlen_$E s))) (= (qlen_$E (qsub_$E s a b)) (- b a))) :pattern ((qsub_$E s a b)))))
(assert (forall ((s $Q) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (qlen_$E s)) (<= 0 i) (< i (- b a))) (= (qat_$E (qsub_$E s a b) i) (qat_$E s (+ a i)))) :pattern ((qat_$E (qsub_$E s a b) i)))))
(assert (forall ((s $Q) (a Int) (b Int)) (! (=> (and (= a 0) (= b (qlen_$E s))) (= (qsub_$E s a b) s)) :pattern ((qsub_$E s a b)))))
(assert (forall ((s $Q) (x $E) (b Int)) (! (=> (and (<= 0 b) (<= b (qlen_$E s))) (= (qsub_$E (qsnoc_$E s x) 0 b) (qsub_$E s 0 b))) :pattern ((qsub_$E (qsnoc_$E s x) 0 b)))))
(assert (forall ((s $Q) (a Int) (b Int) (c Int)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (qlen_$E s))) (= (qsub_$E (qsub_$E s 0 c) a b) (qsub_$E s a b))) :pattern ((qsub_$E (qsub_$E s 0 c) a b)))))
(assert (forall ((s $Q) (b Int)) (! (=> (and (<= 0 b) (< b (qlen_$E s))) (= (qsnoc_$E (qsub_$E s 0 b) (qat_$E s b)) (qsub_$E s 0 (+ b 1)))) :pattern ((qsub_$E s 0 b) (qat_$E s b)))))
(assert (forall ((s $Q) (t $Q)) (! (= (qlen_$E (qcat_$E s t)) (+ (qlen_$E s) (qlen_$E t))) :pattern ((qcat_$E s t)))))
(assert (forall ((s $Q) (t $Q) (i Int)) (! (=> (and (<= 0 i) (< i (+ (qlen_$E s) (qlen_$E t)))) (= (qat_$E (qcat_$E s t) i) (ite (< i (qlen_$E s)) (qat_$E s i) (qat_$E t (- i (qlen_$E s)))))) :pattern ((qat_$E (qcat_$E s t) i)))))
(assert (forall ((s $Q)) (! (= (qcat_$E s qempty_$E) s) :pattern ((qcat_$E s qempty_$E)))))
(assert (forall ((s $Q)) (! (= (qcat_$E qempty_$E s) s) :pattern ((qcat_$E qempty_$E s)))))
(assert (forall ((s $Q) (t $Q) (x $E)) (! (= (qcat_$E s (qsnoc_$E t x)) (qsnoc_$E (qcat_$E s t) x)) :pattern ((qcat_$E s (qsnoc_$E t x))) :pattern ((qsnoc_$E (qcat_$E s t) x)))))
(assert (forall ((s $Q) (i Int) (x $E)) (! (= (qlen_$E (qupd_$E s i x)) (qlen_$E s)) :pattern ((qupd_$E s i x)))))
(assert (forall ((s $Q) (i Int) (x $E) (j Int)) (! (=> (and (<= 0 j) (< j (qlen_$E s))) (= (qat_$E (qupd_$E s i x) j) (ite (= i j) x (qat_$E s j)))) :pattern ((qat_$E (qupd_$E s i x) j)))))
(assert (forall ((s $Q) (t $Q)) (! (=> (= (qlen_$E s) (qlen_$E t)) (or (= s t) (and (<= 0 (qdiff_$E s t)) (< (qdiff_$E s t) (qlen_$E s)) (not (= (qat_$E s (qdiff_$E s t)) (qat_$E t (qdiff_$E s t))))))) :pattern ((qdiff_$E s t)))))
`))
	}
	return sb.String()
}

// Constructors with simplification

func mkApp(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, Sort: s, Args: args})
}

// App applies a declared function, constructor, selector or tester
func App(name string, args ...*Term) *Term {
	if d, ok := th.defs[name]; ok {
		if len(d.params) != len(args) {
			panic(fmt.Sprintf("%s: %d arguments", name, len(args)))
		}
		m := map[int]*Term{}
		for i, p := range d.params {
			if p.Sort != args[i].Sort {
				panic(fmt.Sprintf("%s: argument %d has sort %s, want %s", name, i, args[i].Sort, p.Sort))
			}
			m[p.ID] = args[i]
		}
		return subst(d.body, m)
	}
	if c, ok := th.ctors[name]; ok {
		chk(name, c.sorts, args)
		return mkApp(name, c.sort, args...)
	}
	if strings.HasPrefix(name, "is-") {
		c := th.ctors[name[3:]]
		if c == nil {
			panic("no constructor " + name)
		}
		if k, ok := th.ctors[args[0].Op]; ok {
			return mkBool(k == c)
		}
		if args[0].Op == "ite" {
			return Ite(args[0].Args[0], App(name, args[0].Args[1]), App(name, args[0].Args[2]))
		}
		if len(th.dtCtors[c.sort]) == 1 {
			return tTrue
		}
		return mkApp(name, "Bool", args...)
	}
	if s, ok := th.sels[name]; ok {
		if args[0].Op == s.ctor.name {
			return args[0].Args[s.index]
		}
		if args[0].Op == "ite" {
			a := args[0].Args
			if _, ok := th.ctors[a[1].Op]; ok {
				return Ite(a[0], App(name, a[1]), App(name, a[2]))
			}
			if _, ok := th.ctors[a[2].Op]; ok {
				return Ite(a[0], App(name, a[1]), App(name, a[2]))
			}
		}
		return mkApp(name, s.ctor.sorts[s.index], args...)
	}
	f, ok := th.funs[name]
	if !ok {
		panic("unknown function " + name)
	}
	chk(name, f.args, args)
	if strings.HasPrefix(name, "q") {
		if t := simpSeq(name, args, f); t != nil {
			return t
		}
	}
	return mkApp(name, f.ret, args...)
}

func simpSeq(name string, a []*Term, f *funInfo) *Term {
	switch {
	case strings.HasPrefix(name, "qlen_"):
		switch {
		case strings.HasPrefix(a[0].Op, "qempty_"):
			return mkInt(0)
		case strings.HasPrefix(a[0].Op, "qsnoc_"):
			return Add(Len(a[0].Args[0]), mkInt(1))
		case strings.HasPrefix(a[0].Op, "qupd_"):
			return Len(a[0].Args[0])
		case strings.HasPrefix(a[0].Op, "qcat_"):
			return Add(Len(a[0].Args[0]), Len(a[0].Args[1]))
		}
	case strings.HasPrefix(name, "qat_"):
		s := a[0]
		for strings.HasPrefix(s.Op, "qsnoc_") {
			l := Len(s.Args[0])
			if l == a[1] {
				return s.Args[1]
			}
			if d := Sub(a[1], l); d.Op == "#int" && d.Int.Sign() < 0 && a[1].Op == "#int" && a[1].Int.Sign() >= 0 {
				s = s.Args[0]
				continue
			}
			break
		}
		if s != a[0] {
			return App(name, s, a[1])
		}
	case strings.HasPrefix(name, "qsub_"):
		if a[1].Op == "#int" && a[1].Int.Sign() == 0 {
			s := a[0]
			for strings.HasPrefix(s.Op, "qsnoc_") {
				if Len(s) == a[2] {
					return s
				}
				s = s.Args[0]
				if Len(s) == a[2] {
					return s
				}
			}
			if Len(s) == a[2] {
				return s
			}
		}
	case strings.HasPrefix(name, "qcat_"):
		if strings.HasPrefix(a[1].Op, "qempty_") {
			return a[0]
		}
		if strings.HasPrefix(a[0].Op, "qempty_") {
			return a[1]
		}
		if strings.HasPrefix(a[1].Op, "qsnoc_") {
			return Snoc(App(name, a[0], a[1].Args[0]), a[1].Args[1])
		}
	}
	return nil
}

func chk(name string, sorts []Sort, args []*Term) {
	if len(sorts) != len(args) {
		panic(fmt.Sprintf("%s: %d arguments, want %d", name, len(args), len(sorts)))
	}
	for i := range args {
		if args[i].Sort != sorts[i] {
			panic(fmt.Sprintf("%s: argument %d (%s) has sort %s, want %s", name, i, args[i], args[i].Sort, sorts[i]))
		}
	}
}

func Len(q *Term) *Term        { return App("qlen_"+elemSort(q.Sort), q) }
func At(q, i *Term) *Term      { return App("qat_"+elemSort(q.Sort), q, i) }
func Snoc(q, x *Term) *Term    { return App("qsnoc_"+elemSort(q.Sort), q, x) }
func SubQ(q, a, b *Term) *Term { return App("qsub_"+elemSort(q.Sort), q, a, b) }
func Cat(a, b *Term) *Term     { return App("qcat_"+elemSort(a.Sort), a, b) }
func Upd(q, i, x *Term) *Term  { return App("qupd_"+elemSort(q.Sort), q, i, x) }
func Empty(e Sort) *Term       { seqOf(e); return App("qempty_" + e) }

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return mkApp("not", "Bool", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "false" {
			return false
		}
		if a.Op == "true" || seen[a.ID] {
			return true
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.Sort != "Bool" {
			panic("and: " + a.String())
		}
		if !add(a) {
			return tFalse
		}
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0].ID] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkApp("and", "Bool", out...)
}

func Or(as ...*Term) *Term {
	n := make([]*Term, len(as))
	for i, a := range as {
		n[i] = Not(a)
	}
	r := And(n...)
	if r.Op == "and" {
		var out []*Term
		for _, x := range r.Args {
			out = append(out, Not(x))
		}
		return mkApp("or", "Bool", out...)
	}
	return Not(r)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("= of %s:%s and %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.Op == "#int" && b.Op == "#int" {
		return mkBool(a.Int.Cmp(b.Int) == 0)
	}
	if a.Op == "#str" && b.Op == "#str" {
		return mkBool(a.Name == b.Name)
	}
	if a.Sort == "Bool" {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return Not(b)
		case b == tFalse:
			return Not(a)
		}
	}
	ca, oka := th.ctors[a.Op]
	cb, okb := th.ctors[b.Op]
	if oka && okb {
		if ca != cb {
			return tFalse
		}
		var es []*Term
		for i := range a.Args {
			es = append(es, Eq(a.Args[i], b.Args[i]))
		}
		return And(es...)
	}
	if (oka || a.Op == "#int" || a.Op == "#str") && b.Op == "ite" {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if (okb || b.Op == "#int" || b.Op == "#str") && a.Op == "ite" {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if a.Sort == "Int" {
		d := Sub(a, b)
		if d.Op == "#int" {
			return mkBool(d.Int.Sign() == 0)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mkApp("=", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite branches %s:%s and %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.Sort == "Bool" {
		switch {
		case a == tTrue && b == tFalse:
			return c
		case a == tFalse && b == tTrue:
			return Not(c)
		case a == tTrue:
			return Or(c, b)
		case a == tFalse:
			return And(Not(c), b)
		case b == tTrue:
			return Or(Not(c), a)
		case b == tFalse:
			return And(c, a)
		}
	}
	return mkApp("ite", a.Sort, c, a, b)
}

// Linear integer normal form: sum of coefficient*atom plus a constant
type linear struct {
	c     *big.Int
	coeff map[int]*big.Int
	atoms map[int]*Term
}

func lin(t *Term) *linear {
	l := &linear{c: big.NewInt(0), coeff: map[int]*big.Int{}, atoms: map[int]*Term{}}
	l.add(t, big.NewInt(1))
	return l
}

func (l *linear) add(t *Term, k *big.Int) {
	switch {
	case t.Op == "#int":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.Int))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && t.Args[0].Op == "#int":
		l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
	default:
		c := l.coeff[t.ID]
		if c == nil {
			c = big.NewInt(0)
		}
		c = new(big.Int).Add(c, k)
		if c.Sign() == 0 {
			delete(l.coeff, t.ID)
			delete(l.atoms, t.ID)
		} else {
			l.coeff[t.ID] = c
			l.atoms[t.ID] = t
		}
	}
}

func (l *linear) term() *Term {
	var ids []int
	for id := range l.coeff {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		k := l.coeff[id]
		if k.Cmp(big.NewInt(1)) == 0 {
			args = append(args, l.atoms[id])
		} else {
			args = append(args, mkApp("*", "Int", mkBig(k), l.atoms[id]))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, mkBig(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mkApp("+", "Int", args...)
}

func Add(as ...*Term) *Term {
	l := lin(mkInt(0))
	for _, a := range as {
		if a.Sort != "Int" {
			panic("+ of " + a.String())
		}
		l.add(a, big.NewInt(1))
	}
	return l.term()
}

func Sub(a, b *Term) *Term {
	l := lin(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}

func Neg(a *Term) *Term { return Sub(mkInt(0), a) }

func Mul(a, b *Term) *Term {
	if b.Op == "#int" {
		a, b = b, a
	}
	if a.Op == "#int" {
		l := lin(mkInt(0))
		l.add(b, a.Int)
		return l.term()
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mkApp("*", "Int", a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.Op == "#int" {
		return mkBool(d.Int.Sign() >= 0)
	}
	return mkApp("<=", "Bool", a, b)
}
func Lt(a, b *Term) *Term {
	d := Sub(b, a)
	if d.Op == "#int" {
		return mkBool(d.Int.Sign() > 0)
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func divmod(op string, a, b *Term) *Term {
	if a.Op == "#int" && b.Op == "#int" && b.Int.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.Int, b.Int, m) // Euclidean, as in SMT-LIB
		if op == "div" {
			return mkBig(q)
		}
		return mkBig(m)
	}
	return mkApp(op, "Int", a, b)
}

var minInt = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))
var maxInt = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))

func inRange(t *Term) *Term { return And(Le(mkBig(minInt), t), Le(t, mkBig(maxInt))) }

// Wrap is the 64-bit two's complement value of t
func Wrap(t *Term) *Term {
	if t.Op == "#int" && t.Int.Cmp(minInt) >= 0 && t.Int.Cmp(maxInt) <= 0 {
		return t
	}
	if t.Op == "wrap64" {
		return t
	}
	return mkApp("wrap64", "Int", t)
}

func mkQuant(op string, bound []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return intern(&Term{Op: op, Sort: "Bool", Bound: bound, Args: []*Term{body}, Pats: pats})
}

// Substitution of terms by id, rebuilding through the simplifying constructors
func subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	return substM(t, m, memo)
}

func substM(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.ID]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	changed := false
	for i, a := range t.Args {
		args[i] = substM(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	var pats [][]*Term
	for _, p := range t.Pats {
		var np []*Term
		for _, a := range p {
			x := substM(a, m, memo)
			if x != a {
				changed = true
			}
			np = append(np, x)
		}
		pats = append(pats, np)
	}
	r := t
	if changed {
		r = rebuild(t, args, pats)
	}
	memo[t.ID] = r
	return r
}

func rebuild(t *Term, args []*Term, pats [][]*Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "div", "mod":
		return divmod(t.Op, args[0], args[1])
	case "wrap64":
		return Wrap(args[0])
	case "forall", "exists":
		return mkQuant(t.Op, t.Bound, args[0], pats)
	}
	return App(t.Op, args...)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil)
	s := sb.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func smtName(s string) string {
	if s == "" {
		return "||"
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!.$-", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *Term) write(sb *strings.Builder, named map[int]string) {
	if named != nil {
		if n, ok := named[t.ID]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.writeTop(sb, named)
}

func (t *Term) writeTop(sb *strings.Builder, named map[int]string) {
	switch t.Op {
	case "#int":
		if t.Int.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.Int))
		} else {
			sb.WriteString(t.Int.String())
		}
		return
	case "#str":
		if named == nil {
			sb.WriteString(strconv.Quote(t.Name))
		} else {
			fmt.Fprintf(sb, "str_%d", t.ID)
		}
		return
	case "#var", "#bv":
		sb.WriteString(smtName(t.Name))
		return
	case "forall", "exists":
		fmt.Fprintf(sb, "(%s (", t.Op)
		for _, b := range t.Bound {
			fmt.Fprintf(sb, "(%s %s)", smtName(b.Name), b.Sort)
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].write(sb, named)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					x.write(sb, named)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(smtName(t.Op))
		return
	}
	sb.WriteByte('(')
	if strings.HasPrefix(t.Op, "is-") {
		fmt.Fprintf(sb, "(_ is %s)", smtName(t.Op[3:]))
	} else {
		sb.WriteString(smtName(t.Op))
	}
	for _, a := range t.Args {
		sb.WriteByte(' ')
		a.write(sb, named)
	}
	sb.WriteByte(')')
}
