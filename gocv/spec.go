package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// A contract states what a function requires and ensures
type contract struct {
	name     string
	params   []string
	results  []string
	requires []*S
	ensures  []*S
	modifies []*S     // places havocked by a call: (ptr field ...)
	clobbers []*S     // slices whose array may be overwritten behind their length
	writes   []string // ghost variables havocked
	fresh    []string // results with arrays of their own
	callback map[string]string
	aux      bool
	iface    string // interface sort for interface contracts
	method   string
	role     string
	props    []string
	assumed  string // reason, for contracts which are not verified
	bindVars [][2]string
	reveal   []string
	used     bool
	// what holds for the results: for all values of the variables, and which
	// functions the results are of the arguments
	ensuresFor []forClause
	determines []*S
	measure    []*S // of what is left to do, at most as often as a call
}

// forClause is an equation that holds for all values of its variables
type forClause struct {
	vars []*S // (name Sort)
	pat  []*S // patterns, if callers may use it
	body *S
}

// shape of the results of an accessor of parse tree nodes
type shapeCase struct {
	cond *S
	alts []*S
}

var shapes = map[string][]shapeCase{}

type lemma struct {
	name   string
	vars   []*Term
	induct *Term // natural number term over vars decreasing to 0
	pats   [][]*Term
	body   *Term
	hyp    [][]*Term // induction hypothesis instances: values of vars
	split  []*Term
	use    bool
	reveal []string // opaque functions unfolded in the proof
	order  int
	scope  *scope
	users  []string // lemmas and functions it is used for, if not all
}

type aboutFun struct{ params, terms []*Term }

// A scope has axioms and lemmas which are only used for each other, and for
// some functions
type scope struct{ users []string }

var curScope *scope

// usedFor tells if axioms and lemmas of a scope are used for a function or lemma
func (s *scope) usedFor(name string, of *scope) bool {
	return s == nil || s == of || contains(s.users, name)
}

type classDecl struct {
	class  string
	fields []string
}

type specs struct {
	contracts  map[string]*contract
	icontract  map[string]*contract // sort.method
	roles      []*contract
	notes      []string            // what has been left out
	classes    map[string][]string // spec names of the fields
	groups     map[string]*propSpec
	loopTmpl   []*loopTmpl
	traceTmpl  []*loopTmpl
	views      map[string]map[string]*S // class -> view name -> term
	classinv   map[string]*S
	axiomNames []string
	text       []*S
}

// loopTmpl is a candidate for loop invariants, instantiated for all values in
// scope which have the sorts of its variables
type loopTmpl struct {
	vars []*Term
	kind []string
	body *S
	name string
	fns  []string
}

type propSpec struct {
	id      string
	kinds   []string
	primary []string
	deps    []string
	lemmas  []string
}

var sp = &specs{contracts: map[string]*contract{}, icontract: map[string]*contract{}, classes: map[string][]string{},
	groups: map[string]*propSpec{}, views: map[string]map[string]*S{}, classinv: map[string]*S{}}

type env struct {
	vars    map[string]Val
	st      *State
	old     *State
	oldVars map[string]Val
}

func (e *env) bind(n string, v Val) *env {
	m := make(map[string]Val, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[n] = v
	return &env{vars: m, st: e.st, old: e.old, oldVars: e.oldVars}
}

func readSpecs(dir string) []*S {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	var all []*S
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		all = append(all, parseS(filepath.Base(f), string(b))...)
	}
	return all
}

func loadSpecs(p *program, all []*S) {
	sp.text = all
	// sorts and interfaces first
	ifaces := map[string]string{}
	for _, s := range all {
		switch s.head() {
		case "sort":
			declSort(s.List[1].Atom)
		case "interface":
			ifaces[s.List[1].Atom] = s.List[2].Atom
		}
	}
	for _, s := range all {
		switch s.head() {
		case "datatype":
			n := s.List[1].Atom
			declSort(n)
			th.dtypes = append(th.dtypes, n)
		}
	}
	for _, s := range all {
		if s.head() == "datatype" {
			n := s.List[1].Atom
			for i, c := range s.List[2:] {
				ci := &ctorInfo{sort: n, index: i}
				if c.isList() {
					ci.name = c.List[0].Atom
					for _, f := range c.List[1:] {
						ci.fields = append(ci.fields, f.List[0].Atom)
						ci.sorts = append(ci.sorts, specSort(f.List[1]))
					}
				} else {
					ci.name = c.Atom
				}
				th.ctors[ci.name] = ci
				th.dtCtors[n] = append(th.dtCtors[n], ci)
				for k, f := range ci.fields {
					th.sels[f] = selInfo{ci, k}
				}
			}
		}
	}
	declSort("Flt")
	declSort("Str")
	declSort("Fun")
	declFun("slen", []Sort{"Str"}, "Int")
	p.setupClasses(ifaces)
	for _, s := range all {
		if s.head() == "class" {
			var fs []string
			for _, f := range s.List[2:] {
				fs = append(fs, f.Atom)
			}
			sp.classes[s.List[1].Atom] = fs
		}
	}
	aliasClasses(p)
	for _, s := range all {
		switch s.head() {
		case "fun":
			var as []Sort
			for _, a := range s.List[2].List {
				as = append(as, specSort(a))
			}
			declFun(s.List[1].Atom, as, specSort(s.List[3]))
		case "defrec", "defopaque":
			var as []Sort
			for _, a := range s.List[2].List {
				as = append(as, specSort(a.List[1]))
			}
			declFun(s.List[1].Atom, as, specSort(s.List[3]))
		}
	}
	for _, s := range all {
		func() {
			// a form the code has no place for is left out
			defer func() {
				if r := recover(); r != nil {
					m, ok := r.(string)
					if !ok {
						panic(r)
					}
					sp.notes = append(sp.notes, "left out: "+m)
				}
			}()
			loadForm(p, s)
		}()
	}
}

func loadForm(p *program, s *S) {
	switch s.head() {
	case "define", "defrec", "defopaque":
		d := &recDef{name: s.List[1].Atom}
		e := &env{vars: map[string]Val{}}
		for _, a := range s.List[2].List {
			v := mkVar(d.name+"."+a.List[0].Atom, specSort(a.List[1]))
			d.params = append(d.params, v)
			e.vars[a.List[0].Atom] = v
		}
		d.body = evalAs(e, s.List[4], specSort(s.List[3]))
		if s.head() == "define" {
			th.defs[d.name] = d
		} else {
			d.opaque = s.head() == "defopaque"
			th.recs[d.name] = d
		}
	case "case":
		loadCase(p, s)
	case "axiom":
		th.axioms = append(th.axioms, &namedAxiom{name: s.List[1].Atom, t: evalAs(&env{vars: map[string]Val{}}, s.List[2], "Bool"), scope: curScope})
		sp.axiomNames = append(sp.axiomNames, s.List[1].Atom)
	case "about":
		// (about f ((x S)...) term...): where f is applied, the definitions of
		// the terms are looked at
		a := &aboutFun{}
		e := &env{vars: map[string]Val{}}
		for _, x := range s.List[2].List {
			b := mkBV("A."+s.List[1].Atom+"."+x.List[0].Atom, specSort(x.List[1]))
			a.params = append(a.params, b)
			e.vars[x.List[0].Atom] = b
		}
		for _, x := range s.List[3:] {
			a.terms = append(a.terms, evalTerm(e, x))
		}
		th.about[s.List[1].Atom] = a
	case "only":
		// (only f g...): what follows is used for these, up to the next (only)
		curScope = nil
		if len(s.List) > 1 {
			curScope = &scope{}
			for _, x := range s.List[1:] {
				curScope.users = append(curScope.users, x.Atom)
			}
		}
	case "lemma":
		loadLemma(s)
	case "contract", "icontract", "role":
		loadContract(s)
	case "template":
		sp.loopTmpl = append(sp.loopTmpl, loadTmpl(s))
	case "shapes":
		// (shapes Accessor (when cond (alt value fact...)...)...) for the node t
		for _, x := range s.List[2:] {
			shapes[s.List[1].Atom] = append(shapes[s.List[1].Atom], shapeCase{x.List[1], x.List[2:]})
		}
	case "view":
		m := sp.views[s.List[1].Atom]
		if m == nil {
			m = map[string]*S{}
			sp.views[s.List[1].Atom] = m
		}
		m[s.List[2].Atom] = s.List[3]
	case "classinv":
		sp.classinv[s.List[1].Atom] = s.List[2]
	case "property":
		g := &propSpec{id: s.List[1].Atom}
		for _, x := range s.List[2:] {
			for _, y := range x.List[1:] {
				switch x.head() {
				case "primary":
					g.primary = append(g.primary, y.Atom)
				case "kinds":
					g.kinds = append(g.kinds, y.Atom)
				case "deps":
					g.deps = append(g.deps, y.Atom)
				case "lemmas":
					g.lemmas = append(g.lemmas, y.Atom)
				}
			}
		}
		sp.groups[g.id] = g
	}
}

func specSort(s *S) Sort {
	if s.isList() {
		if s.head() == "Seq" {
			return seqOf(specSort(s.List[1]))
		}
		s.fail("unknown sort")
	}
	if strings.HasPrefix(s.Atom, "Q_") {
		seqOf(strings.TrimPrefix(s.Atom, "Q_"))
	}
	if !th.sortKnown[s.Atom] {
		declSort(s.Atom)
	}
	return s.Atom
}

// extraField gives the value of a field of a class the specification does not know
var extraField func(ci *classInfo, f fieldInfo) *Term

// aliasClasses finds the classes of the specification which have been renamed:
// the only other class with the same fields
func aliasClasses(p *program) {
	taken := map[string]bool{}
	for n := range sp.classes {
		if p.classes[n] != nil {
			taken[n] = true
		}
	}
	for _, n := range sortedKeys(sp.classes) {
		if p.classes[n] != nil || len(sp.classes[n]) == 0 {
			continue
		}
		var found *classInfo
		many := false
		for _, m := range sortedKeys(p.classes) {
			ci := p.classes[m]
			if taken[m] || len(ci.fields) != len(sp.classes[n]) {
				continue
			}
			same := true
			for i, f := range ci.fields {
				same = same && f.name == sp.classes[n][i]
			}
			if same {
				many = found != nil
				found = ci
			}
		}
		if found != nil && !many {
			found.spec = n
			p.classes[n] = found
			taken[found.name] = true
			sp.notes = append(sp.notes, "class "+n+" is "+found.name)
		}
	}
}

// fieldMap maps the spec names of the fields of a class to its fields, by
// name, or by position if the fields have been renamed
func fieldMap(ci *classInfo) map[string]fieldInfo {
	m := map[string]fieldInfo{}
	for _, f := range ci.fields {
		m[f.name] = f
	}
	names, ok := sp.classes[ci.specName()]
	if !ok {
		return m
	}
	missing := false
	for _, n := range names {
		if _, ok := m[n]; !ok {
			missing = true
		}
	}
	if missing && len(names) == len(ci.fields) {
		for i, n := range names {
			m[n] = ci.fields[i]
		}
	}
	return m
}

func loadCase(p *program, s *S) {
	fun, class := s.List[1].Atom, s.List[2].Atom
	ci := p.classes[class]
	if ci == nil {
		return
	}
	f := th.funs[fun]
	if f == nil {
		s.fail("unknown function")
	}
	c := &classCase{fun: fun, ctor: ci.mk(), fields: map[string]*Term{}}
	e := &env{vars: map[string]Val{}}
	for n, fi := range fieldMap(ci) {
		v := mkVar("case."+class+"."+fi.name, fi.sort)
		c.fields[fi.name] = v
		e.vars[n] = v
	}
	var selfArgs []*Term
	for _, fi := range ci.fields {
		selfArgs = append(selfArgs, c.fields[fi.name])
	}
	e.vars["self"] = mkApp(ci.mk(), ci.iface, selfArgs...)
	for i, a := range s.List[3].List {
		v := mkVar("case."+fun+"."+a.Atom, f.args[i+1])
		c.params = append(c.params, v)
		e.vars[a.Atom] = v
	}
	c.body = evalAs(e, s.List[4], f.ret)
	if th.cases[fun] == nil {
		th.cases[fun] = map[string]*classCase{}
	}
	th.cases[fun][ci.mk()] = c
}

func loadLemma(s *S) {
	l := &lemma{name: s.List[1].Atom, use: true}
	extra := map[string]*Term{}
	extraField = func(ci *classInfo, f fieldInfo) *Term {
		k := "L." + l.name + ".extra." + ci.name + "." + f.name
		if extra[k] == nil {
			extra[k] = mkBV(k, f.sort)
			l.vars = append(l.vars, extra[k])
		}
		return extra[k]
	}
	defer func() { extraField = nil }()
	e := &env{vars: map[string]Val{}}
	for _, a := range s.List[2].List {
		v := mkBV("L."+l.name+"."+a.List[0].Atom, specSort(a.List[1]))
		l.vars = append(l.vars, v)
		e.vars[a.List[0].Atom] = v
	}
	for _, x := range s.List[3:] {
		switch x.head() {
		case "induct":
			l.induct = evalAs(e, x.List[1], "Int")
		case "hyp":
			var h []*Term
			for i, y := range x.List[1:] {
				h = append(h, evalAs(e, y, l.vars[i].Sort))
			}
			l.hyp = append(l.hyp, h)
		case "pat":
			var p []*Term
			for _, y := range x.List[1:] {
				p = append(p, evalTerm(e, y))
			}
			l.pats = append(l.pats, p)
		case "body":
			l.body = evalAs(e, x.List[1], "Bool")
		case "split":
			for _, y := range x.List[1:] {
				l.split = append(l.split, evalAs(e, y, "Bool"))
			}
		case "for":
			for _, y := range x.List[1:] {
				l.users = append(l.users, y.Atom)
			}
		case "nouse":
			l.use = false
		case "reveal":
			for _, y := range x.List[1:] {
				l.reveal = append(l.reveal, y.Atom)
			}
		default:
			x.fail("unknown clause")
		}
	}
	l.order = len(th.lemmas)
	l.scope = curScope
	th.lemmas = append(th.lemmas, l)
}

func (l *lemma) quantified() *Term { return mkQuant("forall", l.vars, l.body, l.pats) }

func loadContract(s *S) {
	c := &contract{callback: map[string]string{}}
	i := 2
	c.name = s.List[1].Atom
	switch s.head() {
	case "icontract":
		c.iface, c.method = s.List[1].Atom, s.List[2].Atom
		c.name = c.iface + "." + c.method
		i = 3
	case "role":
		c.role = c.name
	}
	for _, p := range s.List[i].List {
		c.params = append(c.params, p.Atom)
	}
	for _, x := range s.List[i+1:] {
		var args []*S
		if x.isList() {
			args = x.List[1:]
		} else {
			switch x.Atom {
			case "aux":
				c.aux = true
			default:
				x.fail("unknown clause")
			}
			continue
		}
		switch x.head() {
		case "results":
			for _, a := range args {
				c.results = append(c.results, a.Atom)
			}
		case "requires":
			c.requires = append(c.requires, args...)
		case "ensures":
			c.ensures = append(c.ensures, args...)
		case "modifies":
			c.modifies = append(c.modifies, args...)
		case "clobbers":
			c.clobbers = append(c.clobbers, args...)
		case "fresh":
			for _, a := range args {
				c.fresh = append(c.fresh, a.Atom)
			}
		case "ghost":
			for _, a := range args {
				c.writes = append(c.writes, a.Atom)
			}
		case "callback":
			c.callback[args[0].Atom] = args[1].Atom
		case "assumed":
			c.assumed = args[0].Atom
		case "reveal":
			for _, a := range args {
				c.reveal = append(c.reveal, a.Atom)
			}
		case "measure":
			c.measure = append(c.measure, args...)
		case "determines":
			c.determines = append(c.determines, args...)
		case "ensures-for":
			f := forClause{vars: args[0].List}
			for _, a := range args[1:] {
				if a.head() == "pat" {
					f.pat = append(f.pat, a.List[1:]...)
					continue
				}
				g := f
				g.body = a
				c.ensuresFor = append(c.ensuresFor, g)
			}
		default:
			x.fail("unknown clause")
		}
	}
	if c.iface != "" {
		sp.icontract[c.name] = c
	} else if c.role != "" {
		sp.roles = append(sp.roles, c)
	} else {
		sp.contracts[c.name] = c
	}
}

func loadTmpl(s *S) *loopTmpl {
	t := &loopTmpl{name: s.List[1].Atom}
	for _, a := range s.List[2].List {
		v := mkVar("T."+t.name+"."+a.List[0].Atom, specSort(a.List[1]))
		v.Name = "T." + t.name + "." + a.List[0].Atom
		t.vars = append(t.vars, v)
		k := ""
		if len(a.List) > 2 {
			k = a.List[2].Atom
		}
		t.kind = append(t.kind, k)
	}
	t.body = s.List[3]
	for _, x := range s.List[4:] {
		for _, y := range x.List[1:] {
			t.fns = append(t.fns, y.Atom)
		}
	}
	return t
}

// ---- evaluation of spec terms ----

func evalTerm(e *env, s *S) *Term { return toTerm(e.st, evalS(e, s), "", s) }
func evalAs(e *env, s *S, so Sort) *Term {
	t := toTerm(e.st, evalS(e, s), so, s)
	if t.Sort != so {
		s.fail("sort %s, want %s", t.Sort, so)
	}
	return t
}

// toTerm converts a value to a term, of the given sort if it is not empty
func toTerm(st *State, v Val, want Sort, s *S) *Term {
	fail := func() *Term {
		panic(fmt.Sprintf("no term of sort %q for %s (%v)", want, valString(v), s))
	}
	switch v := v.(type) {
	case *Term:
		if want == "Any" && v.Sort != "Any" {
			switch v.Sort {
			case "Int":
				return App("AInt", v)
			case "Bool":
				return App("ABool", v)
			case "Str":
				return App("AStr", v)
			case "Flt":
				return App("AFlt", v)
			}
		}
		return v
	case *StructV:
		if ci, ok := pr.classOf(v.typ); ok && (want == ci.iface || want == "" && len(v.fields) != 1) {
			return classTerm(st, ci, v)
		}
		if n, ok := v.typ.(*types.Named); ok {
			switch n.Obj().Name() {
			case "Segment":
				return App("Seg_", toTerm(st, v.fields[0], "Any", s), toTerm(st, v.fields[1], "Int", s), toTerm(st, v.fields[2], "Str", s), toTerm(st, v.fields[3], "Int", s))
			case "Path":
				return App("Path_", toTerm(st, v.fields[0], "Q_Sel", s), toTerm(st, v.fields[1], "Q_Bool", s))
			case "nodeValue":
				if want == "Any" {
					return App("ANode", toTerm(st, v.fields[0], "Any", s), toTerm(st, v.fields[1], "Doc", s))
				}
			}
		}
		if len(v.fields) == 1 {
			return toTerm(st, v.fields[0], want, s)
		}
		return fail()
	case *PtrV:
		if v.obj != 0 && len(v.path) == 0 && st != nil {
			if o := st.heap[v.obj]; o != nil {
				if ci, ok := pr.classOf(types.NewPointer(o.typ)); ok {
					if sv, ok := o.val.(*StructV); ok {
						return classTerm(st, ci, sv)
					}
				}
			}
		}
		if n, ok := nilTerm(want); ok && v.obj == 0 && v.slice == nil {
			return n
		}
		return fail()
	case *SliceV:
		if want == "Any" {
			return App("AArr", sliceContent(st, v))
		}
		return sliceContent(st, v)
	case *IfaceV:
		if v.typ == nil {
			if n, ok := nilTerm(want); ok {
				return n
			}
			return fail()
		}
		return toTerm(st, v.val, want, s)
	case *ClosureV:
		return closureTerm(st, v)
	case *FuncNil:
		return App("nil_Fun")
	case *MapV:
		return mapTerm(st, v)
	}
	return fail()
}

// classTerm builds mk_X from the fields of a struct
func classTerm(st *State, ci *classInfo, v *StructV) *Term {
	var args []*Term
	i := 0
	var walk func(sv *StructV)
	walk = func(sv *StructV) {
		u := sv.typ.Underlying().(*types.Struct)
		for k := 0; k < u.NumFields(); k++ {
			f := sv.fields[k]
			if sub, ok := f.(*StructV); ok {
				if _, single := sortOfType(sub.typ); !single {
					walk(sub)
					continue
				}
			}
			args = append(args, toTerm(st, f, ci.fields[i].sort, nil))
			i++
		}
	}
	walk(v)
	return App(ci.mk(), args...)
}

var binders int

func evalS(e *env, s *S) Val {
	if !s.isList() {
		if s.Str {
			return mkStr(s.Atom)
		}
		if v, ok := e.vars[s.Atom]; ok {
			return v
		}
		if s.Atom[0] >= '0' && s.Atom[0] <= '9' || s.Atom[0] == '-' && len(s.Atom) > 1 {
			n, ok := new(big.Int).SetString(s.Atom, 10)
			if !ok {
				s.fail("bad number")
			}
			return mkBig(n)
		}
		switch s.Atom {
		case "true":
			return tTrue
		case "false":
			return tFalse
		}
		if s.Atom[0] == '\'' && len(s.Atom) >= 3 {
			r, _, _, err := strconv.UnquoteChar(s.Atom[1:len(s.Atom)-1], '\'')
			if err != nil {
				s.fail("bad char")
			}
			return mkInt(int64(r))
		}
		if e.st != nil {
			if g, ok := e.st.ghost[s.Atom]; ok {
				return g
			}
		}
		if c, ok := th.ctors[s.Atom]; ok && len(c.sorts) == 0 {
			return App(s.Atom)
		}
		if f, ok := th.funs[s.Atom]; ok && len(f.args) == 0 {
			return App(s.Atom)
		}
		if d, ok := th.defs[s.Atom]; ok && len(d.params) == 0 {
			return App(s.Atom)
		}
		s.fail("unknown name %q", s.Atom)
	}
	if len(s.List) == 0 {
		s.fail("empty term")
	}
	op := s.head()
	a := s.List[1:]
	if op == "global" {
		g, ok := pr.pkg.Members[a[0].Atom].(*ssa.Global)
		if !ok {
			s.fail("no such variable")
		}
		return globalValue(e.st, g)
	}
	ints := func() []*Term {
		var o []*Term
		for _, x := range a {
			o = append(o, evalAs(e, x, "Int"))
		}
		return o
	}
	bools := func() []*Term {
		var o []*Term
		for _, x := range a {
			o = append(o, evalAs(e, x, "Bool"))
		}
		return o
	}
	need := func(n int) {
		if len(a) != n {
			s.fail("%d arguments, want %d", len(a), n)
		}
	}
	switch op {
	case "and":
		return And(bools()...)
	case "or":
		return Or(bools()...)
	case "not":
		need(1)
		return Not(bools()[0])
	case "=>":
		// what follows from a false premise is not evaluated
		pre := tTrue
		for i, x := range a {
			if pre == tFalse {
				return tTrue
			}
			t := evalAs(e, x, "Bool")
			if i == len(a)-1 {
				return Implies(pre, t)
			}
			pre = And(pre, t)
		}
		return tTrue
	case "=", "!=":
		need(2)
		x, y := evalS(e, a[0]), evalS(e, a[1])
		tx, okx := x.(*Term)
		ty, oky := y.(*Term)
		if okx && !oky {
			ty = toTerm(e.st, y, tx.Sort, s)
		} else if oky && !okx {
			tx = toTerm(e.st, x, ty.Sort, s)
		} else if !okx {
			tx, ty = toTerm(e.st, x, "", s), toTerm(e.st, y, "", s)
		}
		if tx.Sort != ty.Sort {
			s.fail("= of %s and %s", tx.Sort, ty.Sort)
		}
		if op == "!=" {
			return Not(Eq(tx, ty))
		}
		return Eq(tx, ty)
	case "ite":
		need(3)
		c := evalAs(e, a[0], "Bool")
		x := evalTerm(e, a[1])
		y := evalAs(e, a[2], x.Sort)
		return Ite(c, x, y)
	case "cond": // (cond (c t) ... t)
		r := evalTerm(e, a[len(a)-1])
		for i := len(a) - 2; i >= 0; i-- {
			r = Ite(evalAs(e, a[i].List[0], "Bool"), evalAs(e, a[i].List[1], r.Sort), r)
		}
		return r
	case "+":
		return Add(ints()...)
	case "-":
		t := ints()
		if len(t) == 1 {
			return Neg(t[0])
		}
		r := t[0]
		for _, x := range t[1:] {
			r = Sub(r, x)
		}
		return r
	case "*":
		t := ints()
		return Mul(t[0], t[1])
	case "div", "mod":
		t := ints()
		return divmod(op, t[0], t[1])
	case "wrap64":
		return Wrap(ints()[0])
	case "<=", "<", ">=", ">":
		t := ints()
		var cs []*Term
		for i := 0; i+1 < len(t); i++ {
			switch op {
			case "<=":
				cs = append(cs, Le(t[i], t[i+1]))
			case "<":
				cs = append(cs, Lt(t[i], t[i+1]))
			case ">=":
				cs = append(cs, Ge(t[i], t[i+1]))
			case ">":
				cs = append(cs, Gt(t[i], t[i+1]))
			}
		}
		return And(cs...)
	case "let":
		n := e
		for _, b := range a[0].List {
			n = n.bind(b.List[0].Atom, evalS(n, b.List[1]))
		}
		return evalS(n, a[1])
	case "forall", "exists":
		n := e
		var bs []*Term
		for _, b := range a[0].List {
			binders++
			v := mkBV(fmt.Sprintf("%s.%s.%d", b.List[0].Atom, s.File, s.Line), specSort(b.List[1]))
			bs = append(bs, v)
			n = n.bind(b.List[0].Atom, v)
		}
		body := evalAs(n, a[1], "Bool")
		var pats [][]*Term
		for _, x := range a[2:] {
			if x.head() != "pat" {
				x.fail("(pat ...) expected")
			}
			var p []*Term
			for _, y := range x.List[1:] {
				p = append(p, evalTerm(n, y))
			}
			pats = append(pats, p)
		}
		return mkQuant(op, bs, body, pats)
	case "is":
		need(2)
		c := th.ctors[a[0].Atom]
		if c == nil {
			if ci := pr.classes[a[0].Atom]; ci != nil {
				return isClass(evalAs(e, a[1], ci.iface), ci)
			}
			return tFalse
		}
		return App("is-"+a[0].Atom, evalAs(e, a[1], c.sort))
	case "mk": // (mk class v...)
		ci := pr.classes[s.List[1].Atom]
		if ci == nil {
			s.fail("no class")
		}
		fm := fieldMap(ci)
		names := sp.classes[s.List[1].Atom]
		if names == nil {
			for _, f := range ci.fields {
				names = append(names, f.name)
			}
		}
		if len(names) != len(s.List)-2 {
			s.fail("class has %d fields", len(names))
		}
		args := map[string]*Term{}
		for i, y := range s.List[2:] {
			f, ok := fm[names[i]]
			if !ok {
				s.fail("no field %s", names[i])
			}
			args[f.name] = evalAs(e, y, f.sort)
		}
		var ts []*Term
		for _, f := range ci.fields {
			t := args[f.name]
			if t == nil { // a field the specification does not know
				if extraField == nil {
					s.fail("class has other fields")
				}
				t = extraField(ci, f)
			}
			ts = append(ts, t)
		}
		return App(ci.mk(), ts...)
	case "get": // (get class field v)
		ci := pr.classes[a[0].Atom]
		if ci == nil {
			s.fail("no class")
		}
		f, ok := fieldMap(ci)[a[1].Atom]
		if !ok {
			s.fail("no field")
		}
		return getField(ci, f, evalAs(e, a[2], ci.iface))
	case "len":
		need(1)
		return Len(evalSeq(e, a[0]))
	case "at":
		need(2)
		return At(evalSeq(e, a[0]), evalAs(e, a[1], "Int"))
	case "snoc":
		q := evalSeq(e, a[0])
		for _, x := range a[1:] {
			q = Snoc(q, evalAs(e, x, elemSort(q.Sort)))
		}
		return q
	case "sub":
		need(3)
		return SubQ(evalSeq(e, a[0]), evalAs(e, a[1], "Int"), evalAs(e, a[2], "Int"))
	case "qdiff": // a position where two sequences differ, if they do
		q, r := evalSeq(e, a[0]), evalSeq(e, a[1])
		return mkApp("qdiff_"+elemSort(q.Sort), "Int", q, r)
	case "upd":
		need(3)
		q := evalSeq(e, a[0])
		return Upd(q, evalAs(e, a[1], "Int"), evalAs(e, a[2], elemSort(q.Sort)))
	case "cat":
		q := evalSeq(e, a[0])
		for _, x := range a[1:] {
			q = Cat(q, evalSeq(e, x))
		}
		return q
	case "empty":
		return Empty(specSort(a[0]))
	case "seq": // (seq E x y ...)
		q := Empty(specSort(a[0]))
		for _, x := range a[1:] {
			q = Snoc(q, evalAs(e, x, elemSort(q.Sort)))
		}
		return q
	case "last":
		q := evalSeq(e, a[0])
		return At(q, Sub(Len(q), mkInt(1)))
	case "old":
		if e.old == nil {
			s.fail("no old state")
		}
		o := &env{vars: e.vars, st: e.old, old: nil}
		if e.oldVars != nil {
			o.vars = e.oldVars
		}
		v := evalS(o, a[0])
		// values of slices must be read in the old state
		if sv, ok := v.(*SliceV); ok {
			return sliceContent(e.old, sv)
		}
		if sv, ok := v.(*StructV); ok {
			return toTerm(e.old, sv, "", s)
		}
		return v
	case ".":
		v := evalS(e, a[0])
		for _, f := range a[1:] {
			v = fieldOf(e.st, v, f.Atom, s)
		}
		return v
	case "view":
		return evalView(e, evalS(e, a[1]), a[0].Atom, s)
	case "sort-of":
		return evalTerm(e, a[0])
	}
	// application
	if op == "" {
		s.fail("bad term")
	}
	if d, ok := th.defs[op]; ok {
		if len(a) != len(d.params) {
			s.fail("%d arguments, want %d", len(a), len(d.params))
		}
		var args []*Term
		for i, x := range a {
			args = append(args, evalAs(e, x, d.params[i].Sort))
		}
		return App(op, args...)
	}
	var sorts []Sort
	if c, ok := th.ctors[op]; ok {
		sorts = c.sorts
	} else if f, ok := th.sels[op]; ok {
		sorts = []Sort{f.ctor.sort}
	} else if f, ok := th.funs[op]; ok {
		sorts = f.args
	} else {
		s.fail("unknown function %q", op)
	}
	if len(a) != len(sorts) {
		s.fail("%d arguments, want %d", len(a), len(sorts))
	}
	var args []*Term
	for i, x := range a {
		args = append(args, evalAs(e, x, sorts[i]))
	}
	return App(op, args...)
}

func evalSeq(e *env, s *S) *Term {
	t := evalTerm(e, s)
	if !isSeq(t.Sort) {
		s.fail("not a sequence: %s", t.Sort)
	}
	return t
}

func isClass(t *Term, ci *classInfo) *Term {
	if c, ok := th.mkCtors[t.Op]; ok {
		return mkBool(c == ci)
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], isClass(t.Args[1], ci), isClass(t.Args[2], ci))
	}
	if t.Op == "nil_"+t.Sort {
		return tFalse
	}
	return Eq(App("tag_"+ci.iface, t), mkInt(int64(ci.tag)))
}

func getField(ci *classInfo, f fieldInfo, t *Term) *Term {
	if c, ok := th.mkCtors[t.Op]; ok && c == ci {
		for i, x := range ci.fields {
			if x.name == f.name {
				return t.Args[i]
			}
		}
	}
	return App(ci.getter(f.name), t)
}

func isNilTerm(t *Term) *Term {
	if _, ok := th.mkCtors[t.Op]; ok {
		return tFalse
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], isNilTerm(t.Args[1]), isNilTerm(t.Args[2]))
	}
	if n, ok := nilTerm(t.Sort); ok {
		if t.Sort == "Expr" || t.Sort == "Sel" {
			if t == n {
				return tTrue
			}
			return Eq(App("tag_"+t.Sort, t), mkInt(0))
		}
		return Eq(t, n)
	}
	panic("no nil of sort " + t.Sort)
}

func nilTerm(s Sort) (*Term, bool) {
	if s == "Any" {
		return App("ANil"), true
	}
	if _, ok := th.funs["nil_"+s]; ok {
		return App("nil_" + s), true
	}
	if _, ok := th.ctors["nil_"+s]; ok {
		return App("nil_" + s), true
	}
	return nil, false
}

// fieldOf returns a field of a struct or of what a pointer points to
func fieldOf(st *State, v Val, name string, s *S) Val {
	switch x := v.(type) {
	case *PtrV:
		if st == nil {
			s.fail("no state")
		}
		return fieldOf(st, loadPtr(st, x), name, s)
	case *IfaceV:
		return fieldOf(st, x.val, name, s)
	case *StructV:
		u := x.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return x.fields[i]
			}
		}
		// single struct fields are transparent
		if len(x.fields) == 1 {
			return fieldOf(st, x.fields[0], name, s)
		}
		// renamed fields
		if n, ok := x.typ.(*types.Named); ok {
			if names, ok := sp.classes[n.Obj().Name()]; ok && len(names) == len(x.fields) {
				for i, m := range names {
					if m == name {
						return x.fields[i]
					}
				}
			}
		}
	case *Term:
		if x.Sort == "Path" {
			if name == "selectors" {
				return App("p_sels", x)
			}
			return App("p_recs", x)
		}
		if isSeq(x.Sort) && (name == "P") {
			return x
		}
	}
	s.fail("no field %s of %s", name, valString(v))
	return nil
}

// evalView evaluates a view of an object of a class with views
func evalView(e *env, v Val, name string, s *S) Val {
	x := v
	var t types.Type
	if i, ok := x.(*IfaceV); ok {
		t = i.typ
		x = i.val
	}
	if it, ok := x.(*IterV); ok {
		o := e.st.heap[it.obj]
		return o.val.(*StructV).fields[map[string]int{"rem": 0, "cur": 1}[name]]
	}
	if t == nil {
		if p, ok := x.(*PtrV); ok {
			t = types.NewPointer(e.st.heap[p.obj].typ)
		} else if sv, ok := x.(*StructV); ok {
			t = sv.typ
		} else {
			s.fail("no view of %s", valString(v))
		}
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || sp.views[n.Obj().Name()] == nil {
		panic(unsupported("no view for " + t.String()))
	}
	body := sp.views[n.Obj().Name()][name]
	if body == nil {
		s.fail("no view %s of %s", name, t)
	}
	sv, ok := x.(*StructV)
	if !ok {
		sv = loadPtr(e.st, x.(*PtrV)).(*StructV)
	}
	n2 := &env{vars: map[string]Val{}, st: e.st}
	u := sv.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		n2.vars[u.Field(i).Name()] = sv.fields[i]
	}
	if names, ok := sp.classes[n.Obj().Name()]; ok && len(names) == len(sv.fields) {
		for i, m := range names {
			if _, ok := n2.vars[m]; !ok {
				n2.vars[m] = sv.fields[i]
			}
		}
	}
	return evalS(n2, body)
}
