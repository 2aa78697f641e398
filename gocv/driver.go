package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// needRole is the panic value for a recursive function without a contract
type needRole struct{ fn *ssa.Function }

// traceOf is the ghost variable which has the paths given to a callback
var traceOf = map[string]string{"internal": "T", "escaping": "U"}

// ---- globals ----

var globalObjs = map[*ssa.Global]int{}
var globalHeap = map[int]*Obj{}
var globalBacks = map[int]*Backing{}

// initGlobals executes the initialization of the package
func initGlobals() error {
	steps := 0
	st := &State{heap: map[int]*Obj{}, backs: map[int]*Backing{}, ghost: map[string]*Term{}, writes: map[int]bool{}, bwrites: map[int]bool{}, gwrites: map[string]bool{}, steps: &steps}
	var gs []*ssa.Global
	for _, m := range pr.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	for _, g := range gs {
		t := deref(g.Type())
		o := &Obj{typ: t, name: g.Name()}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			o.val = zeroVal(t)
		}()
		globalObjs[g] = st.alloc(o)
	}
	v := newVerifier("package initialization", nil)
	v.quiet = 1
	var err error
	done := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					err = fmt.Errorf("package initialization: %s", string(u))
					return
				}
				panic(r)
			}
		}()
		v.runFunc(st, pr.pkg.Func("init"), nil, nil, func(s *State, _ []Val) {
			if done {
				panic(unsupported("initialization branches"))
			}
			done = true
			st = s
		})
	}()
	if err == nil && !done {
		err = fmt.Errorf("package initialization does not end")
	}
	for id, o := range st.heap {
		n := *o
		n.external = true
		globalHeap[id] = &n
	}
	for id, b := range st.backs {
		n := *b
		n.external = true
		n.ownedLen = nil
		globalBacks[id] = &n
	}
	globalFacts = st.pc
	return err
}

var globalFacts []*Term

// ---- verification of a function ----

type fnResult struct {
	Name        string
	Contract    string
	Obls        []obligation
	Unsupported string
	Returns     int
	Inlined     []string
	Contracts   []string
	External    []string
	Roles       []string
	Vacuous     bool
	Ms          int64
	Notes       []string
	Calls       [][2]string // the contracts of callers and callees
}

func newVerifier(name string, fn *ssa.Function) *verifier {
	return &verifier{name: name, fn: fn, deadline: time.Now().Add(fnTime), usedC: map[string]bool{}, usedExt: map[string]bool{}, fnList: map[string]bool{}}
}

var fnTime = 150 * time.Second

// task is a function to verify
type task struct {
	fn *ssa.Function
	c  *contract
}

// verifyFn verifies a function against its contract
func verifyFn(t task) (res *fnResult) {
	t0 := time.Now()
	fn, c := t.fn, t.c
	name := fnName(fn)
	res = &fnResult{Name: name}
	if c != nil {
		res.Contract = c.name
	} else {
		c = &contract{name: name + " (safety)", callback: map[string]string{}}
		for _, p := range fn.Params {
			c.params = append(c.params, p.Name())
		}
	}
	v := newVerifier(name, fn)
	v.self = c
	retry := map[*ssa.Function]int{}
	defer func() {
		for n := range v.fnList {
			res.Inlined = append(res.Inlined, n)
		}
		for n := range v.usedC {
			res.Contracts = append(res.Contracts, n)
			res.Calls = append(res.Calls, [2]string{c.name, n})
		}
		for n := range v.usedExt {
			res.External = append(res.External, n)
		}
		sort.Strings(res.Inlined)
		sort.Strings(res.Contracts)
		sort.Strings(res.External)
		res.Ms = time.Since(t0).Milliseconds()
	}()
	for {
		var need *needRole
		v.obls, v.notes = nil, nil
		res.Returns = 0
		res.Unsupported = ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case unsupported:
						res.Unsupported = string(r)
					case needRole:
						need = &r
					case stopPath:
					case string: // of the specification
						res.Unsupported = r
					default:
						if os.Getenv("GOCV_TRACE") != "" {
							panic(r)
						}
						res.Unsupported = fmt.Sprintf("internal error: %v", r)
					}
				}
			}()
			v.verify(res, fn, c)
		}()
		if need == nil {
			break
		}
		// try the roles for the recursive function
		if roleOf[need.fn] != nil || retry[need.fn] > 0 {
			res.Unsupported = "recursive function without contract: " + fnName(need.fn)
			break
		}
		retry[need.fn]++
		ok := false
		for _, r := range sp.roles {
			roleOf[need.fn] = r
			sub := verifyFn(task{need.fn, r})
			if sub.Unsupported == "" && allOK(sub.Obls) {
				res.Roles = append(res.Roles, fnName(need.fn)+" as "+r.name)
				res.Roles = append(res.Roles, sub.Roles...)
				res.Calls = append(res.Calls, sub.Calls...)
				extraObls = append(extraObls, sub.Obls...)
				ok = true
				break
			}
			if os.Getenv("GOCV_ROLES") != "" {
				fmt.Println("role", r.name, "for", fnName(need.fn), sub.Unsupported)
				for _, o := range sub.Obls {
					if !o.OK {
						fmt.Println("   failed", o.Kind, o.What, o.Path)
					}
				}
			}
			delete(roleOf, need.fn)
		}
		if !ok {
			res.Unsupported = "recursive function without contract: " + fnName(need.fn)
			break
		}
	}
	v.discharge()
	res.Obls = append(v.obls, extraObls...)
	extraObls = nil
	res.Notes = v.notes
	return res
}

var extraObls []obligation

func allOK(os []obligation) bool {
	for _, o := range os {
		if !o.OK {
			return false
		}
	}
	return true
}

// discharge proves the obligations
func (v *verifier) discharge() {
	var wg sync.WaitGroup
	sem := make(chan bool, workers)
	failed := map[bool]int{}
	var mu sync.Mutex
	for i := range v.obls {
		o := &v.obls[i]
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			first := contains(obsKinds, o.Kind)
			skip := failed[first] >= 3 && !allObls
			mu.Unlock()
			if skip {
				o.Solver = "skipped"
				return
			}
			r := prove(o.pc, o.goal)
			o.OK, o.Solver, o.Ms = r.ok, r.solver, float64(r.dur.Microseconds())/1000
			if !r.ok {
				mu.Lock()
				failed[first]++
				if dbgDir != "" {
					v.dumpFailure(o, r)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

var workers = 8
var allObls bool

// obsKinds are the kinds of obligations a property consists of, if not all:
// failures of others do not keep these from being looked at
var obsKinds []string

func (v *verifier) dumpFailure(o *obligation, r proofResult) {
	var f strings.Builder
	fmt.Fprintf(&f, "; %s: %s: %s\n; path %s\n; goal %s\n", o.Fn, o.Kind, o.What, o.Path, o.goal)
	for _, t := range o.pc {
		fmt.Fprintf(&f, "; pc %s\n", t)
	}
	f.WriteString(pool.preamble)
	script(&f, r.query)
	f.WriteString("(check-sat)\n")
	dbgF++
	os.WriteFile(fmt.Sprintf("%s/fail-%s-%d.smt2", dbgDir, sanitize(v.name), dbgF), []byte(f.String()), 0o644)
}

func newState() *State {
	steps := 0
	st := &State{heap: map[int]*Obj{}, backs: map[int]*Backing{}, ghost: map[string]*Term{}, writes: map[int]bool{}, bwrites: map[int]bool{}, gwrites: map[string]bool{}, steps: &steps}
	st.ghost["T"] = fresh("T0", "Q_Q_Seg")
	st.ghost["U"] = fresh("U0", "Q_Q_Seg")
	for _, f := range globalFacts {
		st.assume(f)
	}
	return st
}

func (v *verifier) verify(res *fnResult, fn *ssa.Function, c *contract) {
	st := newState()
	e := &env{vars: map[string]Val{}, st: st}
	var args, bindings []Val
	if c.role != "" {
		args, bindings = v.setupRole(st, fn, c, e)
	} else {
		if len(c.params) != len(fn.Params) {
			panic(unsupported("contract has other parameters"))
		}
		for i, p := range fn.Params {
			x := v.setupParam(st, c, c.params[i], p.Type())
			args = append(args, x)
			e.vars[c.params[i]] = x
			if i == 0 && c.iface != "" {
				ci, ok := pr.classOf(p.Type())
				if !ok {
					panic(unsupported("receiver " + p.Type().String()))
				}
				var fs []*Term
				for _, f := range ci.fields {
					fs = append(fs, fresh(f.name, f.sort))
				}
				self := App(ci.mk(), fs...)
				sv := classVal(st, ci, self)
				args[0] = sv
				if ci.ptr {
					args[0] = &PtrV{obj: st.alloc(&Obj{typ: ci.named, val: sv, external: true, name: ci.name}), typ: p.Type()}
				}
				e.vars[c.params[0]] = self
			}
		}
	}
	if !v.verifyBody(st, e, c, fn, args, bindings, &res.Returns) {
		res.Vacuous = true
	}
}

// verifyBody runs a function from the state in which the contract allows it
// to be called. It tells if there is such a state
func (v *verifier) verifyBody(st *State, e *env, c *contract, fn *ssa.Function, args, bindings []Val, returns *int) bool {
	// what may be modified
	for _, m := range c.modifies {
		if p, ok := evalS(e, m.List[0]).(*PtrV); ok && p.obj != 0 {
			o := *st.heap[p.obj]
			o.writable = true
			st.heap[p.obj] = &o
		}
	}
	for _, m := range c.clobbers {
		if s, ok := evalS(e, m).(*SliceV); ok && s.back != 0 {
			b := *st.backs[s.back]
			b.ownedLen = Add(s.off, s.len)
			st.backs[s.back] = &b
		}
	}
	for _, r := range c.requires {
		st.assume(evalAs(e, r, "Bool"))
	}
	nonvacuous := feasible(st) && !proveLight(st.pc)
	entry := st.clone()
	outer := v.measure
	defer func() { v.measure = outer }()
	v.measure = nil
	if termination() {
		v.measure = measureOf(e, c)
	}
	v.runFunc(st, fn, args, bindings, func(s *State, rs []Val) {
		*returns++
		v.atReturn(s, entry, e, c, fn, args, rs)
	})
	return nonvacuous
}

// termination tells if the obligations that loops and recursion end matter
func termination() bool { return contains(obsKinds, "decreases") }

// measureOf is the measure of a contract, in the state of a call
func measureOf(e *env, c *contract) []*Term {
	var ts []*Term
	for _, m := range c.measure {
		ts = append(ts, evalAs(e, m, "Int"))
	}
	return ts
}

// lexLess tells if a measure is less than another one, in lexicographic order
func lexLess(a, b []*Term) *Term {
	if len(a) == 0 || len(b) == 0 {
		return tFalse
	}
	return Or(And(Le(mkInt(0), b[0]), Lt(a[0], b[0])), And(Eq(a[0], b[0]), lexLess(a[1:], b[1:])))
}

// setupParam makes the value of a parameter
func (v *verifier) setupParam(st *State, c *contract, name string, t types.Type) Val {
	if mode, ok := c.callback[name]; ok {
		x := mkVar("cb_"+name, "Fun")
		st.ghost["cbmode:"+x.Name] = mkVar(mode, "Bool")
		return x
	}
	return symVal(st, t, name, false)
}

func (v *verifier) atReturn(st, entry *State, pre *env, c *contract, fn *ssa.Function, args, rs []Val) {
	if !feasible(st) {
		return
	}
	e := &env{vars: map[string]Val{}, st: st, old: entry}
	for k, x := range pre.vars {
		e.vars[k] = x
	}
	for i, r := range rs {
		n := fmt.Sprintf("r%d", i)
		if i < len(c.results) {
			n = c.results[i]
		}
		e.vars[n] = r
		v.checkIter(st, r)
		for _, f := range c.fresh {
			if f == n {
				ok := ownArrays(st, r)
				v.oblige(st, "frame", "result "+n+" has an array of its own", mkBool(ok))
			}
		}
	}
	for _, s := range c.determines {
		st.assume(evalAs(e, s, "Bool"))
	}
	for _, s := range c.ensures {
		v.oblige(st, "ensures", s.String(), evalAs(e, s, "Bool"))
	}
	for _, f := range c.ensuresFor {
		n := &env{vars: map[string]Val{}, st: st, old: entry}
		for k, x := range e.vars {
			n.vars[k] = x
		}
		for _, a := range f.vars {
			n.vars[a.List[0].Atom] = fresh("for."+a.List[0].Atom, specSort(a.List[1]))
		}
		v.oblige(st, "ensures", f.body.String(), evalAs(n, f.body, "Bool"))
	}
	// only what the contract names is modified
	mods := map[int][][]string{}
	for _, m := range c.modifies {
		if p, ok := evalS(pre, m.List[0]).(*PtrV); ok && p.obj != 0 {
			var fs []string
			for _, f := range m.List[1:] {
				fs = append(fs, f.Atom)
			}
			mods[p.obj] = append(mods[p.obj], fs)
		}
	}
	for obj, ms := range mods {
		o, eo := st.heap[obj], entry.heap[obj]
		sv, ok := o.val.(*StructV)
		if !ok {
			continue
		}
		es := eo.val.(*StructV)
		u := sv.typ.Underlying().(*types.Struct)
		for i := range sv.fields {
			mod := false
			for _, m := range ms {
				if len(m) == 0 || m[0] == u.Field(i).Name() {
					mod = true
				}
			}
			if mod {
				v.checkArrays(st, sv.fields[i], es.fields[i], o.name+"."+u.Field(i).Name())
				continue
			}
			if sameVal(sv.fields[i], es.fields[i]) {
				continue
			}
			v.oblige(st, "frame", o.name+"."+u.Field(i).Name()+" is not changed", Eq(v.toTerm(st, sv.fields[i], ""), v.toTerm(entry, es.fields[i], "")))
		}
	}
}

// ownArrays tells if the slices in a value have arrays of their own
func ownArrays(st *State, r Val) bool {
	switch x := r.(type) {
	case *SliceV:
		return x.back == 0 || !st.backs[x.back].external && !st.backs[x.back].sealed
	case *StructV:
		for _, f := range x.fields {
			if !ownArrays(st, f) {
				return false
			}
		}
	}
	return true
}

// checkArrays: slices in modified places keep their array, or have a new one
func (v *verifier) checkArrays(st *State, x, old Val, what string) {
	switch x := x.(type) {
	case *StructV:
		o, ok := old.(*StructV)
		if !ok {
			return
		}
		for i := range x.fields {
			v.checkArrays(st, x.fields[i], o.fields[i], what)
		}
	case *SliceV:
		o := old.(*SliceV)
		ok := x.back == 0 || x.back == o.back && x.off == o.off || !st.backs[x.back].external && !st.backs[x.back].sealed
		v.oblige(st, "frame", "array of "+what, mkBool(ok))
	}
}

// checkIter: an iterator which is returned has its invariant
func (v *verifier) checkIter(st *State, r Val) {
	i, ok := r.(*IfaceV)
	if !ok || i.typ == nil || !isNamed(i.iface, "gojsonpath", "iterator") {
		return
	}
	n, ok := deref(i.typ).(*types.Named)
	if !ok {
		return
	}
	if p, ok := i.val.(*PtrV); ok {
		o := st.heap[p.obj]
		v.oblige(st, "frame", "the iterator is new", mkBool(o != nil && !o.external))
	}
	if inv := sp.classinv[n.Obj().Name()]; inv != nil {
		v.oblige(st, "invariant", "of "+n.Obj().Name()+": "+inv.String(), evalAs(viewEnv(st, i.val, n), inv, "Bool"))
	}
}

func viewEnv(st *State, x Val, n *types.Named) *env {
	sv, ok := x.(*StructV)
	if !ok {
		sv = loadPtr(st, x.(*PtrV)).(*StructV)
	}
	e := &env{vars: map[string]Val{}, st: st}
	u := sv.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		e.vars[u.Field(i).Name()] = sv.fields[i]
	}
	if names, ok := sp.classes[n.Obj().Name()]; ok && len(names) == len(sv.fields) {
		for i, m := range names {
			if _, ok := e.vars[m]; !ok {
				e.vars[m] = sv.fields[i]
			}
		}
	}
	return e
}

// verifyIter verifies the methods of an iterator class against its views
func verifyIter(fn *ssa.Function) *fnResult {
	t0 := time.Now()
	name := fnName(fn)
	res := &fnResult{Name: name, Contract: "iterator." + fn.Name()}
	v := newVerifier(name, fn)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case unsupported:
					res.Unsupported = string(r)
				case string:
					res.Unsupported = r
				case stopPath:
				default:
					res.Unsupported = fmt.Sprintf("internal error: %v", r)
				}
			}
		}()
		st := newState()
		rt := fn.Params[0].Type()
		n := deref(rt).(*types.Named)
		if sp.views[n.Obj().Name()] == nil {
			panic(unsupported("no views for " + n.Obj().Name()))
		}
		recv := symVal(st, rt, "it", false)
		if p, ok := recv.(*PtrV); ok {
			o := *st.heap[p.obj]
			o.writable = true
			st.heap[p.obj] = &o
		}
		view := func(st *State, name string) Val {
			return evalView(&env{vars: map[string]Val{}, st: st}, recv, name, &S{Atom: name})
		}
		inv := func(st *State) *Term {
			if s := sp.classinv[n.Obj().Name()]; s != nil {
				return evalAs(viewEnv(st, recv, n), s, "Bool")
			}
			return tTrue
		}
		st.assume(inv(st))
		args := []Val{recv}
		var seg *PtrV
		never := false
		if fn.Name() == "item" {
			seg = symVal(st, fn.Params[1].Type(), "seg", false).(*PtrV)
			o := *st.heap[seg.obj]
			o.writable = true
			o.val = zeroVal(o.typ)
			st.heap[seg.obj] = &o
			args = append(args, seg)
			ok := toTerm(st, view(st, "ok"), "Bool", nil)
			never = ok == tFalse // the iterator is always at its end
			st.assume(ok)
		}
		res.Vacuous = !never && proveLight(st.pc)
		entry := st.clone()
		v.runFunc(st, fn, args, nil, func(st *State, rs []Val) {
			res.Returns++
			v.oblige(st, "invariant", "of "+n.Obj().Name(), inv(st))
			rem, cur := toTerm(entry, view(entry, "rem"), "LSeg", nil), toTerm(entry, view(entry, "cur"), "Seg", nil)
			if fn.Name() == "next" {
				more := v.toTerm(st, rs[0], "Bool")
				v.oblige(st, "ensures", "next tells if an element remains", Eq(more, Not(App("is-LNil", rem))))
				ok := toTerm(st, view(st, "ok"), "Bool", nil)
				v.oblige(st, "ensures", "next moves to the first remaining element", Implies(more, And(ok,
					Eq(toTerm(st, view(st, "rem"), "LSeg", nil), App("l_tl", rem)),
					Eq(toTerm(st, view(st, "cur"), "Seg", nil), App("l_hd", rem)))))
				return
			}
			v.oblige(st, "ensures", "item gives the current element", Eq(v.toTerm(st, loadPtr(st, seg), "Seg"), cur))
			v.oblige(st, "ensures", "item does not move", And(
				Eq(toTerm(st, view(st, "rem"), "LSeg", nil), rem),
				Eq(toTerm(st, view(st, "cur"), "Seg", nil), cur)))
		})
	}()
	v.discharge()
	res.Obls = v.obls
	for n := range v.fnList {
		res.Inlined = append(res.Inlined, n)
	}
	sort.Strings(res.Inlined)
	res.Ms = time.Since(t0).Milliseconds()
	return res
}

// ---- roles ----

// roleKind classifies a parameter or captured variable by its type
func roleKind(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		if isNamed(p.Elem(), "gojsonpath", "context") {
			return "ctx"
		}
		return ""
	}
	if isNamed(t, "gojsonpath", "Path") {
		return "path"
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Int {
		return "int"
	}
	if s, ok := t.Underlying().(*types.Signature); ok {
		if s.Params().Len() == 1 && s.Results().Len() == 0 && isNamed(s.Params().At(0).Type(), "gojsonpath", "DocPath") {
			return "cb"
		}
	}
	return ""
}

var roleParam = map[string]string{"ctx": "ctx", "path": "path", "ix": "int", "capture": "cb"}

// roleArgs gives the values of the parameters of a role contract for a call
func roleArgs(st *State, fn *ssa.Function, c *contract, args, bindings []Val) ([]Val, bool) {
	found := map[string]Val{}
	put := func(t types.Type, x Val) {
		k := roleKind(t)
		if k == "" {
			if p, ok := t.(*types.Pointer); ok {
				if pv, ok := x.(*PtrV); ok && pv.obj != 0 {
					if k = roleKind(p.Elem()); k != "" {
						x = loadPtr(st, pv)
					}
				}
			}
		}
		if k == "" {
			return
		}
		if _, dup := found[k]; dup {
			panic(unsupported("several parameters for the role " + c.name))
		}
		found[k] = x
	}
	for i, p := range fn.Params {
		put(p.Type(), args[i])
	}
	for i, p := range fn.FreeVars {
		put(p.Type(), bindings[i])
	}
	var out []Val
	for _, p := range c.params {
		x, ok := found[roleParam[p]]
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

// setupRole makes the parameters and captured variables of a function with a role
func (v *verifier) setupRole(st *State, fn *ssa.Function, c *contract, e *env) (args, bindings []Val) {
	mk := func(t types.Type) (Val, bool) {
		k := roleKind(t)
		for _, p := range c.params {
			if roleParam[p] == k {
				if e.vars[p] != nil {
					panic(unsupported("several parameters for the role " + c.name))
				}
				e.vars[p] = v.setupParam(st, c, p, t)
				return e.vars[p], true
			}
		}
		return nil, false
	}
	for _, p := range fn.Params {
		x, ok := mk(p.Type())
		if !ok {
			panic(unsupported("role of parameter " + p.Name()))
		}
		args = append(args, x)
	}
	self := &ClosureV{fn: fn}
	for _, p := range fn.FreeVars {
		t := p.Type()
		if x, ok := mk(t); ok {
			bindings = append(bindings, x)
			continue
		}
		pt, ok := t.(*types.Pointer)
		if !ok {
			panic(unsupported("role of captured variable " + p.Name()))
		}
		o := &Obj{typ: pt.Elem(), external: true, name: p.Name()}
		if sig, ok := pt.Elem().Underlying().(*types.Signature); ok && types.Identical(sig, fn.Signature) {
			o.val = self
		} else if x, ok := mk(pt.Elem()); ok {
			o.val = x
		} else {
			panic(unsupported("role of captured variable " + p.Name()))
		}
		bindings = append(bindings, &PtrV{obj: st.alloc(o), typ: t})
	}
	self.bindings = bindings
	for _, p := range c.params {
		if e.vars[p] == nil {
			panic(unsupported("no parameter for the role " + c.name))
		}
	}
	return
}

// closureLoop calls a closure for each element of seq
func (v *verifier) closureLoop(st *State, in *ssa.Call, cb *ClosureV, seq *Term, mode string, k func(st *State)) {
	saved, had := st.ghost["C"]
	st.ghost["C"] = seq
	what := "calls of " + fnName(cb.fn)
	v.cutLoop(st, []Val{mkInt(0)}, []string{"k"}, what, func(st *State, pv []Val, probing bool, back func(*State, []Val)) {
		i := pv[0].(*Term)
		st.assume(Le(mkInt(0), i))
		st.assume(Le(i, Len(seq)))
		v.fork(st, Lt(i, Len(seq)), "callback", func(st *State) {
			p := At(seq, i)
			assumeLen(st, p)
			pt := cb.fn.Params[0].Type()
			b := &Backing{external: mode == "internal", esort: "Seg", name: "path given to the callback"}
			sv := &SliceV{typ: pt.Underlying().(*types.Struct).Field(0).Type(), back: st.newBack(b), off: mkInt(0), len: Len(p), content: p, isNil: tFalse}
			arg := &StructV{typ: pt, fields: []Val{sv}}
			v.callFn(st, in, cb.fn, []Val{arg}, cb.bindings, func(st *State, _ []Val) {
				back(st, []Val{Add(i, mkInt(1))})
			})
		}, func(st *State) {
			if probing {
				return
			}
			st.assume(Eq(i, Len(seq)))
			if had {
				st.ghost["C"] = saved
			} else {
				delete(st.ghost, "C")
			}
			k(st)
		})
	})
}

// ---- lemmas ----

type lemmaResult struct {
	Name   string
	OK     bool
	Cases  int
	Ms     int64
	Solver string
}

// proveLemma proves a lemma from the axioms and the lemmas before it
func proveLemma(l *lemma) lemmaResult {
	t0 := time.Now()
	old := pool
	pool = &solverPool{preamble: th.preamble(l.order, l.name, l.scope)}
	memoQ = sync.Map{}
	revealed = map[string]bool{}
	for _, r := range l.reveal {
		revealed[r] = true
	}
	defer func() { revealed = map[string]bool{}; pool.closeAll(); pool = old; memoQ = sync.Map{} }()
	// the names, and so the search, do not depend on the lemmas before
	tt.mu.Lock()
	names := tt.fresh
	tt.fresh = map[string]int{}
	tt.mu.Unlock()
	defer func() { tt.mu.Lock(); tt.fresh = names; tt.mu.Unlock() }()
	m := map[int]*Term{}
	for _, x := range l.vars {
		m[x.ID] = fresh(x.Name, x.Sort)
	}
	var pc []*Term
	if l.induct != nil {
		n := subst(l.induct, m)
		for _, h := range l.hyp {
			hm := map[int]*Term{}
			for i, x := range l.vars {
				hm[x.ID] = m[x.ID]
				if i < len(h) {
					hm[x.ID] = subst(h[i], m)
				}
			}
			hn := subst(l.induct, hm)
			pc = append(pc, Implies(And(Le(mkInt(0), hn), Lt(hn, n)), subst(l.body, hm)))
		}
	}
	goal := subst(l.body, m)
	cases := [][]*Term{nil}
	for _, s := range l.split {
		s = subst(s, m)
		var n [][]*Term
		for _, c := range cases {
			n = append(n, append(c[:len(c):len(c)], s), append(c[:len(c):len(c)], Not(s)))
		}
		cases = n
	}
	res := lemmaResult{Name: l.name, OK: true, Cases: len(cases)}
	v := newVerifier("lemma "+l.name, nil)
	for _, c := range cases {
		q := append(pc[:len(pc):len(pc)], c...)
		prems := []*Term{}
		g := goal
		// premises become assumptions
		if g.Op == "or" {
			var pos []*Term
			for _, a := range g.Args {
				if a.Op == "not" {
					prems = append(prems, a.Args[0])
				} else {
					pos = append(pos, a)
				}
			}
			g = Or(pos...)
		}
		v.obls = append(v.obls, obligation{Fn: v.name, Kind: "lemma", What: l.name, goal: g, pc: append(q, prems...)})
	}
	v.discharge()
	res.OK = allOK(v.obls)
	for _, o := range v.obls {
		res.Solver = o.Solver
	}
	res.Ms = time.Since(t0).Milliseconds()
	return res
}

var _ = token.NoPos
