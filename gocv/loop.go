package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	body    map[*ssa.BasicBlock]bool
	probing bool
	onBack  func(st *State, phis []Val)
	onExit  func(st *State)
	count   int
}

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

var loopMemo sync.Map

// loopAt returns the natural loop with the given header
func loopAt(b *ssa.BasicBlock) *loop {
	if l, ok := loopMemo.Load(b); ok {
		if l == (*loop)(nil) {
			return nil
		}
		return l.(*loop)
	}
	body := map[*ssa.BasicBlock]bool{b: true}
	var work []*ssa.BasicBlock
	for _, p := range b.Preds {
		if b.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		loopMemo.Store(b, (*loop)(nil))
		return nil
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if body[x] {
			continue
		}
		body[x] = true
		work = append(work, x.Preds...)
	}
	l := &loop{head: b, body: body}
	loopMemo.Store(b, l)
	return l
}

// A slot is a variable changed by a loop: a leaf of a phi, an object or a
// ghost variable
type slot struct {
	h     *Term // its value at the loop header
	init  *Term
	name  string
	get   func(st *State, phis []Val) (*Term, bool) // value at the back edge
	isLen bool
}

// probeState runs the loop once from st, which is at the header with the phis
// given, and calls back for every arrival at the header
type loopRunner func(st *State, phis []Val, probing bool, back func(st *State, phis []Val))

func (v *verifier) enterLoop(st *State, lp *loop, phis []*ssa.Phi, vals []Val, k K) {
	fr := st.top()
	// The values at entry
	// Is the condition of the header constant? Then the loop is unrolled.
	if v.unrollable(st, lp, phis, vals) {
		fr.loops[lp.head] = &loopCtx{body: lp.body}
		for i, p := range phis {
			fr.regs[p] = vals[i]
		}
		v.runInstrs(st, lp.head, len(phis), func(st *State, res []Val) { k(st, res) })
		return
	}
	head := lp.head
	run := func(st *State, pv []Val, probing bool, back func(*State, []Val), k K) {
		f := st.top()
		f.loops[head] = &loopCtx{body: lp.body, probing: probing, onBack: func(st *State, pv []Val) { back(st, pv) }, onExit: func(st *State) {}}
		for i, p := range phis {
			f.regs[p] = pv[i]
		}
		v.runInstrs(st, head, len(phis), k)
	}
	var names []string
	for _, p := range phis {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		names = append(names, n)
	}
	v.cutLoop(st, vals, names, fmt.Sprintf("%s loop%d", fnName(fr.fn), head.Index), func(st *State, pv []Val, probing bool, back func(*State, []Val)) {
		kk := k
		if probing {
			kk = func(*State, []Val) {}
		}
		run(st, pv, probing, back, kk)
	})
}

// unrollable tells if the loop is over a sequence of known length
func (v *verifier) unrollable(st *State, lp *loop, phis []*ssa.Phi, vals []Val) bool {
	iff, ok := lp.head.Instrs[len(lp.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// run the header on a copy
	c := st.clone()
	f := c.top()
	for i, p := range phis {
		f.regs[p] = vals[i]
	}
	res := false
	v.quiet++
	defer func() { v.quiet-- }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupported, stopPath:
				default:
					panic(r)
				}
			}
		}()
		for _, in := range lp.head.Instrs[len(phis) : len(lp.head.Instrs)-1] {
			x, ok := in.(ssa.Value)
			if !ok {
				return
			}
			switch x := x.(type) {
			case *ssa.Call, *ssa.TypeAssert, *ssa.Lookup, *ssa.IndexAddr, *ssa.Next:
				if nx, ok := x.(*ssa.Next); ok {
					it := c.top().regs[nx.Iter].(*ItV)
					if it.x.Op == "#str" {
						res = true
					}
				}
				return
			}
			f.regs[x] = v.value(c, x)
		}
		cond := v.term(c, iff.Cond, "Bool")
		if cond == tTrue || cond == tFalse {
			res = true
			return
		}
		// a constant number of iterations left?
		if cond.Op == "not" || cond.Op == "<=" {
			_, okc := seqLenConst(st, cond)
			res = okc
		}
	}()
	return res
}

// seqLenConst: a comparison between a constant and a length which the path
// condition fixes
func seqLenConst(st *State, c *Term) (int64, bool) {
	x := c
	if x.Op == "not" {
		x = x.Args[0]
	}
	if x.Op != "<=" {
		return 0, false
	}
	d := Sub(x.Args[1], x.Args[0])
	l := lin(d)
	if len(l.atoms) != 1 {
		return 0, false
	}
	for _, a := range l.atoms {
		for _, p := range st.pc {
			if p.Op == "=" && (p.Args[0] == a && p.Args[1].Op == "#int" || p.Args[1] == a && p.Args[0].Op == "#int") {
				return 0, true
			}
		}
	}
	return 0, false
}

type cutSlots struct {
	slots  []*slot
	st     *State
	phis   []Val
	bad    []string
	shared map[int]string // new arrays of slices at the back edge
}

// cutLoop verifies a loop with inferred invariants. The runner executes the
// body, and what follows the loop if it is not probing
func (v *verifier) cutLoop(entry *State, vals []Val, names []string, what string, run loopRunner) {
	var tDone time.Time
	degraded := map[string]bool{}
	objs := map[int]bool{}
	ghosts := map[string]bool{}
	backs := map[int]bool{}
	elems := map[int]int{}
	// find what the loop changes
	for iter := 0; ; iter++ {
		if iter > 8 {
			panic(unsupported("modified variables of " + what))
		}
		cs := v.havocLoop(entry, vals, names, objs, ghosts, backs, elems, degraded)
		n := len(objs) + len(ghosts) + len(backs) + len(elems) + len(degraded)
		v.quiet++
		s := cs.st.clone()
		s.writes, s.bwrites, s.gwrites = map[int]bool{}, map[int]bool{}, map[string]bool{}
		rec := func(st *State) {
			for o := range st.writes {
				if _, ok := entry.heap[o]; ok {
					objs[o] = true
				}
			}
			for b := range st.bwrites {
				if eb, ok := entry.backs[b]; ok {
					backs[b] = true
					for _, w := range st.backs[b].writes[len(eb.writes):] {
						if w.elem || w.all {
							if g, ok := elems[b]; ok && g != w.gen {
								elems[b] = 0
							} else {
								elems[b] = w.gen
							}
						}
					}
				}
			}
			for g := range st.gwrites {
				ghosts[g] = true
			}
		}
		run(s, cs.phis, true, func(st *State, pv []Val) {
			rec(st)
			for _, sl := range cs.slots {
				if _, ok := sl.get(st, pv); !ok && !degraded[sl.name] {
					degraded[sl.name] = true
				}
			}
		})
		v.quiet--
		if len(objs)+len(ghosts)+len(backs)+len(elems)+len(degraded) == n {
			break
		}
	}
	cs := v.havocLoop(entry, vals, names, objs, ghosts, backs, elems, degraded)
	cands := v.candidates(entry, cs, degraded)
	tStart := time.Now()
	// keep those which hold at entry
	isub := map[int]*Term{}
	for _, s := range cs.slots {
		if s.init != nil {
			isub[s.h.ID] = s.init
		}
	}
	var live []*Term
	{
		keep := parallelFilter(cands, func(c *Term) bool {
			return proveQuick(entry.pc, subst(c, isub))
		})
		live = keep
	}
	tEntry := time.Now()
	nEntry := len(live)
	rounds := 0
	defer func() {
		if os.Getenv("GOCV_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "%s %s quiet %d: %d candidates, %d at entry (%v), %d live after %d rounds (%v)\n", v.name, what, v.quiet, len(cands), nEntry, tEntry.Sub(tStart), len(live), rounds, tDone.Sub(tEntry))
		}
	}()
	type back struct {
		pc  []*Term
		sub map[int]*Term
	}
	var bs []back
	for round := 0; ; round++ {
		rounds++
		if round > 40 {
			panic(unsupported("invariants of " + what))
		}
		s := cs.st.clone()
		for _, c := range live {
			s.assume(c)
		}
		alive := map[int]bool{}
		for _, c := range live {
			alive[c.ID] = true
		}
		v.quiet++
		bs = nil
		run(s, cs.phis, true, func(st *State, pv []Val) {
			if !feasible(st) {
				return
			}
			m := map[int]*Term{}
			for _, sl := range cs.slots {
				if t, ok := sl.get(st, pv); ok && t != nil {
					m[sl.h.ID] = t
				} else {
					m[sl.h.ID] = fresh("lost", sl.h.Sort)
				}
			}
			bs = append(bs, back{st.pc, m})
		})
		v.quiet--
		for _, b := range bs {
			var todo []*Term
			for _, c := range live {
				if alive[c.ID] {
					todo = append(todo, c)
				}
			}
			kept := parallelFilter(todo, func(c *Term) bool {
				g := subst(c, b.sub)
				return proveQuick(b.pc, g)
			})
			for _, c := range todo {
				alive[c.ID] = false
			}
			for _, c := range kept {
				alive[c.ID] = true
			}
		}
		var next []*Term
		for _, c := range live {
			if alive[c.ID] {
				next = append(next, c)
			}
		}
		if len(next) == len(live) {
			break
		}
		live = next
	}
	if dbgLoops {
		fmt.Printf("-- %s %s: %d candidates\n", v.name, what, len(cands))
		for _, sl := range cs.slots {
			fmt.Println("   slot:", sl.name, sl.h.Sort)
		}
		for _, c := range live {
			fmt.Println("   inv:", c)
		}
	}
	tDone = time.Now()
	// What is left to do decreases
	var rank *Term
	ends := func(r *Term, sub map[int]*Term) *Term {
		return And(Le(mkInt(0), r), Lt(subst(r, sub), r))
	}
	if v.quiet == 0 && termination() {
		for _, r := range v.rankings(cs, degraded) {
			ok := true
			for _, b := range bs {
				if ok = proveQuick(b.pc, ends(r, b.sub)); !ok {
					break
				}
			}
			if ok {
				rank = r
				break
			}
		}
		if dbgLoops {
			fmt.Println("   rank:", rank)
		}
	}
	// The invariants hold: they are obligations of the real run
	if v.quiet == 0 {
		for _, c := range live {
			v.oblige(entry.clone(), "invariant", what+" holds at entry", subst(c, isub))
		}
	}
	s := cs.st.clone()
	for _, c := range live {
		s.assume(c)
	}
	run(s, cs.phis, false, func(st *State, pv []Val) {
		if v.quiet > 0 {
			return
		}
		m := map[int]*Term{}
		for _, sl := range cs.slots {
			if t, ok := sl.get(st, pv); ok && t != nil {
				m[sl.h.ID] = t
			} else {
				m[sl.h.ID] = fresh("lost", sl.h.Sort)
			}
		}
		for _, c := range live {
			v.oblige(st.clone(), "invariant", what+" is preserved", subst(c, m))
		}
		if termination() && feasible(st) {
			g := tFalse
			if rank != nil {
				g = ends(rank, m)
			}
			v.oblige(st.clone(), "decreases", what+" ends", g)
		}
	})
}

var dbgLoops bool

func proveQuick(pc []*Term, g *Term) bool {
	if g == tTrue {
		return true
	}
	for _, t := range pc {
		if t == g {
			return true
		}
	}
	return proveLight(append(pc[:len(pc):len(pc)], Not(g)))
}

func parallelFilter(cs []*Term, f func(*Term) bool) []*Term {
	ok := make([]bool, len(cs))
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for i, c := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			ok[i] = f(c)
		}()
	}
	wg.Wait()
	var out []*Term
	for i, c := range cs {
		if ok[i] {
			out = append(out, c)
		}
	}
	return out
}

// havocLoop makes the state at the loop header, after any number of iterations
func (v *verifier) havocLoop(entry *State, vals []Val, names []string, objs map[int]bool, ghosts map[string]bool, backs map[int]bool, elems map[int]int, degraded map[string]bool) *cutSlots {
	cs := &cutSlots{st: entry.clone()}
	st := cs.st
	// arrays written by the loop: their content is unknown, where it may be written
	var bids []int
	for b := range backs {
		bids = append(bids, b)
	}
	sort.Ints(bids)
	for _, b := range bids {
		bk := st.backs[b]
		if elems[b] != 0 && !degraded[fmt.Sprintf("elements %d", b)] {
			if sl := theSlice(entry, b, elems[b]); sl != nil {
				// elements of a slice are changed in place
				c := sliceContent(entry, sl)
				h := fresh("elements", c.Sort)
				st.assume(Eq(Len(h), Len(c)))
				st.addWrite(b, writeRec{pos: sl.off, all: true, val: h, gen: sl.gen})
				name := fmt.Sprintf("elements %d", b)
				cs.slots = append(cs.slots, &slot{h: h, init: c, name: name, get: func(st *State, pv []Val) (*Term, bool) {
					return sliceContent(st, sl), true
				}})
				continue
			}
		}
		pos := mkInt(0)
		if bk.external && bk.ownedLen != nil {
			pos = bk.ownedLen
		}
		st.addWrite(b, writeRec{pos: pos, gen: newObjID()})
	}
	var leaf func(x Val, t types.Type, name string, get func(st *State, pv []Val) Val) Val
	leaf = func(x Val, t types.Type, name string, get func(st *State, pv []Val) Val) Val {
		term := func(h *Term, init *Term, so Sort) {
			cs.slots = append(cs.slots, &slot{h: h, init: init, name: name, get: func(st *State, pv []Val) (r *Term, ok bool) {
				defer func() {
					if e := recover(); e != nil {
						if _, stop := e.(stopPath); stop {
							panic(e)
						}
						r, ok = nil, false
					}
				}()
				r = toTerm(st, get(st, pv), so, nil)
				return r, r.Sort == so
			}})
		}
		switch x := x.(type) {
		case *Term:
			h := fresh(name, x.Sort)
			if x.Sort == "Int" && t != nil {
				st.assume(typeRange(t, h))
			}
			term(h, x, x.Sort)
			return h
		case *StructV:
			n := &StructV{typ: x.typ}
			u, _ := x.typ.Underlying().(*types.Struct)
			for i := range x.fields {
				fn := fmt.Sprintf("%s.%d", name, i)
				var ft types.Type
				if u != nil && i < u.NumFields() {
					fn = name + "." + u.Field(i).Name()
					ft = u.Field(i).Type()
				}
				n.fields = append(n.fields, leaf(x.fields[i], ft, fn, func(st *State, pv []Val) Val {
					y := get(st, pv)
					if tm, ok := y.(*Term); ok {
						y = fromTerm(st, tm, x.typ)
					}
					return y.(*StructV).fields[i]
				}))
			}
			return n
		case *ArrayV:
			n := &ArrayV{typ: x.typ}
			at := x.typ.Underlying().(*types.Array)
			for i := range x.elems {
				n.elems = append(n.elems, leaf(x.elems[i], at.Elem(), fmt.Sprintf("%s[%d]", name, i), func(st *State, pv []Val) Val { return get(st, pv).(*ArrayV).elems[i] }))
			}
			return n
		case *SliceV:
			if x.content == nil {
				panic(unsupported("loop variable of type " + x.typ.String()))
			}
			q := fresh(name, x.content.Sort)
			key := name + "#own"
			assumeLen(st, q)
			h := &SliceV{typ: x.typ, back: x.back, gen: newObjID(), off: x.off, len: Len(q), content: q, isNil: isNilSeq(st, q)}
			if degraded[key] {
				h.back = st.newBack(&Backing{esort: elemSort(q.Sort), name: name, external: true})
				h.off = mkInt(0)
			} else if x.back == 0 {
				h.back = st.newBack(&Backing{esort: elemSort(q.Sort), name: name})
				h.off = mkInt(0)
			}
			h.stamp = len(st.backs[h.back].writes)
			init := v.toTerm(entry, x, "")
			term(q, init, q.Sort)
			// The array of the value at the back edge must be the same one or a new one
			cs.slots = append(cs.slots, &slot{h: fresh("own", "Bool"), name: key, get: func(st *State, pv []Val) (*Term, bool) {
				y, ok := get(st, pv).(*SliceV)
				if !ok {
					return nil, false
				}
				if degraded[key] || y.back == 0 {
					return tTrue, true
				}
				if y.back == h.back {
					return tTrue, y.off == h.off
				}
				b := st.backs[y.back]
				if b.sealed || b.external {
					return nil, false
				}
				if cs.shared == nil {
					cs.shared = map[int]string{}
				}
				if o, ok := cs.shared[y.back]; ok && o != key {
					panic(unsupported("loop variables share an array: " + o + " " + key))
				}
				cs.shared[y.back] = key
				return tTrue, true
			}})
			return h
		case *IfaceV, *MapV:
			if so, ok := sortOfType(t0(t, x)); ok {
				if _, isM := x.(*MapV); !isM {
					init := v.toTerm(entry, x, so)
					h := fresh(name, so)
					term(h, init, so)
					return h
				}
			}
			return x // must not change
		case *PtrV, *ClosureV, *FuncNil, *IterV, *ItV, *BoundFn, TupleV:
			// must be the same at the back edge
			cs.slots = append(cs.slots, &slot{h: fresh("same", "Bool"), name: name + "#same", get: func(st *State, pv []Val) (*Term, bool) {
				if !sameVal(get(st, pv), x) {
					panic(unsupported("loop changes " + name))
				}
				return tTrue, true
			}})
			return x
		case nil:
			return nil
		}
		panic(unsupported("loop variable " + name + " " + valString(x)))
	}
	for i, x := range vals {
		i := i
		cs.phis = append(cs.phis, leaf(x, nil, names[i], func(st *State, pv []Val) Val { return pv[i] }))
	}
	var ids []int
	for o := range objs {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	for _, o := range ids {
		ob := *entry.heap[o]
		ob.val = leaf(ob.val, ob.typ, ob.name, func(st *State, pv []Val) Val { return st.heap[o].val })
		st.heap[o] = &ob
	}
	var gs []string
	for g := range ghosts {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		x := entry.ghost[g]
		h := fresh(g, x.Sort)
		st.ghost[g] = h
		cs.slots = append(cs.slots, &slot{h: h, init: x, name: g, get: func(st *State, pv []Val) (*Term, bool) { return st.ghost[g], true }})
	}
	return cs
}

// theSlice finds the slice with the array b, if all have the same elements
func theSlice(st *State, b, gen int) *SliceV {
	var found *SliceV
	many := false
	seen := map[int]bool{}
	var walk func(x Val, d int)
	walk = func(x Val, d int) {
		if d > 4 {
			return
		}
		switch x := x.(type) {
		case *SliceV:
			if x.back != b || x.gen != gen {
				return
			}
			if found == nil {
				found = x
			} else if found.gen != x.gen || found.off != x.off || found.len != x.len {
				many = true
			}
		case *StructV:
			for _, f := range x.fields {
				walk(f, d+1)
			}
		case *PtrV:
			if x.obj != 0 && !seen[x.obj] {
				seen[x.obj] = true
				if o := st.heap[x.obj]; o != nil {
					walk(o.val, d+1)
				}
			}
			if x.slice != nil {
				walk(x.slice, d+1)
			}
		case *IfaceV:
			walk(x.val, d+1)
		case *ClosureV:
			for _, y := range x.bindings {
				walk(y, d+1)
			}
		case TupleV:
			for _, y := range x {
				walk(y, d+1)
			}
		}
	}
	for _, fr := range st.frames {
		for _, x := range fr.regs {
			walk(x, 0)
		}
	}
	if many {
		return nil
	}
	return found
}

func t0(t types.Type, x Val) types.Type {
	if i, ok := x.(*IfaceV); ok && i.iface != nil {
		return i.iface
	}
	if m, ok := x.(*MapV); ok {
		return m.typ
	}
	return t
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.obj == y.obj && fmt.Sprint(x.path) == fmt.Sprint(y.path) && x.slice == y.slice && x.index == y.index
	case *ClosureV:
		y, ok := b.(*ClosureV)
		if !ok || x.fn != y.fn || len(x.bindings) != len(y.bindings) {
			return false
		}
		for i := range x.bindings {
			if !sameVal(x.bindings[i], y.bindings[i]) {
				return false
			}
		}
		return true
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.obj == y.obj
	case *ItV:
		y, ok := b.(*ItV)
		return ok && x.obj == y.obj
	case *FuncNil:
		_, ok := b.(*FuncNil)
		return ok
	case *Term:
		return a == b
	}
	return false
}

// rankings makes candidates for what decreases with each iteration of a loop
func (v *verifier) rankings(cs *cutSlots, degraded map[string]bool) []*Term {
	var out []*Term
	scope := v.scope(cs.st, cs)
	mod := map[int]bool{}
	var ints []*Term
	for _, s := range cs.slots {
		if s.init == nil || degraded[s.name] {
			continue
		}
		mod[s.h.ID] = true
		switch {
		case s.h.Sort == "Int":
			ints = append(ints, s.h)
		case s.h.Sort == "LSeg":
			out = append(out, App("LLen", s.h))
		case isSeq(s.h.Sort):
			out = append(out, Len(s.h))
		}
	}
	var sorts []string
	for so := range scope {
		sorts = append(sorts, string(so))
	}
	sort.Strings(sorts)
	for _, x := range sorts {
		so := Sort(x)
		for _, t := range scope[so] {
			if isSeq(so) {
				for _, h := range ints {
					out = append(out, Add(Sub(Len(t), h), mkInt(1)))
				}
			}
			if so == "Str" && !mod[t.ID] {
				for _, h := range ints {
					out = append(out, Add(Sub(strLen(t), h), mkInt(1)), Add(Sub(Len(App("runes", t)), h), mkInt(1)))
				}
			}
			if so == "Int" && !mod[t.ID] {
				for _, h := range ints {
					out = append(out, Add(Sub(t, h), mkInt(1)))
				}
			}
		}
	}
	for _, h := range ints {
		out = append(out, Add(h, mkInt(1)))
	}
	return out
}

// candidates makes candidate invariants for a loop
func (v *verifier) candidates(entry *State, cs *cutSlots, degraded map[string]bool) []*Term {
	var out []*Term
	seen := map[int]bool{}
	add := func(t *Term) {
		if t == tTrue || t == tFalse || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		out = append(out, t)
	}
	scope := v.scope(cs.st, cs)
	mod := map[Sort][]*Term{}
	inits := map[int]*Term{}
	for _, s := range cs.slots {
		if s.init == nil || degraded[s.name] {
			continue
		}
		mod[s.h.Sort] = append(mod[s.h.Sort], s.h)
		inits[s.h.ID] = s.init
		add(Eq(s.h, s.init))
		if s.h.Sort == "Int" {
			add(Le(s.init, s.h))
			add(Le(s.h, s.init))
			add(Le(mkInt(0), s.h))
			add(Le(mkInt(-1), s.h))
		}
		if isSeq(s.h.Sort) {
			add(Eq(Len(s.h), Len(s.init)))
			add(Le(Len(s.init), Len(s.h)))
		}
	}
	// bounds
	var bounds []*Term
	for so, ts := range scope {
		if isSeq(so) {
			for _, t := range ts {
				if inits[t.ID] == nil {
					bounds = append(bounds, Len(t))
				}
			}
		}
		if so == "Int" {
			for _, t := range ts {
				if inits[t.ID] == nil && t.Op != "#int" {
					bounds = append(bounds, t)
				}
			}
		}
	}
	for _, h := range mod["Int"] {
		for _, b := range bounds {
			add(Le(h, b))
			add(Lt(h, b))
			add(Le(Add(h, mkInt(1)), b))
		}
	}
	for so, hs := range mod {
		if !isSeq(so) {
			continue
		}
		for _, q := range hs {
			for _, h := range mod["Int"] {
				// one element per iteration
				add(Eq(Sub(Len(q), Len(inits[q.ID])), Sub(h, inits[h.ID])))
			}
		}
	}
	for _, t := range sp.loopTmpl {
		v.instantiate(t, scope, mod, inits, add)
	}
	if len(out) > 600 {
		out = out[:600]
	}
	return out
}

// instantiate adds the instances of a template
func (v *verifier) instantiate(t *loopTmpl, scope, mod map[Sort][]*Term, inits map[int]*Term, add func(*Term)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(string); !ok {
				panic(r)
			}
		}
	}()
	if len(t.fns) > 0 {
		ok := false
		for _, f := range t.fns {
			if f == v.name {
				ok = true
			}
		}
		if !ok {
			return
		}
	}
	e := &env{vars: map[string]Val{}}
	n := 0
	distinct := map[int]bool{} // different variables for different slots
	var rec func(i int, e *env)
	rec = func(i int, e *env) {
		if n > 400 {
			return
		}
		if i == len(t.vars) {
			n++
			add(evalAs(e, t.body, "Bool"))
			return
		}
		name := t.vars[i].Name
		for j := len(name) - 1; j >= 0; j-- {
			if name[j] == '.' {
				name = name[j+1:]
				break
			}
		}
		var cs []*Term
		switch t.kind[i] {
		case "mod":
			cs = mod[t.vars[i].Sort]
		case "modp":
			for _, m := range mod[t.vars[i].Sort] {
				cs = append(cs, m, Add(m, mkInt(1)), Sub(m, mkInt(1)))
			}
		case "const", "constp":
			for _, x := range scope[t.vars[i].Sort] {
				if inits[x.ID] == nil {
					cs = append(cs, x)
					if t.kind[i] == "constp" {
						cs = append(cs, Add(x, mkInt(1)))
					}
				}
			}
		default:
			cs = scope[t.vars[i].Sort]
		}
		for _, c := range cs {
			if t.kind[i] == "mod" && distinct[c.ID] {
				continue
			}
			e2 := e.bind(name, c)
			if x := inits[c.ID]; x != nil {
				e2 = e2.bind(name+"0", x)
			} else {
				e2 = e2.bind(name+"0", c)
			}
			if t.kind[i] == "mod" {
				distinct[c.ID] = true
			}
			rec(i+1, e2)
			if t.kind[i] == "mod" {
				delete(distinct, c.ID)
			}
		}
	}
	rec(0, e)
}

// scope collects the terms in scope by their sort
func (v *verifier) scope(st *State, cs *cutSlots) map[Sort][]*Term {
	out := map[Sort][]*Term{}
	seen := map[int]bool{}
	add := func(t *Term) {
		if t == nil || seen[t.ID] || t.Op == "#str" || t.Op == "true" || t.Op == "false" {
			return
		}
		if t.Op == "#int" {
			return
		}
		seen[t.ID] = true
		out[t.Sort] = append(out[t.Sort], t)
	}
	objSeen := map[int]bool{}
	var walk func(x Val, depth int)
	walk = func(x Val, depth int) {
		if depth > 5 {
			return
		}
		switch x := x.(type) {
		case *Term:
			add(x)
		case *StructV:
			if isNamed(x.typ, "gojsonpath", "Segment") {
				func() {
					defer func() { recover() }()
					add(toTerm(st, x, "Seg", nil))
				}()
			}
			for _, f := range x.fields {
				walk(f, depth+1)
			}
		case *ArrayV:
			for _, f := range x.elems {
				walk(f, depth+1)
			}
		case *SliceV:
			if x.content != nil {
				func() {
					defer func() { recover() }()
					add(toTerm(st, x, "", nil))
				}()
			}
		case *PtrV:
			if x.obj != 0 && !objSeen[x.obj] && x.slice == nil {
				objSeen[x.obj] = true
				if o := st.heap[x.obj]; o != nil {
					walk(o.val, depth+1)
				}
			}
		case *IfaceV:
			if x.typ != nil {
				walk(x.val, depth+1)
			}
		case *ClosureV:
			for _, b := range x.bindings {
				walk(b, depth+1)
			}
		case *IterV:
			walk(st.heap[x.obj].val, depth+1)
		case *ItV:
			walk(st.heap[x.obj].val, depth+1)
			walk(x.q, depth+1)
		case TupleV:
			for _, f := range x {
				walk(f, depth+1)
			}
		}
	}
	for _, s := range cs.slots {
		if s.init != nil {
			add(s.h)
		}
	}
	fr := st.top()
	// parameters and registers, in a fixed order
	var regs []ssa.Value
	for r := range fr.regs {
		regs = append(regs, r)
	}
	sort.Slice(regs, func(i, j int) bool { return regs[i].Name() < regs[j].Name() })
	for _, p := range fr.fn.Params {
		walk(fr.regs[p], 0)
	}
	for _, r := range regs {
		walk(fr.regs[r], 0)
	}
	for _, p := range cs.phis {
		walk(p, 0)
	}
	for _, g := range sortedKeys(st.ghost) {
		if len(g) > 7 && g[:7] == "cbmode:" {
			continue
		}
		add(st.ghost[g])
	}
	// parameters of the function under verification
	if len(st.frames) > 1 {
		f0 := st.frames[0]
		for _, p := range f0.fn.Params {
			walk(f0.regs[p], 0)
		}
	}
	return out
}
