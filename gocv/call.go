package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *verifier) typeAssert(st *State, in *ssa.TypeAssert, k func(*State, Val)) {
	x := v.val(st, in.X)
	to := in.AssertedType
	yes := func(st *State, r Val) {
		if in.CommaOk {
			r = TupleV{r, tTrue}
		}
		k(st, r)
	}
	no := func(st *State) {
		if in.CommaOk {
			k(st, TupleV{zeroVal(to), tFalse})
			return
		}
		v.oblige(st, "safety", "type assertion to "+to.String()+" "+v.pos(in), tFalse)
	}
	test := func(c *Term, mk func(st *State) Val) {
		if !in.CommaOk {
			v.oblige(st, "safety", "type assertion to "+to.String()+" "+v.pos(in), c)
			yes(st, mk(st))
			return
		}
		v.fork(st, c, v.pos(in)+":"+shortType(to), func(st *State) { yes(st, mk(st)) }, no)
	}
	switch x := x.(type) {
	case *IfaceV:
		if x.typ == nil {
			no(st)
			return
		}
		if it, ok := to.Underlying().(*types.Interface); ok {
			if types.Implements(x.typ, it) {
				yes(st, v.makeInterface(st, x.typ, to, x.val))
			} else {
				no(st)
			}
			return
		}
		if types.Identical(x.typ, to) {
			yes(st, x.val)
		} else {
			no(st)
		}
		return
	case *Term:
		switch x.Sort {
		case "Any":
			v.assertAny(st, x, to, in, test, no)
			return
		case "Expr", "Sel":
			if _, ok := to.Underlying().(*types.Interface); ok {
				panic(unsupported("assertion to interface " + to.String()))
			}
			ci, ok := pr.classOf(to)
			if !ok || ci.iface != x.Sort {
				panic(unsupported("assertion to " + to.String()))
			}
			_, isPtr := to.(*types.Pointer)
			if isPtr != ci.ptr {
				// a pointer to a type whose values implement the interface: never stored
				// by the constructors which are modelled, except for pathExpression
				panic(unsupported("assertion to pointer " + to.String()))
			}
			test(isClass(x, ci), func(st *State) Val {
				if _, known := th.mkCtors[x.Op]; !known {
					var gs []*Term
					for _, f := range ci.fields {
						gs = append(gs, App(ci.getter(f.name), x))
					}
					st.assume(Eq(x, App(ci.mk(), gs...)))
				}
				sv := classVal(st, ci, x)
				if ci.ptr {
					return &PtrV{obj: st.alloc(&Obj{typ: ci.named, val: sv, external: true, name: ci.name}), typ: to}
				}
				return sv
			})
			return
		case "Tree":
			v.assertTree(st, x, to, in, test, yes, no)
			return
		}
	}
	panic(unsupported("type assertion on " + valString(x)))
}

func shortType(t types.Type) string {
	s := t.String()
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (v *verifier) assertAny(st *State, x *Term, to types.Type, in *ssa.TypeAssert, test func(*Term, func(*State) Val), no func(*State)) {
	c, sel := "", ""
	if n, ok := to.(*types.Named); ok && n.Obj().Name() == "nodeValue" {
		c = "ANode"
		test(App("is-ANode", x), func(st *State) Val {
			return &StructV{typ: to, fields: []Val{App("an_n", x), App("an_d", x)}}
		})
		return
	}
	if _, ok := to.(*types.Named); !ok {
		switch u := to.Underlying().(type) {
		case *types.Basic:
			switch u.Kind() {
			case types.Int:
				c, sel = "AInt", "a_i"
			case types.Float64:
				c, sel = "AFlt", "a_f"
			case types.Bool:
				c, sel = "ABool", "a_b"
			case types.String:
				c, sel = "AStr", "a_s"
			}
		case *types.Slice:
			if i, ok := u.Elem().Underlying().(*types.Interface); ok && i.Empty() {
				c, sel = "AArr", "a_l"
			}
		case *types.Map:
			if i, ok := u.Elem().Underlying().(*types.Interface); ok && i.Empty() {
				if b, ok := u.Key().(*types.Basic); ok && b.Kind() == types.String {
					c, sel = "AMap", "a_m"
				}
			}
		case *types.Interface:
			if u.Empty() {
				test(Not(App("is-ANil", x)), func(st *State) Val { return x })
				return
			}
		}
	}
	if c == "" {
		// another type: may or may not be the dynamic type
		declT := "is_other_" + sanitize(to.String())
		if x.Op == "AOther" || true {
			b := fresh(declT, "Bool")
			st.assume(Implies(b, App("is-AOther", x)))
			test(b, func(st *State) Val { return symVal(st, to, "asserted", false) })
		}
		return
	}
	test(App("is-"+c, x), func(st *State) Val {
		t := App(sel, x)
		if c == "AInt" {
			st.assume(inRange(t))
		}
		return fromTerm(st, t, to)
	})
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func (v *verifier) lookup(st *State, in *ssa.Lookup, k func(*State, Val)) {
	x := v.val(st, in.X)
	out := func(st *State, r Val, ok *Term) {
		if in.CommaOk {
			k(st, TupleV{r, ok})
		} else {
			k(st, r)
		}
	}
	switch x := x.(type) {
	case *Term:
		switch x.Sort {
		case "Str":
			i := v.term(st, in.Index, "Int")
			v.oblige(st, "safety", "string index in range "+v.pos(in), And(Le(mkInt(0), i), Lt(i, strLen(x))))
			k(st, App("str_byte", x, i))
			return
		case "Map":
			key := v.term(st, in.Index, "Str")
			has := App("map_has", x, key)
			v.fork(st, has, v.pos(in)+":has", func(st *State) { out(st, App("map_get", x, key), tTrue) }, func(st *State) { out(st, App("ANil"), tFalse) })
			return
		}
	case *MapV:
		zero := zeroVal(x.typ.Underlying().(*types.Map).Elem())
		key := v.val(st, in.Index)
		kt := v.toTerm(st, key, "")
		var tk, tv []Val
		if x.obj != 0 {
			for _, e := range st.heap[x.obj].val.(TupleV) {
				p := e.(TupleV)
				tk, tv = append(tk, p[0]), append(tv, p[1])
			}
		}
		var try func(st *State, i int)
		try = func(st *State, i int) {
			if i == len(tk) {
				out(st, zero, tFalse)
				return
			}
			v.fork(st, Eq(kt, v.toTerm(st, tk[i], "")), fmt.Sprintf("%s:key%d", v.pos(in), i), func(st *State) { out(st, tv[i], tTrue) }, func(st *State) { try(st, i+1) })
		}
		try(st, 0)
		return
	}
	panic(unsupported("lookup in " + valString(x)))
}

func (v *verifier) mapUpdate(st *State, in *ssa.MapUpdate) {
	m, ok := v.val(st, in.Map).(*MapV)
	if !ok || m.obj == 0 {
		v.oblige(st, "frame", "map is not changed "+v.pos(in), tFalse)
		return
	}
	o := *st.heap[m.obj]
	if o.external {
		v.oblige(st, "frame", "map is not changed "+v.pos(in), tFalse)
		return
	}
	key := v.val(st, in.Key)
	if t, ok := key.(*Term); !ok || t.Op != "#str" && t.Op != "#int" {
		panic(unsupported("map update with a variable key"))
	}
	es := append(TupleV{}, o.val.(TupleV)...)
	for i, e := range es {
		if e.(TupleV)[0] == key {
			es = append(es[:i], es[i+1:]...)
			break
		}
	}
	o.val = append(es, TupleV{key, v.val(st, in.Value)})
	st.heap[m.obj] = &o
	st.writes[m.obj] = true
}

func mapTerm(st *State, m *MapV) *Term {
	t := fresh("map", "Map")
	return t
}

func (v *verifier) mapAny(st *State, x Val) Val {
	if m, ok := x.(*MapV); ok {
		return App("AMap", mapTerm(st, m))
	}
	return App("AOther", fresh("other", "Int"))
}

func (v *verifier) next(st *State, in *ssa.Next, k func(*State, Val)) {
	it, ok := v.val(st, in.Iter).(*ItV)
	if !ok {
		panic(unsupported("next"))
	}
	o := *st.heap[it.obj]
	sv := o.val.(*StructV)
	pos := sv.fields[0].(*Term)
	x, q := it.x, it.q
	v.fork(st, Lt(pos, Len(q)), v.pos(in)+":next", func(st *State) {
		o.val = &StructV{typ: sv.typ, fields: []Val{Add(pos, mkInt(1))}}
		st.heap[it.obj] = &o
		st.writes[it.obj] = true
		e := At(q, pos)
		if x.Sort == "Str" {
			st.assume(App("is_rune", e))
			k(st, TupleV{tTrue, App("rune_pos", x, pos), e})
		} else {
			k(st, TupleV{tTrue, e, App("map_get", x, e)})
		}
	}, func(st *State) {
		if x.Sort == "Str" {
			k(st, TupleV{tFalse, mkInt(0), mkInt(0)})
		} else {
			k(st, TupleV{tFalse, mkStr(""), App("ANil")})
		}
	})
}

func runesOf(s *Term) *Term {
	if s.Op == "#str" && len(s.Name) <= 16 {
		q := Empty("Int")
		for _, r := range s.Name {
			q = Snoc(q, mkInt(int64(r)))
		}
		return q
	}
	return App("runes", s)
}

// ---- calls ----

func (v *verifier) call(st *State, in *ssa.Call, c *ssa.CallCommon, k func(*State, Val)) {
	ret := func(st *State, res []Val) {
		switch len(res) {
		case 0:
			k(st, nil)
		case 1:
			k(st, res[0])
		default:
			k(st, TupleV(res))
		}
	}
	if c.IsInvoke() {
		recv := v.val(st, c.Value)
		var args []Val
		for _, a := range c.Args {
			args = append(args, v.val(st, a))
		}
		v.invoke(st, in, recv, c.Value.Type(), c.Method, args, ret)
		return
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, v.val(st, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		v.builtin(st, in, f.Name(), args, c, k)
		return
	case *ssa.Function:
		v.callFn(st, in, f, args, nil, ret)
		return
	}
	switch f := v.val(st, c.Value).(type) {
	case *ClosureV:
		v.callFn(st, in, f.fn, args, f.bindings, ret)
	case *Term:
		v.callTerm(st, in, f, args, c, ret)
	case *FuncNil:
		v.oblige(st, "safety", "function is not nil "+v.pos(in), tFalse)
	default:
		panic(unsupported("call of " + valString(f)))
	}
}

func (v *verifier) invoke(st *State, in *ssa.Call, recv Val, rt types.Type, m *types.Func, args []Val, ret func(*State, []Val)) {
	switch r := recv.(type) {
	case *IfaceV:
		if r.typ == nil {
			v.oblige(st, "safety", "interface is not nil "+v.pos(in), tFalse)
			return
		}
		fn := pr.prog.LookupMethod(r.typ, m.Pkg(), m.Name())
		if fn == nil {
			panic(unsupported("no method " + m.Name()))
		}
		so, _ := sortOfType(r.iface)
		if ic := sp.icontract[so+"."+m.Name()]; ic != nil {
			v.applyContract(st, in, ic, append([]Val{v.toTerm(st, r, so)}, args...), m.Type().(*types.Signature), ret)
			return
		}
		v.callFn(st, in, fn, append([]Val{r.val}, args...), nil, ret)
		return
	case *IterV:
		v.iterCall(st, in, r, m.Name(), args, ret)
		return
	case *Term:
		if r.Sort == "Doc" {
			v.docCall(st, in, r, m.Name(), args, ret)
			return
		}
		if r.Sort == "Tree" {
			v.treeCall(st, in, r, rt, m.Name(), args, m.Type().(*types.Signature), ret)
			return
		}
		if ic := sp.icontract[r.Sort+"."+m.Name()]; ic != nil {
			v.oblige(st, "safety", "interface is not nil "+v.pos(in), Not(isNilTerm(r)))
			v.applyContract(st, in, ic, append([]Val{r}, args...), m.Type().(*types.Signature), ret)
			return
		}
		if r.Sort == "Err" && m.Name() == "Error" {
			v.oblige(st, "safety", "error is not nil "+v.pos(in), Not(isNilTerm(r)))
			ret(st, []Val{fresh("errtext", "Str")})
			return
		}
		panic(unsupported("method " + m.Name() + " of " + r.Sort))
	}
	panic(unsupported("method " + m.Name() + " of " + valString(recv)))
}

// docCall is a call of a DocModel method: they are functions
func (v *verifier) docCall(st *State, in *ssa.Call, d *Term, name string, args []Val, ret func(*State, []Val)) {
	a := func(i int, s Sort) *Term { return v.toTerm(st, args[i], s) }
	v.oblige(st, "safety", "document is not nil "+v.pos(in), Not(isNilTerm(d)))
	switch name {
	case "Root":
		ret(st, []Val{App("d_root", d)})
	case "Type":
		t := App("d_type", d, a(0, "Any"))
		ret(st, []Val{t})
	case "Len":
		t := App("d_len", d, a(0, "Any"))
		st.assume(inRange(t))
		ret(st, []Val{t})
	case "Key":
		n, key := a(0, "Any"), a(1, "Str")
		ret(st, []Val{App("d_key", d, n, key), App("d_has", d, n, key)})
	case "Keys":
		q := App("d_keys", d, a(0, "Any"))
		ret(st, []Val{fromTerm(st, q, types.NewSlice(types.Typ[types.String]))})
	case "Elem":
		n, i := a(0, "Any"), a(1, "Int")
		v.oblige(st, "safety", "Elem index in range "+v.pos(in), And(Le(mkInt(0), i), Lt(i, App("d_len", d, n))))
		ret(st, []Val{App("d_elem", d, n, i)})
	case "Value":
		ret(st, []Val{App("d_value", d, a(0, "Any"))})
	default:
		panic(unsupported("DocModel." + name))
	}
}

func (v *verifier) iterCall(st *State, in *ssa.Call, it *IterV, name string, args []Val, ret func(*State, []Val)) {
	o := *st.heap[it.obj]
	sv := o.val.(*StructV)
	rem, cur, ok := sv.fields[0].(*Term), sv.fields[1].(*Term), sv.fields[2].(*Term)
	switch name {
	case "next":
		v.fork(st, App("is-LNil", rem), v.pos(in)+":end", func(st *State) {
			n := o
			n.val = &StructV{typ: sv.typ, fields: []Val{rem, cur, tFalse}}
			st.heap[it.obj] = &n
			st.writes[it.obj] = true
			ret(st, []Val{tFalse})
		}, func(st *State) {
			n := o
			n.val = &StructV{typ: sv.typ, fields: []Val{App("l_tl", rem), App("l_hd", rem), tTrue}}
			st.heap[it.obj] = &n
			st.writes[it.obj] = true
			ret(st, []Val{tTrue})
		})
	case "item":
		v.oblige(st, "requires", "item follows a successful next "+v.pos(in), ok)
		p, isP := args[0].(*PtrV)
		if !isP || p.obj == 0 {
			panic(unsupported("item"))
		}
		old := v.toTerm(st, loadPtr(st, p), "Seg")
		v.oblige(st, "requires", "item is given an empty segment "+v.pos(in), Eq(old, App("Seg_", App("ANil"), mkInt(0), mkStr(""), mkInt(0))))
		t := deref(p.typ)
		v.storeTo(st, p, fromTerm(st, cur, t), in)
		ret(st, nil)
	default:
		panic(unsupported("iterator." + name))
	}
}

// callFn calls a function of which the code is known
func (v *verifier) callFn(st *State, in *ssa.Call, fn *ssa.Function, args, bindings []Val, ret func(*State, []Val)) {
	if fn.Pkg != pr.pkg && fn.Parent() == nil && (fn.Pkg != nil || fn.Synthetic == "") {
		v.external(st, in, fn, args, ret)
		return
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Pkg != pr.pkg {
		// wrappers, bound methods, thunks
		v.runFunc(st, fn, args, bindings, K(ret))
		return
	}
	name := fnName(fn)
	if c := v.contractFor(fn, name); c != nil {
		cargs := args
		if c.iface != "" {
			cargs = append([]Val{v.toTerm(st, args[0], c.iface)}, args[1:]...)
		}
		if c.role != "" {
			var ok bool
			cargs, ok = roleArgs(st, fn, c, args, bindings)
			if !ok {
				panic(unsupported("role " + c.role))
			}
		}
		v.applyContractFn(st, in, c, cargs, fn.Signature, args, bindings, fn, ret)
		return
	}
	for _, f := range st.frames {
		if f.fn == fn {
			panic(needRole{fn})
		}
	}
	v.fnList[name] = true
	v.runFunc(st, fn, args, bindings, K(ret))
}

var dropped = map[string]bool{} // aux contracts which are not used

func (v *verifier) contractFor(fn *ssa.Function, name string) *contract {
	if c, ok := sp.contracts[name]; ok && !dropped[name] {
		if len(c.params) == len(fn.Params) {
			return c
		}
		if !c.aux {
			panic(unsupported("contract of " + name + " has other parameters"))
		}
	}
	if c, ok := roleOf[fn]; ok {
		return c
	}
	if r := fn.Signature.Recv(); r != nil {
		if ci, ok := pr.classOf(r.Type()); ok {
			if c, ok := sp.icontract[ci.iface+"."+fn.Name()]; ok {
				return c
			}
		}
	}
	return nil
}

// roleOf is the contract of functions which are recognized by their types
var roleOf = map[*ssa.Function]*contract{}

func (v *verifier) applyContract(st *State, in *ssa.Call, c *contract, args []Val, sig *types.Signature, ret func(*State, []Val)) {
	v.applyContractFn(st, in, c, args, sig, args, nil, nil, ret)
}

func (v *verifier) applyContractFn(st *State, in *ssa.Call, c *contract, args []Val, sig *types.Signature, goArgs, bindings []Val, fn *ssa.Function, ret func(*State, []Val)) {
	defer wrapSpecPanic(c.name)
	v.usedC[c.name] = true
	e := &env{vars: map[string]Val{}, st: st}
	for i, p := range c.params {
		if i < len(args) {
			e.vars[p] = args[i]
		}
	}
	where := ""
	if in != nil {
		where = " " + v.pos(in)
	}
	for _, r := range c.requires {
		v.oblige(st, "requires", c.name+": "+r.String()+where, evalAs(e, r, "Bool"))
	}
	if v.measure != nil && len(c.measure) > 0 {
		v.oblige(st, "decreases", "call of "+c.name+" has less to do"+where, lexLess(measureOf(e, c), v.measure))
	}
	// concrete closures: their calls are a loop over the captured paths
	var cb *ClosureV
	cbMode, trace := "", ""
	for p, mode := range c.callback {
		cbMode = mode
		trace = traceOf[mode]
		x := e.vars[p]
		switch x := x.(type) {
		case *ClosureV:
			cb = x
		case *Term:
			if st.ghost["cbmode:"+x.Name] != nil && st.ghost["cbmode:"+x.Name].Name != mode {
				panic(unsupported("callback " + x.Name + " passed on with another protocol"))
			}
		case *PtrV:
			cl, ok := loadPtr(st, x).(*ClosureV)
			if !ok {
				panic(unsupported("callback"))
			}
			cb = cl
		default:
			panic(unsupported("callback " + valString(x)))
		}
	}
	old := st.clone()
	for _, m := range c.clobbers {
		s, ok := evalS(e, m).(*SliceV)
		if !ok {
			continue
		}
		if s.back != 0 && !s.exact {
			pos := Add(s.off, s.len)
			v.frameWrite(st, s.back, pos, "call of "+c.name+where)
			st.addWrite(s.back, writeRec{pos: pos, gen: newObjID()})
		}
	}
	for _, m := range c.modifies {
		v.havocPlace(st, e, m, c.name+where)
	}
	for _, g := range c.writes {
		if cb != nil && g == trace {
			continue
		}
		st.setGhost(g, fresh(g, st.ghost[g].Sort))
	}
	oldT := st.ghost[trace]
	if cb != nil {
		// the trace of this call alone
		old.ghost[trace] = Empty("Q_Seg")
		st.ghost[trace] = fresh(trace, "Q_Q_Seg")
	}
	e.old = old
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		n := fmt.Sprintf("r%d", i)
		if i < len(c.results) {
			n = c.results[i]
		}
		isFresh := false
		for _, f := range c.fresh {
			if f == n {
				isFresh = true
			}
		}
		r := symVal(st, sig.Results().At(i).Type(), n, isFresh)
		res = append(res, r)
		e.vars[n] = r
	}
	for _, s := range c.determines {
		st.assume(evalAs(e, s, "Bool"))
	}
	for _, s := range c.ensures {
		st.assume(evalAs(e, s, "Bool"))
	}
	for _, f := range c.ensuresFor {
		if len(f.pat) > 0 {
			st.assume(f.quantified(e))
		}
	}
	if cb != nil {
		seq := st.ghost[trace]
		st.ghost[trace] = oldT
		v.closureLoop(st, in, cb, seq, cbMode, func(st *State) { ret(st, res) })
		return
	}
	if !feasible(st) {
		return
	}
	ret(st, res)
}

// quantified is the clause for all values of its variables
func (f forClause) quantified(e *env) *Term {
	n := &env{vars: map[string]Val{}, st: e.st, old: e.old}
	for k, x := range e.vars {
		n.vars[k] = x
	}
	var vs []*Term
	for _, a := range f.vars {
		x := mkBV(freshName("for."+a.List[0].Atom), specSort(a.List[1]))
		vs = append(vs, x)
		n.vars[a.List[0].Atom] = x
	}
	var pats [][]*Term
	for _, p := range f.pat {
		pats = append(pats, []*Term{evalTerm(n, p)})
	}
	return mkQuant("forall", vs, evalAs(n, f.body, "Bool"), pats)
}

func wrapSpecPanic(name string) {
	if r := recover(); r != nil {
		if s, ok := r.(string); ok {
			panic(unsupported(name + ": " + s))
		}
		panic(r)
	}
}

// havocPlace gives a place (ptr field...) an unknown value
func (v *verifier) havocPlace(st *State, e *env, m *S, what string) {
	p, ok := evalS(e, m.List[0]).(*PtrV)
	if !ok || p.obj == 0 {
		panic(unsupported("modifies"))
	}
	o := st.heap[p.obj]
	if o.external && !o.writable {
		v.oblige(st, "frame", o.name+" is not changed by "+what, tFalse)
	}
	if o.sealed {
		panic(unsupported("shared object is changed by " + what))
	}
	path := append([]int{}, p.path...)
	cur := getPath(o.val, p.path)
	for _, f := range m.List[1:] {
		sv, ok := cur.(*StructV)
		if !ok {
			panic(unsupported("modifies"))
		}
		u := sv.typ.Underlying().(*types.Struct)
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f.Atom {
				path = append(path, i)
				cur = sv.fields[i]
				found = true
				break
			}
		}
		if !found {
			panic(unsupported("modifies: no field " + f.Atom))
		}
	}
	n := *o
	n.val = setPath(o.val, path, havocVal(st, cur, "mod"))
	st.heap[p.obj] = &n
	st.writes[p.obj] = true
}

// havocVal makes an unknown value like v: slices get an array which may be
// written behind its end
func havocVal(st *State, x Val, name string) Val {
	switch x := x.(type) {
	case *Term:
		return fresh(name, x.Sort)
	case *StructV:
		n := &StructV{typ: x.typ}
		for _, f := range x.fields {
			n.fields = append(n.fields, havocVal(st, f, name))
		}
		return n
	case *SliceV:
		// It has the same array, or one of its own. Taking it to be in the same
		// array is safe: writes to either are seen by both
		q := fresh(name, x.content.Sort)
		assumeLen(st, q)
		n := &SliceV{typ: x.typ, back: x.back, gen: newObjID(), off: x.off, len: Len(q), content: q, isNil: isNilSeq(st, q)}
		if x.back == 0 || x.exact {
			// of a slice without spare capacity, the array is not written by
			// appending to the value, whether it is the same or another one
			n.off = mkInt(0)
			n.back = st.newBack(&Backing{esort: elemSort(q.Sort), name: name})
		}
		n.stamp = len(st.backs[n.back].writes)
		return n
	}
	panic(unsupported("unknown value like " + valString(x)))
}

// callTerm calls a function value
func (v *verifier) callTerm(st *State, in *ssa.Call, f *Term, args []Val, c *ssa.CallCommon, ret func(*State, []Val)) {
	sig := c.Signature()
	if cl := closureOf(f); cl != nil {
		v.callFn(st, in, cl.fn, args, cl.bindings, ret)
		return
	}
	if m := st.ghost["cbmode:"+f.Name]; m != nil {
		// a callback taking a document path
		var sv *SliceV
		switch x := args[0].(type) {
		case *StructV:
			sv, _ = x.fields[0].(*SliceV)
		}
		if sv == nil {
			panic(unsupported("callback argument"))
		}
		p := v.toTerm(st, sv, "Q_Seg")
		if m.Name == "escaping" {
			ok := sv.back == 0
			if b := st.backs[sv.back]; b != nil && !b.external {
				ok = true
			}
			v.oblige(st, "frame", "the path given to the callback is not shared "+v.pos(in), mkBool(ok))
			if b := st.backs[sv.back]; b != nil {
				nb := *b
				nb.sealed = true
				nb.name = "path given to the callback"
				st.backs[sv.back] = &nb
			}
			st.setGhost("U", Snoc(st.ghost["U"], p))
		} else {
			st.setGhost("T", Snoc(st.ghost["T"], p))
		}
		ret(st, nil)
		return
	}
	v.oblige(st, "safety", "function is not nil "+v.pos(in), Not(Eq(f, App("nil_Fun"))))
	if sig.Params().Len() == 1 && sig.Results().Len() == 2 {
		if p, ok := sig.Params().At(0).Type().(*types.Pointer); ok && isNamed(p.Elem(), "gojsonpath", "context") {
			// expression given by a function
			if ic := sp.icontract["Fun.call"]; ic != nil {
				v.applyContract(st, in, ic, append([]Val{f}, args...), sig, ret)
				return
			}
		}
	}
	panic(unsupported("call of a function value " + f.String()))
}

func closureTerm(st *State, c *ClosureV) *Term {
	if t := relClosure(st, c); t != nil {
		return t
	}
	// one term for each closure
	t := mkVar(fmt.Sprintf("closure_%p", c), "Fun")
	closureMu.Lock()
	closureTab[t.ID] = c
	closureMu.Unlock()
	return t
}

func (v *verifier) builtin(st *State, in *ssa.Call, name string, args []Val, c *ssa.CallCommon, k func(*State, Val)) {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			k(st, x.len)
			return
		case *Term:
			switch x.Sort {
			case "Str":
				k(st, strLen(x))
			case "Map":
				k(st, App("map_len", x))
			default:
				panic(unsupported("len of " + x.Sort))
			}
			return
		case *MapV:
			n := 0
			if x.obj != 0 {
				n = len(st.heap[x.obj].val.(TupleV))
			}
			k(st, mkInt(int64(n)))
			return
		}
	case "cap":
		if s, ok := args[0].(*SliceV); ok {
			n := fresh("cap", "Int")
			st.assume(Le(s.len, n))
			if s.exact {
				n = s.len
			}
			k(st, n)
			return
		}
	case "append":
		k(st, v.appendOp(st, in, args))
		return
	case "copy":
		d, ok := args[0].(*SliceV)
		s, ok2 := args[1].(*SliceV)
		if ok && ok2 {
			src := v.toTerm(st, s, "")
			dst := v.toTerm(st, d, "")
			n := Ite(Le(d.len, s.len), d.len, s.len)
			if quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Not(Eq(d.len, s.len)))) {
				n = d.len
			} else {
				src = Cat(SubQ(src, mkInt(0), n), SubQ(dst, n, d.len))
			}
			if d.back != 0 {
				v.frameWrite(st, d.back, d.off, "copy "+v.pos(in))
				st.addWrite(d.back, writeRec{pos: d.off, all: true, val: src, gen: d.gen})
			}
			k(st, n)
			return
		}
	case "min", "max":
		if len(args) == 2 {
			a, b := v.toTerm(st, args[0], ""), v.toTerm(st, args[1], "")
			if a.Sort == "Int" && b.Sort == "Int" {
				if name == "min" {
					k(st, Ite(Le(a, b), a, b))
				} else {
					k(st, Ite(Le(a, b), b, a))
				}
				return
			}
		}
	case "ssa:wrapnilchk":
		k(st, args[0])
		return
	}
	panic(unsupported("builtin " + name))
}

// appendOp appends a slice to a slice
func (v *verifier) appendOp(st *State, in *ssa.Call, args []Val) Val {
	a, ok := args[0].(*SliceV)
	if !ok {
		panic(unsupported("append to " + valString(args[0])))
	}
	var add *Term
	switch b := args[1].(type) {
	case *SliceV:
		if b.content == nil || a.content == nil {
			panic(unsupported("append of " + b.typ.String()))
		}
		add = v.toTerm(st, b, "")
	default:
		panic(unsupported("append of " + valString(args[1])))
	}
	cur := v.toTerm(st, a, "")
	var c *Term
	if n, ok := seqElems(add); ok {
		c = cur
		for _, x := range n {
			c = Snoc(c, x)
		}
	} else {
		c = Cat(cur, add)
	}
	n := &SliceV{typ: a.typ, off: a.off, content: c, isNil: And(a.isNil, Eq(Len(add), mkInt(0)))}
	n.len = Len(c)
	if n.len.Op[0] == 'q' {
		st.assume(Eq(n.len, Add(a.len, Len(add))))
	}
	if Len(add) == mkInt(0) {
		r := *a
		r.content = cur
		if a.back != 0 {
			r.stamp = len(st.backs[a.back].writes)
		}
		return &r
	}
	if a.back == 0 || a.exact && !maybeEmpty(st, add) {
		// the array is copied
		n.off = mkInt(0)
		n.back = st.newBack(&Backing{esort: elemSort(c.Sort), name: "append"})
		return n
	}
	if a.exact {
		// copied unless nothing is appended; the result shares the array then, but
		// is exact as well
		n.off = mkInt(0)
		n.back = st.newBack(&Backing{external: st.backs[a.back].external, esort: elemSort(c.Sort), name: "append"})
		n.exact = false
		if !st.backs[a.back].external {
			return n
		}
		n.exact = true
		return n
	}
	pos := Add(a.off, a.len)
	v.frameWrite(st, a.back, pos, "append "+v.pos(in))
	n.gen = newObjID()
	st.addWrite(a.back, writeRec{pos: pos, gen: n.gen})
	n.back = a.back
	n.stamp = len(st.backs[a.back].writes)
	return n
}

func maybeEmpty(st *State, q *Term) bool {
	return !quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Eq(Len(q), mkInt(0))))
}

// seqElems returns the elements of a sequence of known length
func seqElems(q *Term) ([]*Term, bool) {
	var out []*Term
	for strings.HasPrefix(q.Op, "qsnoc_") {
		out = append([]*Term{q.Args[1]}, out...)
		q = q.Args[0]
	}
	if strings_HasEmpty(q) {
		return out, true
	}
	return nil, false
}
