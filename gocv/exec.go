package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type obligation struct {
	Fn     string
	Kind   string
	What   string
	OK     bool
	Solver string
	Ms     float64
	Path   string
	goal   *Term
	pc     []*Term
}

// verifier verifies one function
type verifier struct {
	measure []*Term // of what is left to do, at entry
	fn       *ssa.Function
	name     string
	obls     []obligation
	quiet    int
	retEnv   func(st *State, res []Val)
	deadline time.Time
	steps    int
	depth    int
	paths    int
	notes    []string
	failFast bool
	assumes  map[string]*contract // contracts used for calls
	usedC    map[string]bool
	usedExt  map[string]bool
	self     *contract
	fnList   map[string]bool // functions inlined
	noCons   bool
}

type K func(st *State, res []Val)

func (v *verifier) note(f string, a ...any) { v.notes = append(v.notes, fmt.Sprintf(f, a...)) }

func (v *verifier) oblige(st *State, kind, what string, goal *Term) bool {
	if v.quiet > 0 {
		st.assume(goal)
		return true
	}
	// proved later, by discharge
	v.obls = append(v.obls, obligation{Fn: v.name, Kind: kind, What: what, Path: strings.Join(st.path, " "), goal: goal, pc: st.pc[:len(st.pc):len(st.pc)]})
	st.assume(goal)
	return true
}

var dbgF int

// feasible tells if the path condition is not known to be contradictory
func feasible(st *State) bool { return !quickUnsat(st.pc) }

func (v *verifier) fork(st *State, c *Term, label string, yes, no func(st *State)) {
	if c == tTrue {
		yes(st)
		return
	}
	if c == tFalse {
		no(st)
		return
	}
	a := st.clone()
	a.assume(c)
	n := Not(c)
	b := st
	fa := !quickUnsat(a.pc)
	if !fa {
		b.assume(n)
		no(b)
		return
	}
	b.assume(n)
	fb := !quickUnsat(b.pc)
	if fb {
		a.path = append(a.path, label+"+")
		yes(a)
		b.path = append(b.path, label+"-")
		no(b)
		return
	}
	yes(a)
}

func (v *verifier) pos(in ssa.Instruction) string {
	p := pr.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		return ""
	}
	f := p.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---- running ----

func (v *verifier) runFunc(st *State, fn *ssa.Function, args []Val, bindings []Val, k K) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	if len(st.frames) > 12 {
		panic(unsupported("calls nested too deeply"))
	}
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, depth: len(st.frames)}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[p] = bindings[i]
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], f)
	v.runBlock(st, fn.Blocks[0], nil, func(st *State, res []Val) {
		st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
		k(st, res)
	})
}

func (v *verifier) runBlock(st *State, b, prev *ssa.BasicBlock, k K) {
	fr := st.top()
	// left the body of a loop which is only probed?
	for _, lc := range fr.loops {
		if lc.probing && !lc.body[b] {
			lc.onExit(st)
			return
		}
	}
	// phis
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	vals := make([]Val, len(phis))
	if len(phis) > 0 {
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
			}
		}
		for i, p := range phis {
			vals[i] = v.val(st, p.Edges[pi])
		}
	}
	if lp := loopAt(b); lp != nil {
		if lc := fr.loops[b]; lc != nil && prev != nil && lp.body[prev] {
			if lc.onBack != nil {
				lc.onBack(st, vals)
				return
			}
			// unrolling
			lc2 := *lc
			lc2.count++
			if lc2.count > 70 {
				panic(unsupported("loop unrolled too often in " + fr.fn.Name()))
			}
			fr.loops[b] = &lc2
		} else if lc == nil {
			v.enterLoop(st, lp, phis, vals, k)
			return
		}
	}
	for i, p := range phis {
		fr.regs[p] = vals[i]
	}
	v.runInstrs(st, b, len(phis), k)
}

func (v *verifier) runInstrs(st *State, b *ssa.BasicBlock, i int, k K) {
	for ; i < len(b.Instrs); i++ {
		v.steps++
		if v.steps%64 == 0 && time.Now().After(v.deadline) {
			panic(unsupported("time limit"))
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Jump:
			v.runBlock(st, b.Succs[0], b, k)
			return
		case *ssa.If:
			c := v.term(st, in.Cond, "Bool")
			lbl := v.pos(condInstr(in))
			v.fork(st, c, lbl, func(st *State) { v.runBlock(st, b.Succs[0], b, k) }, func(st *State) { v.runBlock(st, b.Succs[1], b, k) })
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, v.val(st, r))
			}
			for _, lc := range st.top().loops {
				if lc.probing {
					lc.onExit(st)
					return
				}
			}
			k(st, res)
			return
		case *ssa.Panic:
			v.oblige(st, "panic", "panic is not reached "+v.pos(in), tFalse)
			return
		case *ssa.Call:
			next := i + 1
			v.call(st, in, &in.Call, func(st *State, res Val) {
				if res != nil {
					st.top().regs[in] = res
				}
				v.runInstrs(st, b, next, k)
			})
			return
		case *ssa.TypeAssert:
			next := i + 1
			v.typeAssert(st, in, func(st *State, res Val) {
				st.top().regs[in] = res
				v.runInstrs(st, b, next, k)
			})
			return
		case *ssa.Lookup:
			next := i + 1
			v.lookup(st, in, func(st *State, res Val) {
				st.top().regs[in] = res
				v.runInstrs(st, b, next, k)
			})
			return
		case *ssa.Next:
			next := i + 1
			v.next(st, in, func(st *State, res Val) {
				st.top().regs[in] = res
				v.runInstrs(st, b, next, k)
			})
			return
		case *ssa.IndexAddr:
			next := i + 1
			v.indexAddr(st, in, func(st *State, res Val) {
				st.top().regs[in] = res
				v.runInstrs(st, b, next, k)
			})
			return
		case *ssa.Store:
			if !safely(func() { v.store(st, in) }) {
				return
			}
		case *ssa.MapUpdate:
			v.mapUpdate(st, in)
		case *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
			panic(unsupported(fmt.Sprintf("%T", in)))
		case ssa.Value:
			if !safely(func() { st.top().regs[in] = v.value(st, in) }) {
				return
			}
		default:
			panic(unsupported(fmt.Sprintf("%T", in)))
		}
	}
}

func condInstr(in *ssa.If) ssa.Instruction {
	if c, ok := in.Cond.(ssa.Instruction); ok {
		return c
	}
	return in
}

func (v *verifier) val(st *State, x ssa.Value) Val {
	switch x := x.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &ClosureV{fn: x}
	case *ssa.Builtin:
		return &BoundFn{name: x.Name()}
	case *ssa.Global:
		if id, ok := globalObjs[x]; ok {
			useGlobals(st, id)
			return &PtrV{obj: id, typ: x.Type()}
		}
		panic(unsupported("global " + x.String()))
	}
	r, ok := st.top().regs[x]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", x.Name(), st.top().fn.Name())))
	}
	return r
}

func (v *verifier) term(st *State, x ssa.Value, so Sort) *Term {
	t := v.toTerm(st, v.val(st, x), so)
	if t.Sort != so {
		panic(unsupported(fmt.Sprintf("value of sort %s, want %s", t.Sort, so)))
	}
	return t
}

// toTerm converts a value, panicking with unsupported
func (v *verifier) toTerm(st *State, x Val, so Sort) *Term {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				panic(unsupported(s))
			}
			panic(r)
		}
	}()
	return toTerm(st, x, so, nil)
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return mkStr(constant.StringVal(c.Value))
		}
	case constant.Int, constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return fconst(c.Value)
		}
		n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if ok {
			return mkBig(n)
		}
	}
	panic(unsupported("constant " + c.String()))
}

func fconst(c constant.Value) *Term {
	i := constant.ToInt(c)
	if i.Kind() == constant.Int {
		n, ok := new(big.Int).SetString(i.ExactString(), 10)
		if ok && n.IsInt64() {
			return App("i2f", mkBig(n))
		}
	}
	return mkVar("flt_"+c.ExactString(), "Flt")
}

// value computes the instructions which neither branch nor store
func (v *verifier) value(st *State, in ssa.Value) Val {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return &PtrV{obj: st.alloc(&Obj{typ: t, val: zeroVal(t), name: in.Comment, fn: in.Parent()}), typ: in.Type()}
	case *ssa.BinOp:
		return v.binop(st, in)
	case *ssa.UnOp:
		return v.unop(st, in)
	case *ssa.FieldAddr:
		if t, ok := v.val(st, in.X).(*Term); ok && t.Sort == "Tree" {
			// an embedded struct
			if f := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field); f.Embedded() && isTreeType(f.Type()) {
				v.oblige(st, "safety", "parse tree node is not nil "+v.pos(in), Not(isNilTerm(t)))
				return t
			}
		}
		if x, ok := v.antlrField(st, in, v.val(st, in.X)); ok {
			return x
		}
		p, ok := v.val(st, in.X).(*PtrV)
		if !ok {
			panic(unsupported("field of " + valString(v.val(st, in.X))))
		}
		v.nonNil(st, p, in)
		n := *p
		n.path = append(p.path[:len(p.path):len(p.path)], in.Field)
		n.typ = in.Type()
		return &n
	case *ssa.Field:
		x := v.val(st, in.X)
		if t, ok := x.(*Term); ok {
			x = fromTerm(st, t, in.X.Type())
		}
		s, ok := x.(*StructV)
		if !ok {
			panic(unsupported("field of " + valString(x)))
		}
		return s.fields[in.Field]
	case *ssa.Index:
		x := v.val(st, in.X)
		i := v.term(st, in.Index, "Int")
		switch x := x.(type) {
		case *ArrayV:
			if i.Op == "#int" {
				return x.elems[i.Int.Int64()]
			}
		case *Term:
			if x.Sort == "Str" {
				v.oblige(st, "safety", "string index in range "+v.pos(in), And(Le(mkInt(0), i), Lt(i, strLen(x))))
				return App("str_byte", x, i)
			}
		}
		panic(unsupported("index"))
	case *ssa.Extract:
		t, ok := v.val(st, in.Tuple).(TupleV)
		if !ok {
			panic(unsupported("extract from " + valString(v.val(st, in.Tuple))))
		}
		return t[in.Index]
	case *ssa.MakeClosure:
		c := &ClosureV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bindings = append(c.bindings, v.val(st, b))
		}
		return c
	case *ssa.MakeInterface:
		return v.makeInterface(st, in.X.Type(), in.Type(), v.val(st, in.X))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var x ssa.Value
		if c, ok := in.(*ssa.ChangeInterface); ok {
			x = c.X
			if i, ok := v.val(st, x).(*IfaceV); ok && i.typ != nil {
				return v.makeInterface(st, i.typ, in.Type(), i.val)
			}
		} else {
			x = in.(*ssa.ChangeType).X
		}
		r := v.val(st, x)
		if s, ok := r.(*StructV); ok {
			return &StructV{typ: in.Type(), fields: s.fields}
		}
		if t, ok := r.(*Term); ok {
			so, _ := sortOfType(in.Type())
			if so == "Any" && t.Sort == "Err" {
				return Ite(Eq(t, App("nil_Err")), App("ANil"), App("AOther", fresh("err", "Int")))
			}
			if so != "" && t.Sort != so {
				panic(unsupported("conversion between interfaces"))
			}
		}
		return r
	case *ssa.Convert:
		return v.convert(st, in)
	case *ssa.Slice:
		return v.slice(st, in)
	case *ssa.MakeSlice:
		n := v.term(st, in.Len, "Int")
		c := v.term(st, in.Cap, "Int")
		v.oblige(st, "safety", "slice length in range "+v.pos(in), And(Le(mkInt(0), n), Le(n, c)))
		es := elemSortOf(in.Type())
		if es == "" {
			panic(unsupported("slice of " + in.Type().String()))
		}
		var q *Term
		if n.Op == "#int" && n.Int.Sign() == 0 {
			q = Empty(es)
		} else {
			q = fresh("made", seqOf(es))
			st.assume(Eq(Len(q), n))
			z := v.toTerm(st, zeroVal(in.Type().Underlying().(*types.Slice).Elem()), es)
			i := mkBV("i.mk", "Int")
			st.assume(mkQuant("forall", []*Term{i}, Implies(And(Le(mkInt(0), i), Lt(i, n)), Eq(At(q, i), z)), [][]*Term{{At(q, i)}}))
		}
		return &SliceV{typ: in.Type(), back: st.newBack(&Backing{esort: es, name: "make"}), off: mkInt(0), len: n, content: q, isNil: tFalse}
	case *ssa.MakeMap:
		return &MapV{typ: in.Type(), obj: st.alloc(&Obj{typ: in.Type(), val: TupleV{}, name: "map"})}
	case *ssa.Range:
		x := v.val(st, in.X)
		it := &ItV{}
		if t, ok := x.(*Term); ok && t.Sort == "Str" {
			it.x, it.q = t, runesOf(t)
		} else if ok && t.Sort == "Map" {
			// the keys are visited in an unknown order
			it.x, it.q = t, fresh("order", "Q_Str")
			st.assume(App("KeyOrder", it.x, it.q))
		} else {
			panic(unsupported("range over " + valString(x)))
		}
		it.obj = st.alloc(&Obj{typ: types.Typ[types.Int], val: &StructV{typ: types.NewStruct(nil, nil), fields: []Val{mkInt(0)}}, name: "range"})
		return it
	}
	panic(unsupported(fmt.Sprintf("%T", in)))
}

func strLen(s *Term) *Term {
	if s.Op == "#str" {
		return mkInt(int64(len(s.Name)))
	}
	return App("slen", s)
}

func (v *verifier) nonNil(st *State, p *PtrV, in ssa.Instruction) {
	if p.obj == 0 && p.slice == nil {
		v.oblige(st, "safety", "pointer is not nil "+v.pos(in), tFalse)
		panic(stopPath{})
	}
}

// stopPath ends the current path
type stopPath struct{}

func safely(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, stop := r.(stopPath); stop {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func (v *verifier) binop(st *State, in *ssa.BinOp) Val {
	x, y := v.val(st, in.X), v.val(st, in.Y)
	if in.Op == token.EQL || in.Op == token.NEQ {
		e := v.equal(st, x, y, in.X.Type(), in.Y.Type(), in)
		if in.Op == token.NEQ {
			return Not(e)
		}
		return e
	}
	tx, ty := v.toTerm(st, x, ""), v.toTerm(st, y, "")
	switch tx.Sort {
	case "Int":
		switch in.Op {
		case token.ADD:
			return v.arith(st, Add(tx, ty), in.Type())
		case token.SUB:
			return v.arith(st, Sub(tx, ty), in.Type())
		case token.MUL:
			return v.arith(st, Mul(tx, ty), in.Type())
		case token.QUO, token.REM:
			v.oblige(st, "safety", "divisor is not zero "+v.pos(in), Not(Eq(ty, mkInt(0))))
			if in.Op == token.QUO {
				return v.arith(st, App("go_div", tx, ty), in.Type())
			}
			return App("go_rem", tx, ty)
		case token.LSS:
			return Lt(tx, ty)
		case token.LEQ:
			return Le(tx, ty)
		case token.GTR:
			return Gt(tx, ty)
		case token.GEQ:
			return Ge(tx, ty)
		}
		n := map[token.Token]string{token.AND: "int_and", token.OR: "int_or", token.XOR: "int_xor", token.SHL: "int_shl", token.SHR: "int_shr", token.AND_NOT: "int_andnot"}[in.Op]
		if n != "" {
			declFunLate(n, []Sort{"Int", "Int"}, "Int")
			return App(n, tx, ty)
		}
	case "Flt":
		switch in.Op {
		case token.ADD:
			return App("f_add", tx, ty)
		case token.SUB:
			return App("f_sub", tx, ty)
		case token.MUL:
			return App("f_mul", tx, ty)
		case token.QUO:
			return App("f_div", tx, ty)
		case token.LSS:
			return App("f_lt", tx, ty)
		case token.GTR:
			return App("f_lt", ty, tx)
		case token.LEQ:
			return App("f_le", tx, ty)
		case token.GEQ:
			return App("f_le", ty, tx)
		}
	case "Str":
		switch in.Op {
		case token.ADD:
			return strCat(tx, ty)
		case token.LSS:
			return App("s_lt", tx, ty)
		case token.GTR:
			return App("s_lt", ty, tx)
		case token.LEQ:
			return Not(App("s_lt", ty, tx))
		case token.GEQ:
			return Not(App("s_lt", tx, ty))
		}
	case "Bool":
		switch in.Op {
		case token.AND:
			return And(tx, ty)
		case token.OR:
			return Or(tx, ty)
		}
	}
	panic(unsupported(fmt.Sprintf("%s on %s", in.Op, tx.Sort)))
}

func strCat(a, b *Term) *Term {
	if a.Op == "#str" && b.Op == "#str" {
		return mkStr(a.Name + b.Name)
	}
	if a.Op == "#str" && a.Name == "" {
		return b
	}
	if b.Op == "#str" && b.Name == "" {
		return a
	}
	return App("s_cat", a, b)
}

// declFunLate is for functions which are not known to the solvers; queries
// with them are restarted with a new preamble
func declFunLate(n string, as []Sort, r Sort) {
	if _, ok := th.funs[n]; !ok {
		panic(unsupported("function " + n))
	}
}

// arith is the value of an integer operation with wrap around
func (v *verifier) arith(st *State, t *Term, typ types.Type) *Term {
	if t.Op == "#int" && t.Int.IsInt64() {
		return t
	}
	b, _ := typ.Underlying().(*types.Basic)
	if b != nil && b.Kind() != types.Int && b.Kind() != types.Int64 && b.Kind() != types.UntypedInt {
		if b.Kind() == types.Int32 {
			// runes: values are small
			if quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Not(typeRange(typ, t)))) {
				return t
			}
		}
		panic(unsupported("arithmetic on " + typ.String()))
	}
	if t.Op == "go_div" || !needsWrap(t) {
		if quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Not(inRange(t)))) {
			return t
		}
		return Wrap(t)
	}
	if quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Not(inRange(t)))) {
		return t
	}
	return Wrap(t)
}

func needsWrap(t *Term) bool { return true }

func (v *verifier) equal(st *State, x, y Val, xt, yt types.Type, in ssa.Instruction) *Term {
	if isNilVal(y) || isNilVal(x) {
		if isNilVal(x) && !isNilVal(y) {
			x, y = y, x
		}
		switch a := x.(type) {
		case *Term:
			return isNilTerm(a)
		case *SliceV:
			return a.isNil
		case *PtrV:
			return mkBool(a.obj == 0 && a.slice == nil)
		case *IfaceV:
			return mkBool(a.typ == nil)
		case *FuncNil:
			return tTrue
		case *ClosureV, *BoundFn:
			return tFalse
		case *IterV:
			return tFalse
		case *MapV:
			return mkBool(a.obj == 0 && a.keys == nil)
		}
		panic(unsupported("comparison with nil"))
	}
	switch a := x.(type) {
	case *PtrV:
		if b, ok := y.(*PtrV); ok && a.slice == nil && b.slice == nil {
			oa, ob := st.heap[a.obj], st.heap[b.obj]
			if oa != nil && ob != nil && (!oa.external || !ob.external || a.obj == b.obj) {
				return mkBool(a.obj == b.obj && fmt.Sprint(a.path) == fmt.Sprint(b.path))
			}
		}
	case *StructV:
		if b, ok := y.(*StructV); ok && len(a.fields) == len(b.fields) {
			var es []*Term
			u := a.typ.Underlying().(*types.Struct)
			for i := range a.fields {
				es = append(es, v.equal(st, a.fields[i], b.fields[i], u.Field(i).Type(), u.Field(i).Type(), in))
			}
			return And(es...)
		}
	}
	tx, ty := v.toTerm(st, x, ""), v.toTerm(st, y, "")
	if tx.Sort == "Any" || ty.Sort == "Any" {
		tx, ty = v.toTerm(st, x, "Any"), v.toTerm(st, y, "Any")
		// comparing uncomparable values panics
		v.oblige(st, "safety", "comparable values "+v.pos(in), Or(App("comparable", tx), App("comparable", ty), Not(App("same_type", tx, ty))))
		return App("any_eq", tx, ty)
	}
	if tx.Sort != ty.Sort {
		panic(unsupported("comparison of " + tx.Sort + " and " + ty.Sort))
	}
	if tx.Sort == "Flt" {
		return App("f_eq", tx, ty)
	}
	switch tx.Sort {
	case "Expr", "Sel", "Err", "Doc":
		panic(unsupported("comparison of " + tx.Sort))
	}
	return Eq(tx, ty)
}

func isNilVal(v Val) bool {
	switch a := v.(type) {
	case *Term:
		n, ok := nilTerm(a.Sort)
		return ok && a == n
	case *SliceV:
		return a.isNil == tTrue && a.back == 0
	case *PtrV:
		return a.obj == 0 && a.slice == nil
	case *IfaceV:
		return a.typ == nil
	case *FuncNil:
		return true
	case *MapV:
		return a.obj == 0 && a.keys == nil
	}
	return false
}

func (v *verifier) unop(st *State, in *ssa.UnOp) Val {
	x := v.val(st, in.X)
	switch in.Op {
	case token.MUL:
		if t, ok := x.(*Term); ok && t.Sort == "Tree" && isTreeType(in.Type()) {
			return t
		}
		p, ok := x.(*PtrV)
		if !ok {
			panic(unsupported("load from " + valString(x)))
		}
		v.nonNil(st, p, in)
		if p.antlr == "BuildParseTrees" {
			_, a := antlrAt(st, p)
			return a.build
		} else if p.antlr != "" {
			return &PtrV{obj: p.obj, typ: in.Type()}
		}
		r := loadPtr(st, p)
		if s, ok := r.(*SliceV); ok && s.back != 0 {
			// keep the content of the cell current
			c := current(st, s)
			if c != s && p.slice == nil {
				o := *st.heap[p.obj]
				o.val = setPath(o.val, p.path, c)
				st.heap[p.obj] = &o
			}
			return c
		}
		return r
	case token.NOT:
		return Not(v.toTerm(st, x, "Bool"))
	case token.SUB:
		t := v.toTerm(st, x, "")
		if t.Sort == "Flt" {
			return App("f_neg", t)
		}
		return v.arith(st, Neg(t), in.Type())
	}
	panic(unsupported("unary " + in.Op.String()))
}

func (v *verifier) makeInterface(st *State, from, to types.Type, x Val) Val {
	if t, ok := x.(*Term); ok && t.Sort == "Tree" && isTreeType(to) {
		return t
	}
	so, ok := sortOfType(to)
	if ok {
		switch so {
		case "Any":
			return v.toAny(st, from, x)
		case "Err":
			return App("SomeErr", fresh("err", "Int"))
		case "Doc":
			if t, ok := x.(*Term); ok && t.Sort == "Doc" {
				return t
			}
			return &IfaceV{iface: to, typ: from, val: x}
		case "Expr", "Sel":
			if t, ok := x.(*Term); ok && t.Sort == so {
				return t
			}
			return &IfaceV{iface: to, typ: from, val: x}
		}
	}
	return &IfaceV{iface: to, typ: from, val: x}
}

func (v *verifier) toAny(st *State, from types.Type, x Val) Val {
	if t, ok := x.(*Term); ok {
		switch t.Sort {
		case "Any":
			return t
		case "Map":
			return App("AMap", t)
		}
	}
	named := ""
	if n, ok := from.(*types.Named); ok {
		named = n.Obj().Name()
	}
	switch u := from.Underlying().(type) {
	case *types.Basic:
		if named == "" {
			switch u.Kind() {
			case types.Int:
				return App("AInt", x.(*Term))
			case types.Float64:
				return App("AFlt", x.(*Term))
			case types.Bool:
				return App("ABool", x.(*Term))
			case types.String:
				return App("AStr", x.(*Term))
			}
		}
	case *types.Slice:
		if i, ok := u.Elem().Underlying().(*types.Interface); ok && i.Empty() {
			s := x.(*SliceV)
			if b := st.backs[s.back]; b != nil && !b.external {
				// the array is shared with the value from here on
				nb := *b
				nb.sealed = true
				st.backs[s.back] = &nb
			}
			return App("AArr", v.toTerm(st, x, ""))
		}
	case *types.Struct:
		if named == "nodeValue" {
			return v.toTerm(st, x, "Any")
		}
	case *types.Map:
		return v.mapAny(st, x)
	}
	return App("AOther", fresh("other", "Int"))
}

func (v *verifier) convert(st *State, in *ssa.Convert) Val {
	x := v.val(st, in.X)
	ft, tt_ := in.X.Type().Underlying(), in.Type().Underlying()
	fb, _ := ft.(*types.Basic)
	tb, _ := tt_.(*types.Basic)
	switch {
	case fb != nil && tb != nil:
		t := v.toTerm(st, x, "")
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if tb.Kind() == types.Int || tb.Kind() == types.Int64 {
				if fb.Kind() == types.Uint64 || fb.Kind() == types.Uint {
					return Wrap(t)
				}
				return t
			}
			if tb.Kind() == types.Int32 {
				if quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Not(typeRange(in.Type(), t)))) {
					return t
				}
				return App("wrap32", t)
			}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return App("i2f", t)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return App("f2i", t)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return t
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return App("s_of_runes", Snoc(Empty("Int"), t))
		}
	case tb != nil && tb.Info()&types.IsString != 0:
		if s, ok := x.(*SliceV); ok {
			if el, ok := s.typ.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && el.Kind() == types.Int32 {
				return App("s_of_runes", v.toTerm(st, s, ""))
			}
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if sl, ok := tt_.(*types.Slice); ok {
			if el, ok := sl.Elem().Underlying().(*types.Basic); ok && el.Kind() == types.Int32 {
				q := App("runes", v.toTerm(st, x, "Str"))
				return &SliceV{typ: in.Type(), back: st.newBack(&Backing{esort: "Int", name: "runes"}), off: mkInt(0), len: Len(q), content: q, isNil: tFalse}
			}
		}
	}
	panic(unsupported(fmt.Sprintf("conversion from %s to %s", in.X.Type(), in.Type())))
}

func (v *verifier) slice(st *State, in *ssa.Slice) Val {
	x := v.val(st, in.X)
	opt := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return v.term(st, y, "Int")
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = mkInt(0)
	}
	switch x := x.(type) {
	case *Term:
		if x.Sort == "Str" {
			if hi == nil {
				hi = strLen(x)
			}
			v.oblige(st, "safety", "string slice bounds "+v.pos(in), And(Le(mkInt(0), lo), Le(lo, hi), Le(hi, strLen(x))))
			if x.Op == "#str" && lo.Op == "#int" && hi.Op == "#int" {
				a, b := lo.Int.Int64(), hi.Int.Int64()
				if 0 <= a && a <= b && b <= int64(len(x.Name)) {
					return mkStr(x.Name[a:b])
				}
			}
			if lo.Op == "#int" && lo.Int.Sign() == 0 && hi == strLen(x) {
				return x
			}
			return App("s_sub", x, lo, hi)
		}
	case *PtrV: // pointer to array
		a, ok := loadPtr(st, x).(*ArrayV)
		if !ok {
			break
		}
		n := int64(len(a.elems))
		if hi == nil {
			hi = mkInt(n)
		}
		if lo.Op != "#int" || hi.Op != "#int" {
			panic(unsupported("slice of an array with variable bounds"))
		}
		l, h := lo.Int.Int64(), hi.Int.Int64()
		at := a.typ.Underlying().(*types.Array)
		_, ok = sortOfType(at.Elem())
		if !ok && !isNamed(at.Elem(), "gojsonpath", "Path") {
			// keep the elements
			return &SliceV{typ: in.Type(), back: 0, off: mkInt(0), len: mkInt(h - l), isNil: tFalse, exact: true, elems: a.elems[l:h]}
		}
		es := elemSortOf(in.Type())
		q := Empty(es)
		for _, e := range a.elems[l:h] {
			q = Snoc(q, v.toTerm(st, e, es))
		}
		// the array must not be changed any more
		o := *st.heap[x.obj]
		o.sealed = true
		st.heap[x.obj] = &o
		return &SliceV{typ: in.Type(), back: st.newBack(&Backing{esort: es, name: "literal"}), off: mkInt(0), len: mkInt(h - l), content: q, isNil: tFalse, exact: h == n, elems: a.elems[l:h]}
	case *SliceV:
		if hi == nil {
			hi = x.len
		}
		// the capacity is not known: bounds are checked against the length
		v.oblige(st, "safety", "slice bounds "+v.pos(in), And(Le(mkInt(0), lo), Le(lo, hi), Le(hi, x.len)))
		c := v.toTerm(st, x, "")
		exact := x.exact && hi == x.len
		if mx != nil {
			v.oblige(st, "safety", "slice capacity "+v.pos(in), And(Le(hi, mx), Le(mx, x.len)))
			exact = mx == hi
		}
		n := &SliceV{typ: in.Type(), back: x.back, gen: x.gen, off: Add(x.off, lo), len: Sub(hi, lo), content: SubQ(c, lo, hi), isNil: x.isNil, exact: exact}
		if n.content.Op[:4] != "qsub" {
			n.len = Sub(hi, lo)
		}
		st.assume(Eq(Len(n.content), n.len))
		if x.back != 0 {
			n.stamp = len(st.backs[x.back].writes)
		}
		return n
	}
	panic(unsupported("slice of " + valString(x)))
}

func (v *verifier) indexAddr(st *State, in *ssa.IndexAddr, k func(*State, Val)) {
	x := v.val(st, in.X)
	i := v.term(st, in.Index, "Int")
	switch x := x.(type) {
	case *PtrV:
		if x.obj == 0 && x.slice == nil {
			v.oblige(st, "safety", "pointer is not nil "+v.pos(in), tFalse)
			return
		}
		a, ok := loadPtr(st, x).(*ArrayV)
		if !ok {
			panic(unsupported("index of " + valString(x)))
		}
		v.oblige(st, "safety", "array index in range "+v.pos(in), And(Le(mkInt(0), i), Lt(i, mkInt(int64(len(a.elems))))))
		v.concrete(st, i, 0, int64(len(a.elems)), func(st *State, n int64) {
			p := *x
			p.path = append(x.path[:len(x.path):len(x.path)], int(n))
			p.typ = in.Type()
			k(st, &p)
		})
	case *SliceV:
		v.oblige(st, "safety", "index in range "+v.pos(in), And(Le(mkInt(0), i), Lt(i, x.len)))
		if x.content == nil {
			if i.Op == "#int" && x.elems != nil {
				k(st, &PtrV{obj: st.alloc(&Obj{typ: deref(in.Type()), val: x.elems[i.Int.Int64()], external: true}), typ: in.Type()})
				return
			}
			panic(unsupported("index of " + x.typ.String()))
		}
		k(st, &PtrV{slice: x, index: i, typ: in.Type()})
	default:
		panic(unsupported("index of " + valString(x)))
	}
}

// concrete continues once for every value of an integer between lo and hi
func (v *verifier) concrete(st *State, t *Term, lo, hi int64, k func(*State, int64)) {
	if t.Op == "#int" {
		if n := t.Int.Int64(); lo <= n && n < hi {
			k(st, n)
		}
		return
	}
	for n := lo; n < hi; n++ {
		c := st
		if n < hi-1 {
			c = st.clone()
		}
		c.assume(Eq(t, mkInt(n)))
		if feasible(c) {
			k(c, n)
		}
	}
}

func (v *verifier) store(st *State, in *ssa.Store) {
	p, ok := v.val(st, in.Addr).(*PtrV)
	if !ok {
		panic(unsupported("store to " + valString(v.val(st, in.Addr))))
	}
	x := v.val(st, in.Val)
	v.storeTo(st, p, x, in)
}

func (v *verifier) storeTo(st *State, p *PtrV, x Val, in ssa.Instruction) {
	if p.slice != nil {
		s := p.slice
		et := s.typ.Underlying().(*types.Slice).Elem()
		es := elemSort(s.content.Sort)
		var t *Term
		if len(p.path) > 0 {
			t = v.toTerm(st, setPath(fromTerm(st, At(sliceContent(st, s), p.index), et), p.path, x), es)
		} else {
			t = v.toTerm(st, x, es)
		}
		pos := Add(s.off, p.index)
		v.frameWrite(st, s.back, pos, "element store "+v.pos(in))
		st.addWrite(s.back, writeRec{pos: pos, elem: true, val: t, gen: s.gen})
		return
	}
	v.nonNil(st, p, in)
	o := st.heap[p.obj]
	if o == nil {
		panic(unsupported("store to a dangling pointer"))
	}
	if a, ok := o.val.(*AntlrV); ok {
		if p.antlr != "BuildParseTrees" {
			panic(unsupported("store to a field of the parser"))
		}
		b := *a
		b.build = x.(*Term)
		n := *o
		n.val = &b
		st.heap[p.obj] = &n
		return
	}
	if o.sealed {
		panic(unsupported("store to " + o.name + " after it has been shared"))
	}
	if o.external && !o.writable {
		v.oblige(st, "frame", "no store to "+o.name+" "+v.pos(in), tFalse)
	}
	storePtr(st, p, x)
}

// frameWrite checks that an element of an array may be written
func (v *verifier) frameWrite(st *State, back int, pos *Term, what string) {
	b := st.backs[back]
	if b == nil {
		panic(unsupported("write to an unknown array"))
	}
	if b.sealed {
		v.oblige(st, "frame", "shared array "+b.name+" is not changed: "+what, tFalse)
		return
	}
	if !b.external {
		return
	}
	if b.ownedLen == nil {
		v.oblige(st, "frame", "array of "+b.name+" is not changed: "+what, tFalse)
		return
	}
	v.oblige(st, "frame", "array of "+b.name+" is only written behind its end: "+what, Ge(pos, b.ownedLen))
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// useGlobals puts the global variables into the state
func useGlobals(st *State, id int) {
	if st.heap[id] != nil {
		return
	}
	for b, bk := range globalBacks {
		if st.backs[b] == nil {
			st.backs[b] = bk
		}
	}
	for b, o := range globalHeap {
		if st.heap[b] == nil {
			st.heap[b] = o
		}
	}
}

func globalValue(st *State, g *ssa.Global) Val {
	id, ok := globalObjs[g]
	if !ok {
		panic(unsupported("global " + g.String()))
	}
	useGlobals(st, id)
	return st.heap[id].val
}
