package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var closureTab = map[int]*ClosureV{}
var closureMu sync.Mutex

func closureOf(t *Term) *ClosureV {
	closureMu.Lock()
	defer closureMu.Unlock()
	return closureTab[t.ID]
}

// external is a call of a function of another package
func (v *verifier) external(st *State, in *ssa.Call, fn *ssa.Function, args []Val, ret func(*State, []Val)) {
	name := fn.String()
	if fn.Name() == "init" && fn.Synthetic != "" {
		ret(st, nil) // initialization of an imported package
		return
	}
	v.usedExt[name] = true
	t := func(i int) *Term { return v.toTerm(st, args[i], "") }
	one := func(x Val) { ret(st, []Val{x}) }
	errv := func(ok *Term) *Term { return Ite(ok, App("nil_Err"), App("SomeErr", fresh("err", "Int"))) }
	variadic := func(i int) *Term { return v.toTerm(st, args[i], "") }
	switch name {
	case "errors.New", "fmt.Errorf":
		one(App("SomeErr", fresh("err", "Int")))
		return
	case "fmt.Sprint":
		if es, ok := seqElems(variadic(0)); ok && len(es) == 1 {
			one(App("Sprint", es[0]))
			return
		}
		one(fresh("text", "Str"))
		return
	case "fmt.Sprintf":
		one(fresh("text", "Str"))
		return
	case "strconv.Atoi":
		s := t(0)
		ok := App("atoi_ok", s)
		i := App("atoi", s)
		st.assume(inRange(i))
		ret(st, []Val{i, errv(ok)})
		return
	case "strconv.ParseFloat":
		s := t(0)
		ret(st, []Val{App("parse_float", s), errv(App("parse_float_ok", s))})
		return
	case "strconv.ParseInt":
		s, base, bits := t(0), t(1), t(2)
		i := App("parse_int", s, base, bits)
		st.assume(inRange(i))
		st.assume(Implies(Eq(bits, mkInt(32)), And(Le(mkInt(-1<<31), i), Le(i, mkInt(1<<31-1)))))
		ret(st, []Val{i, errv(App("parse_int_ok", s, base, bits))})
		return
	case "strconv.Itoa":
		one(App("itoa", t(0)))
		return
	case "strings.HasPrefix":
		one(App("has_prefix", t(0), t(1)))
		return
	case "strings.ReplaceAll":
		one(App("s_replace", t(0), t(1), t(2)))
		return
	case "strings.Replace":
		if n := t(3); n.Op == "#int" && n.Int.Sign() < 0 {
			one(App("s_replace", t(0), t(1), t(2)))
			return
		}
	case "strings.IndexAny":
		one(v.indexRune(st, t(0), []rune(t(1).Name), t(1)))
		return
	case "strings.ContainsAny":
		one(Not(Eq(v.indexRune(st, t(0), []rune(t(1).Name), t(1)), mkInt(-1))))
		return
	case "strings.IndexRune", "strings.ContainsRune", "strings.IndexByte":
		s, r := t(0), t(1)
		var x *Term
		if s.Op == "#str" {
			x = mkInt(-1)
			pos := 0
			type pr struct {
				i int
				r rune
			}
			var ps []pr
			for i, c := range s.Name {
				ps = append(ps, pr{i, c})
			}
			for i := len(ps) - 1; i >= 0; i-- {
				x = Ite(Eq(r, mkInt(int64(ps[i].r))), mkInt(int64(ps[i].i)), x)
			}
			_ = pos
		} else {
			x = App("index_rune", s, r)
		}
		if strings.HasSuffix(name, "ContainsRune") {
			one(Not(Eq(x, mkInt(-1))))
			return
		}
		one(x)
		return
	case "strings.NewReplacer":
		es, ok := seqElems(v.toTerm(st, args[0], ""))
		if ok && len(es)%2 == 0 {
			id := st.alloc(&Obj{typ: deref(fn.Signature.Results().At(0).Type()), val: TupleV{v.toTerm(st, args[0], "")}, external: false, name: "replacer", sealed: true})
			one(&PtrV{obj: id, typ: fn.Signature.Results().At(0).Type()})
			return
		}
	case "(*strings.Replacer).Replace":
		p, ok := args[0].(*PtrV)
		if ok && p.obj != 0 {
			es, _ := seqElems(st.heap[p.obj].val.(TupleV)[0].(*Term))
			one(v.replacer(st, es, t(1)))
			return
		}
	case "unicode.IsDigit":
		one(App("is_digit", t(0)))
		return
	case "unicode.IsLetter":
		one(App("is_letter", t(0)))
		return
	case "math.Pow":
		one(App("f_pow", t(0), t(1)))
		return
	case "math.Mod":
		one(App("f_mod", t(0), t(1)))
		return
	case "math.Trunc", "math.Floor", "math.Abs":
		one(App("f_"+strings.ToLower(name[5:]), t(0)))
		return
	case "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteString":
		p := args[0].(*PtrV)
		sv := loadPtr(st, p).(*StructV)
		cur := sv.fields[0].(*Term)
		a := t(1)
		if a.Sort == "Int" {
			if a.Op == "#int" {
				a = mkStr(string(rune(a.Int.Int64())))
			} else {
				a = App("s_of_runes", Snoc(Empty("Int"), a))
			}
		}
		v.storeTo(st, p, &StructV{typ: sv.typ, fields: []Val{strCat(cur, a)}}, in)
		if strings.HasSuffix(name, "Byte") {
			one(App("nil_Err"))
		} else {
			ret(st, []Val{strLen(a), App("nil_Err")})
		}
		return
	case "(*strings.Builder).String":
		one(loadPtr(st, args[0].(*PtrV)).(*StructV).fields[0])
		return
	case "(*strings.Builder).Len":
		one(strLen(loadPtr(st, args[0].(*PtrV)).(*StructV).fields[0].(*Term)))
		return
	case "(*strings.Builder).Grow":
		ret(st, nil)
		return
	}
	// Methods of parse tree nodes
	if r := fn.Signature.Recv(); r != nil && isTreeType(r.Type()) {
		if x, ok := args[0].(*Term); ok {
			v.treeCall(st, in, x, r.Type(), fn.Name(), args[1:], fn.Signature, ret)
			return
		}
	}
	if v.antlr(st, in, fn, name, args, ret) {
		return
	}
	// Other functions: pure functions of their arguments, as far as they are
	// declared
	if f, ok := th.funs["ext_"+sanitize(name)]; ok && len(f.args) == len(args) {
		var ts []*Term
		for i := range args {
			ts = append(ts, v.toTerm(st, args[i], f.args[i]))
		}
		one(App(f.name, ts...))
		return
	}
	panic(unsupported("external function " + name))
}

func (v *verifier) indexRune(st *State, s *Term, rs []rune, set *Term) *Term {
	if set.Op != "#str" {
		panic(unsupported("IndexAny with a variable set"))
	}
	return App("index_any", s, set)
}

// replacer is the result of a strings.Replacer. Replacers of single
// characters work on each character
func (v *verifier) replacer(st *State, es []*Term, s *Term) *Term {
	seqOf(seqOf("Int"))
	olds, news := Empty("Int"), Empty(seqOf("Int"))
	for i := 0; i+1 < len(es); i += 2 {
		if es[i].Op != "#str" || es[i+1].Op != "#str" || len([]rune(es[i].Name)) != 1 || !utf8.ValidString(es[i].Name+es[i+1].Name) {
			panic(unsupported("replacer"))
		}
		w := Empty("Int")
		for _, r := range es[i+1].Name {
			w = Snoc(w, mkInt(int64(r)))
		}
		olds = Snoc(olds, mkInt(int64([]rune(es[i].Name)[0])))
		news = Snoc(news, w)
	}
	return App("s_repl", s, olds, news)
}

// treeCall is a call of an accessor of a parse tree node
func (v *verifier) treeCall(st *State, in *ssa.Call, t *Term, rt types.Type, name string, args []Val, sig *types.Signature, ret func(*State, []Val)) {
	v.oblige(st, "safety", "parse tree node is not nil ("+name+") "+v.pos(in), Not(isNilTerm(t)))
	if sig.Results().Len() != 1 {
		panic(unsupported("tree method " + name))
	}
	rty := sig.Results().At(0).Type()
	so, ok := sortOfType(rty)
	if !ok {
		panic(unsupported("tree method " + name))
	}
	if so != "Tree" && so != "Str" && so != "Q_Tree" && so != "Int" {
		panic(unsupported("tree method " + name))
	}
	fname := "T_" + name
	if len(args) == 1 {
		fname += "_i"
	}
	f, ok := th.funs[fname]
	if !ok {
		panic(unsupported("tree method " + name))
	}
	ts := []*Term{t}
	for i, a := range args {
		x := v.toTerm(st, a, "")
		ts = append(ts, x)
		if f.args[i+1] != x.Sort {
			panic(unsupported("tree method " + name))
		}
	}
	r := App(fname, ts...)
	for _, c := range shapes[name] {
		e := &env{vars: map[string]Val{"t": t}, st: st}
		if !quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Not(evalAs(e, c.cond, "Bool")))) {
			continue
		}
		var try func(st *State, i int)
		try = func(st *State, i int) {
			yes := func(st *State) {
				e := &env{vars: map[string]Val{"t": t}, st: st}
				x := evalAs(e, c.alts[i].List[1], r.Sort)
				st.assume(Eq(r, x))
				for _, f := range c.alts[i].List[2:] {
					st.assume(evalAs(e, f, "Bool"))
				}
				if feasible(st) {
					ret(st, []Val{fromTerm(st, x, rty)})
				}
			}
			if i == len(c.alts)-1 {
				yes(st)
				return
			}
			v.fork(st, Eq(App("shape", t), mkInt(int64(i))), fmt.Sprintf("%s:shape%d", name, i), yes, func(st *State) { try(st, i+1) })
		}
		try(st, 0)
		return
	}
	ret(st, []Val{fromTerm(st, r, rty)})
}

// assertTree is a type assertion or type switch on a parse tree node
func (v *verifier) assertTree(st *State, x *Term, to types.Type, in *ssa.TypeAssert, test func(*Term, func(*State) Val), yes func(*State, Val), no func(*State)) {
	name := shortType(to)
	if _, isI := to.Underlying().(*types.Interface); isI {
		if in.CommaOk == false && types.Identical(in.X.Type(), to) {
			yes(st, x)
			return
		}
		f := "tree_is_" + name
		if _, ok := th.funs[f]; !ok {
			if _, ok := th.defs[f]; !ok {
				panic(unsupported("tree type " + name))
			}
		}
		test(App(f, x), func(*State) Val { return x })
		return
	}
	c, ok := th.defs["K_"+name]
	if !ok {
		panic(unsupported("tree type " + name))
	}
	_ = c
	test(Eq(App("kind", x), App("K_"+name)), func(*State) Val { return x })
}
