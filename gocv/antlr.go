package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AntlrV is an object of the antlr runtime: an input stream, a lexer, a token
// stream, or a parser. Its embedded structs are taken to be the same object.
type AntlrV struct {
	kind      string
	src       *AntlrRef // what it reads
	input     *Term     // of an input stream
	listeners []Val
	build     *Term // the parser builds a tree
}

// AntlrRef names the object something reads from
type AntlrRef struct{ obj int }

// OpaqueV is a value nothing is known about
type OpaqueV struct{ typ types.Type }

func antlrAt(st *State, x Val) (int, *AntlrV) {
	if i, ok := x.(*IfaceV); ok {
		x = i.val
	}
	p, ok := x.(*PtrV)
	if !ok || p.obj == 0 || p.slice != nil {
		return 0, nil
	}
	o := st.heap[p.obj]
	if o == nil {
		return 0, nil
	}
	a, _ := o.val.(*AntlrV)
	return p.obj, a
}

// antlrField is the address of a field of an antlr object
func (v *verifier) antlrField(st *State, in *ssa.FieldAddr, x Val) (Val, bool) {
	obj, a := antlrAt(st, x)
	if a == nil {
		return nil, false
	}
	f := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)
	if f.Embedded() || f.Name() == "BuildParseTrees" {
		return &PtrV{obj: obj, typ: in.Type(), antlr: f.Name()}, true
	}
	panic(unsupported("field " + f.Name() + " of the parser"))
}

// antlr models the lexer and the parser
func (v *verifier) antlr(st *State, in *ssa.Call, fn *ssa.Function, name string, args []Val, ret func(*State, []Val)) bool {
	if !strings.Contains(name, "antlr") && !strings.Contains(name, "gojsonpath/parser.") {
		return false
	}
	mk := func(a *AntlrV) {
		t := fn.Signature.Results().At(0).Type()
		id := st.alloc(&Obj{typ: deref(t), val: a, name: a.kind})
		ret(st, []Val{&PtrV{obj: id, typ: t}})
	}
	from := func(kind string) *AntlrRef {
		o, a := antlrAt(st, args[0])
		if a == nil || a.kind != kind {
			panic(unsupported("external function " + name))
		}
		return &AntlrRef{o}
	}
	short := name[strings.LastIndex(name, ".")+1:]
	if fn.Signature.Recv() == nil {
		switch short {
		case "NewInputStream":
			mk(&AntlrV{kind: "input", input: v.toTerm(st, args[0], "Str")})
			return true
		case "NewJsonpathLexer":
			mk(&AntlrV{kind: "lexer", src: from("input")})
			return true
		case "NewCommonTokenStream":
			if c, ok := args[1].(*Term); !ok || c.Op != "#int" || c.Int.Sign() != 0 {
				return false
			}
			mk(&AntlrV{kind: "tokens", src: from("lexer")})
			return true
		case "NewJsonpathParser":
			mk(&AntlrV{kind: "parser", src: from("tokens"), build: tTrue})
			return true
		}
		return false
	}
	obj, a := antlrAt(st, args[0])
	if a == nil {
		return false
	}
	set := func(b AntlrV) {
		o := *st.heap[obj]
		o.val = &b
		st.heap[obj] = &o
		st.writes[obj] = true
	}
	switch short {
	case "RemoveErrorListeners":
		b := *a
		b.listeners = nil
		set(b)
		ret(st, nil)
		return true
	case "AddErrorListener":
		b := *a
		b.listeners = append(a.listeners[:len(a.listeners):len(a.listeners)], args[1])
		set(b)
		ret(st, nil)
		return true
	case "Path", "SimplePath":
		if a.kind != "parser" {
			return false
		}
		v.parse(st, in, fn, a, short, ret)
		return true
	}
	return false
}

// parse is a call of the parser: listeners hear of the errors in the text, if
// they listen to the lexer or the parser, whichever finds them; without errors,
// the result is a tree of the grammar
func (v *verifier) parse(st *State, in *ssa.Call, fn *ssa.Function, p *AntlrV, rule string, ret func(*State, []Val)) {
	tokens := st.heap[p.src.obj].val.(*AntlrV)
	lexer := st.heap[tokens.src.obj].val.(*AntlrV)
	input := st.heap[lexer.src.obj].val.(*AntlrV).input
	if o := st.heap[p.src.obj]; o.name == "used" {
		panic(unsupported("tokens which are read again"))
	} else {
		n := *o
		n.name = "used"
		st.heap[p.src.obj] = &n
	}
	lexErr := App("LexErr_"+rule, input)
	parErr := App("ParseErr_"+rule, input)
	tree := App("Tree_"+rule, input)
	type listen struct {
		l    Val
		errs *Term
	}
	var ls []listen
	add := func(l Val, errs *Term) {
		for i := range ls {
			if sameListener(ls[i].l, l) {
				ls[i].errs = Or(ls[i].errs, errs)
				return
			}
		}
		ls = append(ls, listen{l, errs})
	}
	for _, l := range lexer.listeners {
		add(l, lexErr)
	}
	for _, l := range p.listeners {
		add(l, parErr)
	}
	done := func(st *State) {
		if p.build == tTrue {
			st.assume(Implies(Not(Or(lexErr, parErr)), App("GoodK", tree, App("K_"+rule+"Context"))))
		} else {
			tree = fresh("tree", "Tree")
		}
		ret(st, []Val{fromTerm(st, tree, fn.Signature.Results().At(0).Type())})
	}
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(ls) {
			done(st)
			return
		}
		v.fork(st, ls[i].errs, rule+":error", func(st *State) {
			v.notify(st, in, ls[i].l, func(st *State) { rec(st, i+1) })
		}, func(st *State) { rec(st, i+1) })
	}
	rec(st, 0)
}

func sameListener(a, b Val) bool {
	x, ok := a.(*IfaceV)
	y, ok2 := b.(*IfaceV)
	return ok && ok2 && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && sameVal(x.val, y.val)
}

// notify calls a listener one or more times: before the last call, it is in
// any state
func (v *verifier) notify(st *State, in *ssa.Call, l Val, k func(*State)) {
	i, ok := l.(*IfaceV)
	if !ok || i.typ == nil {
		panic(unsupported("error listener " + valString(l)))
	}
	for _, m := range []string{"ReportAmbiguity", "ReportAttemptingFullContext", "ReportContextSensitivity"} {
		if f := v.method(i.typ, m); f != nil && f.Object() != nil && f.Object().Pkg() == pr.pkg.Pkg {
			panic(unsupported("error listener with " + m))
		}
	}
	f := v.method(i.typ, "SyntaxError")
	if f == nil {
		panic(unsupported("error listener " + i.typ.String()))
	}
	if f.Object() == nil || f.Object().Pkg() != pr.pkg.Pkg {
		k(st) // it does nothing to the variables of the package
		return
	}
	p, ok := i.val.(*PtrV)
	if !ok || p.obj == 0 || p.slice != nil || len(p.path) > 0 {
		panic(unsupported("error listener " + valString(i.val)))
	}
	o := *st.heap[p.obj]
	o.val = havocVal(st, o.val, "listener")
	st.heap[p.obj] = &o
	st.writes[p.obj] = true
	args := []Val{p}
	ps := f.Signature.Params()
	for j := 0; j < ps.Len(); j++ {
		t := ps.At(j).Type()
		if so, ok := sortOfType(t); ok && (so == "Int" || so == "Str" || so == "Any") {
			args = append(args, fresh(fmt.Sprintf("syntaxerror%d", j), so))
		} else {
			args = append(args, &OpaqueV{t})
		}
	}
	for j := range args[1:] {
		if t, ok := args[j+1].(*Term); ok && t.Sort == "Int" {
			st.assume(inRange(t))
		}
	}
	v.callFn(st, in, f, args, nil, func(st *State, _ []Val) { k(st) })
}

// method is a method of a type of the package, if it is not promoted
func (v *verifier) method(t types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(pr.pkg.Pkg, name)
	if sel == nil {
		return nil
	}
	return pr.prog.MethodValue(sel)
}
