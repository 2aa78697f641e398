package main

import (
	"fmt"
	"go/types"
)

// Closures of which the specification knows the meaning: relFun(op, l, r)
// compares l and r. The code of the closure is verified against the contract
// of function values (Fun.call) for that meaning.

var relCache = map[*ClosureV]*Term{}

func relClosure(st *State, c *ClosureV) *Term {
	if t, ok := relCache[c]; ok {
		return t
	}
	f, ok := th.funs["relFun"]
	cc := sp.icontract["Fun.call"]
	if !ok || len(f.args) != 3 || cc == nil || st == nil {
		return nil
	}
	sig := c.fn.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 || sig.Recv() != nil {
		return nil
	}
	if p, ok := sig.Params().At(0).Type().(*types.Pointer); !ok || !isNamed(p.Elem(), "gojsonpath", "context") {
		return nil
	}
	var xs []*Term
	objs := map[int]bool{}
	for _, b := range c.bindings {
		exprsIn(st, b, &xs, objs)
	}
	if len(xs) == 0 || len(xs) > 4 {
		return nil
	}
	var found *Term
	for d := 0; d < 2 && found == nil; d++ {
		for i := range xs {
			for j := range xs {
				if d == 0 && i == j || d == 1 && i != j {
					continue
				}
				for op := int64(1); op <= 4 && found == nil; op++ {
					self := App("relFun", mkInt(op), xs[i], xs[j])
					if closureIs(st, c, cc, self, objs) {
						found = self
					}
				}
			}
		}
	}
	if found != nil {
		for id := range objs {
			o := *st.heap[id]
			o.sealed = true
			st.heap[id] = &o
		}
	}
	relCache[c] = found
	return found
}

// exprsIn collects the expressions a captured value has
func exprsIn(st *State, x Val, out *[]*Term, objs map[int]bool) {
	switch x := x.(type) {
	case *Term:
		if x.Sort == "Expr" {
			for _, y := range *out {
				if y == x {
					return
				}
			}
			*out = append(*out, x)
		}
	case *IfaceV:
		if s, ok := sortOfType(x.iface); ok && s == "Expr" && x.typ != nil {
			exprsIn(st, toTerm(st, x, "Expr", nil), out, objs)
		}
	case *PtrV:
		if o := st.heap[x.obj]; o != nil && !objs[x.obj] {
			objs[x.obj] = true
			exprsIn(st, o.val, out, objs)
		}
	case *ArrayV:
		for _, e := range x.elems {
			exprsIn(st, e, out, objs)
		}
	case *StructV:
		for _, e := range x.fields {
			exprsIn(st, e, out, objs)
		}
	case *SliceV:
		if x.content != nil && x.content.Sort == "Q_Expr" {
			if es, ok := seqElems(sliceContent(st, x)); ok {
				for _, e := range es {
					exprsIn(st, e, out, objs)
				}
			}
		}
	}
}

// closureIs tells if the closure has the meaning of the function self
func closureIs(st0 *State, c *ClosureV, cc *contract, self *Term, objs map[int]bool) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported, needRole, stopPath, string:
				ok = false
			default:
				panic(fmt.Sprint(r))
			}
		}
	}()
	st := st0.clone()
	for id := range objs {
		o := *st.heap[id]
		o.external, o.writable = true, false
		st.heap[id] = &o
	}
	v := newVerifier("closure", c.fn)
	v.self = cc
	e := &env{vars: map[string]Val{}, st: st}
	e.vars[cc.params[0]] = self
	x := v.setupParam(st, cc, cc.params[1], c.fn.Params[0].Type())
	e.vars[cc.params[1]] = x
	n := 0
	v.verifyBody(st, e, cc, c.fn, []Val{x}, c.bindings, &n)
	if n == 0 {
		return false
	}
	for _, o := range v.obls {
		if o.goal == tTrue {
			continue
		}
		if !proveLight(append(o.pc[:len(o.pc):len(o.pc)], Not(o.goal))) {
			return false
		}
	}
	return true
}
