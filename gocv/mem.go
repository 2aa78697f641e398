package main

import (
	"fmt"
	"go/types"
)

// unsupported is the panic value for constructs outside of the subset
type unsupported string

// IterV is an iterator of which only the interface contract is known. Its
// object has a StructV with the fields rem, cur and ok
type IterV struct{ obj int }

var anyType = types.NewInterfaceType(nil, nil)

func zeroVal(t types.Type) Val {
	if isTreeType(t) {
		return App("nil_Tree")
	}
	if isNamed(t, "strings", "Builder") {
		return &StructV{typ: t, fields: []Val{mkStr("")}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return App("i2f", mkInt(0))
		case u.Info()&types.IsString != 0:
			return mkStr("")
		}
	case *types.Slice:
		return nilSlice(t)
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrayV{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, zeroVal(u.Elem()))
		}
		return a
	case *types.Pointer:
		return &PtrV{typ: t}
	case *types.Signature:
		return &FuncNil{}
	case *types.Map:
		return &MapV{typ: t}
	case *types.Interface:
		if s, ok := sortOfType(t); ok {
			n, _ := nilTerm(s)
			if n != nil {
				return n
			}
		}
		return &IfaceV{iface: t}
	}
	panic(unsupported("zero value of " + t.String()))
}

func nilSlice(t types.Type) *SliceV {
	es := elemSortOf(t)
	if es == "" {
		return &SliceV{typ: t, off: mkInt(0), len: mkInt(0), isNil: tTrue, exact: true}
	}
	return &SliceV{typ: t, off: mkInt(0), len: mkInt(0), content: Empty(es), isNil: tTrue, exact: true}
}

func elemSortOf(slice types.Type) Sort {
	s, ok := sortOfType(slice)
	if !ok {
		return ""
	}
	return elemSort(s)
}

// symVal makes an unknown value of a type
func symVal(st *State, t types.Type, name string, fresh_ bool) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isTreeType(t) {
			break
		}
		so, ok := sortOfType(t)
		if !ok {
			panic(unsupported("unknown value of " + t.String()))
		}
		q := fresh(name, so)
		b := &Backing{external: !fresh_, esort: elemSort(so), name: name}
		assumeLen(st, q)
		return &SliceV{typ: t, back: st.newBack(b), off: mkInt(0), len: Len(q), content: q, isNil: isNilSeq(st, q), exact: false}
	case *types.Struct:
		if so, ok := sortOfType(t); ok && so != "Seg" && so != "Path" {
			return fresh(name, so)
		}
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, symVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), fresh_))
		}
		return s
	case *types.Pointer:
		if isTreeType(t) {
			break
		}
		o := &Obj{typ: u.Elem(), external: !fresh_, name: name}
		o.val = symVal(st, u.Elem(), name, fresh_)
		return &PtrV{obj: st.alloc(o), typ: t}
	case *types.Array:
		a := &ArrayV{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, symVal(st, u.Elem(), fmt.Sprintf("%s.%d", name, i), fresh_))
		}
		return a
	case *types.Interface:
		if isNamed(t, "gojsonpath", "iterator") {
			o := &Obj{name: name, val: &StructV{typ: types.NewStruct(nil, nil), fields: []Val{fresh(name+".rem", "LSeg"), fresh(name+".cur", "Seg"), tFalse}}, writable: true}
			return &IterV{obj: st.alloc(o)}
		}
	}
	so, ok := sortOfType(t)
	if !ok {
		panic(unsupported("unknown value of " + t.String()))
	}
	v := fresh(name, so)
	if so == "Int" {
		st.assume(typeRange(t, v))
	}
	return fromTerm(st, v, t)
}

// assumeLen: no slice has more than 2^62 elements
func assumeLen(st *State, q *Term) {
	st.assume(Le(Len(q), mkInt(1<<62)))
}

func isNilSeq(st *State, q *Term) *Term {
	n := fresh("isnil", "Bool")
	st.assume(Implies(n, Eq(Len(q), mkInt(0))))
	return n
}

func typeRange(t types.Type, v *Term) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return tTrue
	}
	switch b.Kind() {
	case types.Int32:
		return And(Le(mkInt(-1<<31), v), Le(v, mkInt(1<<31-1)))
	case types.Uint8:
		return And(Le(mkInt(0), v), Le(v, mkInt(255)))
	case types.Int, types.Int64:
		return inRange(v)
	case types.UntypedRune, types.UntypedInt:
		return tTrue
	}
	return inRange(v)
}

// fromTerm converts a term to a value of a Go type
func fromTerm(st *State, t *Term, typ types.Type) Val {
	if isTreeType(typ) {
		return t
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		b := &Backing{external: true, esort: elemSort(t.Sort), name: "slice"}
		if strings_HasEmpty(t) {
			return &SliceV{typ: typ, off: mkInt(0), len: mkInt(0), content: t, isNil: tTrue, exact: true}
		}
		assumeLen(st, t)
		return &SliceV{typ: typ, back: st.newBack(b), off: mkInt(0), len: Len(t), content: t, isNil: isNilSeq(st, t)}
	case *types.Struct:
		if isNamed(typ, "gojsonpath", "Segment") {
			return &StructV{typ: typ, fields: []Val{App("seg_node", t), App("seg_typ", t), App("seg_name", t), App("seg_idx", t)}}
		}
		if isNamed(typ, "gojsonpath", "Path") {
			f := &StructV{typ: typ}
			for i := 0; i < u.NumFields(); i++ {
				f.fields = append(f.fields, fromTerm(st, App([]string{"p_sels", "p_recs"}[i], t), u.Field(i).Type()))
			}
			return f
		}
		if u.NumFields() == 1 {
			return &StructV{typ: typ, fields: []Val{fromTerm(st, t, u.Field(0).Type())}}
		}
		if isNamed(typ, "gojsonpath", "nodeValue") {
			return &StructV{typ: typ, fields: []Val{App("an_n", t), App("an_d", t)}}
		}
	}
	return t
}

func strings_HasEmpty(t *Term) bool { return len(t.Op) > 7 && t.Op[:7] == "qempty_" }

// classVal makes the struct of class ci for an interface value
func classVal(st *State, ci *classInfo, t *Term) *StructV {
	i := 0
	var build func(typ types.Type) *StructV
	build = func(typ types.Type) *StructV {
		s := &StructV{typ: typ}
		u, ok := typ.Underlying().(*types.Struct)
		if !ok {
			return s
		}
		for k := 0; k < u.NumFields(); k++ {
			ft := u.Field(k).Type()
			if _, isS := ft.Underlying().(*types.Struct); isS {
				if _, single := sortOfType(ft); !single {
					s.fields = append(s.fields, build(ft))
					continue
				}
			}
			f := ci.fields[i]
			i++
			g := getField(ci, f, t)
			if f.sort == "Int" {
				st.assume(inRange(g))
			}
			s.fields = append(s.fields, fromTerm(st, g, ft))
		}
		return s
	}
	return build(ci.named)
}

// ---- memory ----

func getPath(v Val, path []int) Val {
	for _, i := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.fields[i]
		case *ArrayV:
			v = x.elems[i]
		default:
			panic(unsupported("field of " + valString(v)))
		}
	}
	return v
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *StructV:
		n := &StructV{typ: x.typ, fields: append([]Val{}, x.fields...)}
		n.fields[path[0]] = setPath(x.fields[path[0]], path[1:], nv)
		return n
	case *ArrayV:
		n := &ArrayV{typ: x.typ, elems: append([]Val{}, x.elems...)}
		n.elems[path[0]] = setPath(x.elems[path[0]], path[1:], nv)
		return n
	}
	panic(unsupported("store into " + valString(v)))
}

func loadPtr(st *State, p *PtrV) Val {
	if p.slice != nil {
		e := At(sliceContent(st, p.slice), p.index)
		v := fromTerm(st, e, p.slice.typ.Underlying().(*types.Slice).Elem())
		if len(p.path) > 0 {
			return getPath(v, p.path)
		}
		return v
	}
	if p.obj == 0 {
		panic(unsupported("nil pointer"))
	}
	o := st.heap[p.obj]
	if o == nil {
		panic(unsupported("dangling pointer"))
	}
	return getPath(o.val, p.path)
}

// storePtr stores without checks
func storePtr(st *State, p *PtrV, v Val) {
	o := *st.heap[p.obj]
	o.val = setPath(o.val, p.path, v)
	st.heap[p.obj] = &o
	st.writes[p.obj] = true
}

// sliceContent returns the present elements of a slice
func sliceContent(st *State, s *SliceV) *Term {
	if s.content == nil {
		panic(unsupported("content of " + s.typ.String()))
	}
	if s.back == 0 || st == nil {
		return s.content
	}
	b := st.backs[s.back]
	if b == nil {
		return s.content
	}
	c := s.content
	for _, w := range b.writes[min(s.stamp, len(b.writes)):] {
		end := Add(s.off, s.len)
		if quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Lt(w.pos, end))) {
			continue // behind the slice
		}
		if w.elem && w.gen == s.gen {
			if quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Lt(w.pos, s.off))) {
				// within the slice, or behind it
				if quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Le(end, w.pos))) {
					c = Upd(c, Sub(w.pos, s.off), w.val)
					continue
				}
				c = Ite(Lt(w.pos, end), Upd(c, Sub(w.pos, s.off), w.val), c)
				continue
			}
		}
		if w.all && w.gen == s.gen && w.pos == s.off && (Len(w.val) == s.len || quickUnsat(append(st.pc[:len(st.pc):len(st.pc)], Not(Eq(Len(w.val), s.len))))) {
			c = w.val
			continue
		}
		// unknown overlap
		n := fresh("overwritten", c.Sort)
		st.assume(Eq(Len(n), Len(c)))
		c = n
	}
	return c
}

// current returns the slice with its present elements
func current(st *State, s *SliceV) *SliceV {
	if s.back == 0 || s.content == nil {
		return s
	}
	b := st.backs[s.back]
	if b == nil || s.stamp == len(b.writes) {
		return s
	}
	n := *s
	n.content = sliceContent(st, s)
	n.stamp = len(b.writes)
	return &n
}

func (st *State) addWrite(back int, w writeRec) {
	b := *st.backs[back]
	b.writes = append(b.writes[:len(b.writes):len(b.writes)], w)
	st.backs[back] = &b
	st.bwrites[back] = true
}

func nilIface(v Val) bool {
	i, ok := v.(*IfaceV)
	return ok && i.typ == nil
}
