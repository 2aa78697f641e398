package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: a *Term or one of the types below
type Val interface{}

type StructV struct {
	typ    types.Type
	fields []Val
}
type ArrayV struct {
	typ   types.Type
	elems []Val
}
type PtrV struct {
	obj  int // 0: nil
	path []int
	// element of a slice
	slice *SliceV
	index *Term
	// nil-ness of a pointer which may be nil
	typ types.Type
	// field of an object of the parser
	antlr string
}
type SliceV struct {
	typ     types.Type // slice type
	back    int
	gen     int
	off     *Term
	len     *Term
	content *Term // sequence of the elements, as of stamp
	stamp   int
	exact   bool // the capacity is the length
	isNil   *Term
	elems   []Val // elements of a literal
}
type IfaceV struct { // interface with known dynamic type
	iface types.Type
	typ   types.Type
	val   Val
}
type ClosureV struct {
	fn       *ssa.Function
	bindings []Val
}
type FuncNil struct{}
type BoundFn struct { // builtin method value etc.
	name string
	recv Val
}
type TupleV []Val
type MapV struct { // map with known content
	keys []Val
	vals []Val
	typ  types.Type
	obj  int
}
type ItV struct { // iterator over a string or a map
	obj int   // its position
	x   *Term // what it iterates over
	q   *Term // the runes, or the keys in the order of the iteration
}

// Obj is a variable in memory
type Obj struct {
	typ      types.Type
	val      Val
	external bool // existed before the function was called
	writable bool // external, but may be changed
	sealed   bool
	name     string
	fn       *ssa.Function // allocating function
}

type writeRec struct {
	pos  *Term // index of the first element written
	elem bool  // only that element, with val
	all  bool  // the elements from pos are those of val
	val  *Term
	gen  int // lineage of the slice written through; others may have another array
}

// Backing is the array behind slices
type Backing struct {
	external bool
	ownedLen *Term // an external array may be written at and after this index; nil: never
	writes   []writeRec
	esort    Sort
	gens     int
	name     string
	sealed   bool // shared with values which do not change
}

type Frame struct {
	fn    *ssa.Function
	regs  map[ssa.Value]Val
	loops map[*ssa.BasicBlock]*loopCtx
	// bindings of a closure
	depth  int
	defers []func(*State)
}

type State struct {
	pc       []*Term
	heap     map[int]*Obj
	backs    map[int]*Backing
	frames   []*Frame
	ghost    map[string]*Term
	path     []string     // decisions, for reports
	writes   map[int]bool // objects written since the state was probed
	bwrites  map[int]bool
	gwrites  map[string]bool
	nextLoop int
	steps    *int
}

func (s *State) clone() *State {
	n := &State{steps: s.steps}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.backs = make(map[int]*Backing, len(s.backs))
	for k, v := range s.backs {
		n.backs[k] = v
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		nf := &Frame{fn: f.fn, depth: f.depth, regs: make(map[ssa.Value]Val, len(f.regs)), loops: make(map[*ssa.BasicBlock]*loopCtx, len(f.loops)), defers: f.defers[:len(f.defers):len(f.defers)]}
		for k, v := range f.regs {
			nf.regs[k] = v
		}
		for k, v := range f.loops {
			nf.loops[k] = v
		}
		n.frames[i] = nf
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.path = s.path[:len(s.path):len(s.path)]
	n.writes = map[int]bool{}
	for k := range s.writes {
		n.writes[k] = true
	}
	n.bwrites = map[int]bool{}
	for k := range s.bwrites {
		n.bwrites[k] = true
	}
	n.gwrites = map[string]bool{}
	for k := range s.gwrites {
		n.gwrites[k] = true
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for _, x := range s.pc {
		if x == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

func (s *State) setGhost(n string, t *Term) {
	s.ghost[n] = t
	s.gwrites[n] = true
}

func newObjID() int {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	tt.fresh["#obj"]++
	return tt.fresh["#obj"]
}

func (s *State) alloc(o *Obj) int {
	id := newObjID()
	s.heap[id] = o
	return id
}

func (s *State) newBack(b *Backing) int {
	id := newObjID()
	s.backs[id] = b
	return id
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func valString(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return v.String()
	case *StructV:
		var p []string
		for _, f := range v.fields {
			p = append(p, valString(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *ArrayV:
		var p []string
		for _, f := range v.elems {
			p = append(p, valString(f))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case *PtrV:
		if v.slice != nil {
			return fmt.Sprintf("&slice[%s]", v.index)
		}
		return fmt.Sprintf("&obj%d%v", v.obj, v.path)
	case *SliceV:
		return fmt.Sprintf("slice(b%d len=%s %s)", v.back, v.len, v.content)
	case *IfaceV:
		return fmt.Sprintf("iface(%s %s)", v.typ, valString(v.val))
	case *ClosureV:
		return "closure " + v.fn.Name()
	}
	return fmt.Sprintf("%T", v)
}
