package main

import (
	"fmt"
	"math"
	"strconv"

	jp "github.com/bserdar/gojsonpath"
)

// The reference: what the properties say a path selects

type stepKind int

const (
	sRoot stepKind = iota
	sCur
	sWild
	sKey
	sUnion
	sFilter
	sIndex // IndexSelectorPath
	sSlice
)

type Step struct {
	K          stepKind
	Key        string
	KeyX       *Expr // value of the text of a key which is not a name
	Parts      []*Step
	X          *Expr // filter
	Index      int
	S, E, St   *Expr
	Rec        bool // followed by ..
	brackets   bool // only written as [ ]
	noBrackets bool
	lit        string // how the key is written
}

type exprKind int

const (
	xConst exprKind = iota
	xPath
	xNeg
	xNot
	xBin
	xArr
	xCall
	xMethod
	xFilter
)

type Expr struct {
	K     exprKind
	V     any    // constant
	lit   string // its text
	Op    string
	A, B  *Expr
	List  []*Expr
	Name  string
	Steps []*Step
}

// a segment of a path
type seg struct {
	n    *N
	name string
	idx  int
}

func (s seg) String() string { return fmt.Sprintf("%s/%d:%d", s.name, s.idx, s.n.Id) }

// values: nil, int, float64, bool, string, []any, map[string]any, *N, and
// lists of them
type skip struct{}

func valOf(x any) any {
	if n, ok := x.(*N); ok {
		return n.plain()
	}
	return x
}

func num(x any) any {
	switch v := valOf(x).(type) {
	case int, float64:
		return v
	case bool:
		if v {
			return 1
		}
		return 0
	case string:
		if i, err := strconv.Atoi(v); err == nil {
			return i
		}
		if f, err := strconv.ParseFloat(v, 64); err == nil {
			return f
		}
	}
	return nil
}

func fl(x any) float64 {
	if i, ok := x.(int); ok {
		return float64(i)
	}
	return x.(float64)
}

func truthy(x any) bool {
	switch v := valOf(x).(type) {
	case nil:
		return false
	case bool:
		return v
	case int:
		return v != 0
	case float64:
		return v != 0
	case string:
		return v != ""
	}
	return true
}

func eq2(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case int:
		switch y := b.(type) {
		case int:
			return x == y
		case float64:
			return float64(x) == y
		}
	case float64:
		switch y := b.(type) {
		case int:
			return x == float64(y)
		case float64:
			return x == y
		}
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return false
}

func eq3(a, b any) bool {
	_, i1 := a.(int)
	_, i2 := b.(int)
	_, f1 := a.(float64)
	_, f2 := b.(float64)
	if i1 && f2 || f1 && i2 {
		return false
	}
	return eq2(a, b)
}

// sign of the comparison, if there is one
func cmp(a, b any) (lt, eq, gt bool) {
	if a == nil {
		return b != nil, b == nil, false
	}
	if b == nil {
		return false, false, true
	}
	switch x := a.(type) {
	case int, float64:
		y := num(b)
		if y == nil {
			return
		}
		i, ok1 := x.(int)
		j, ok2 := y.(int)
		if ok1 && ok2 {
			return i < j, i == j, i > j
		}
		f, g := fl(x), fl(y)
		return f < g, f == g, f > g
	case string:
		y, ok := b.(string)
		if !ok {
			y = fmt.Sprint(b)
		}
		return x < y, x == y, x > y
	}
	return
}

func arith(op string, a, b any) any {
	if a == nil || b == nil {
		return nil
	}
	i, ok1 := a.(int)
	j, ok2 := b.(int)
	ints := ok1 && ok2
	f, g := fl(a), fl(b)
	switch op {
	case "+":
		if ints {
			return i + j
		}
		return f + g
	case "-":
		if ints {
			return i - j
		}
		return f - g
	case "*":
		if ints {
			return i * j
		}
		return f * g
	case "**":
		return math.Pow(f, g)
	case "/":
		if g == 0 {
			return nil
		}
		if ints {
			return i / j
		}
		return f / g
	case "%":
		if g == 0 {
			return nil
		}
		if ints {
			return i % j
		}
		return math.Mod(f, g)
	}
	panic(op)
}

func hasSkip(x any) bool {
	switch v := x.(type) {
	case []any:
		for _, y := range v {
			if _, ok := y.(*N); ok {
				return true
			}
			if hasSkip(y) {
				return true
			}
		}
	}
	return false
}

// ctx: root and path of the current node
func (x *Expr) eval(root *N, p []seg) (v any, err bool) {
	switch x.K {
	case xConst:
		return x.V, false
	case xPath:
		var m [][]seg
		if x.Steps[0].K == sRoot {
			m = search(root, p[:1:1], x.Steps)
		} else {
			m = search(root, p, x.Steps)
		}
		switch len(m) {
		case 0:
			return nil, false
		case 1:
			return m[0][len(m[0])-1].n, false
		}
		var out []any
		for _, q := range m {
			out = append(out, q[len(q)-1].n)
		}
		return out, false
	case xNeg:
		a, err := x.A.eval(root, p)
		if err {
			return nil, true
		}
		switch v := num(a).(type) {
		case int:
			return -v, false
		case float64:
			return -v, false
		}
		return nil, false
	case xNot:
		a, err := x.A.eval(root, p)
		return !truthy(a), err
	case xFilter:
		a, err := x.A.eval(root, p)
		return truthy(a), err
	case xArr:
		out := []any{}
		for _, y := range x.List {
			a, err := y.eval(root, p)
			if err {
				return nil, true
			}
			out = append(out, valOf(a))
		}
		return out, false
	case xCall, xMethod:
		var args []any
		if x.K == xMethod {
			a, err := x.A.eval(root, p)
			if err {
				return nil, true
			}
			args = append(args, valOf(a))
		}
		if x.Name != "length" {
			return nil, true
		}
		for _, y := range x.List {
			a, err := y.eval(root, p)
			if err {
				return nil, true
			}
			args = append(args, valOf(a))
		}
		if len(args) == 0 {
			return 0, false
		}
		if a, ok := args[0].([]any); ok {
			return len(a), false
		}
		return 0, false
	}
	a, e1 := x.A.eval(root, p)
	if e1 {
		return nil, true
	}
	switch x.Op {
	case "&&":
		if !truthy(a) {
			return false, false
		}
		b, e2 := x.B.eval(root, p)
		return truthy(b), e2
	case "||":
		if truthy(a) {
			return true, false
		}
		b, e2 := x.B.eval(root, p)
		return truthy(b), e2
	}
	b, e2 := x.B.eval(root, p)
	if e2 {
		return nil, true
	}
	a0, b0 := valOf(a), valOf(b)
	switch x.Op {
	case "==":
		return eq2(a0, b0), false
	case "!=":
		return !eq2(a0, b0), false
	case "===":
		return eq3(a0, b0), false
	case "!==":
		return !eq3(a0, b0), false
	case "<", "<=", ">", ">=":
		if _, ok := a0.(string); ok && hasSkip(b0) {
			panic(skip{}) // depends on the text of nodes
		}
		lt, eq, gt := cmp(a0, b0)
		switch x.Op {
		case "<":
			return lt, false
		case "<=":
			return lt || eq, false
		case ">":
			return gt, false
		}
		return gt || eq, false
	case "in":
		if b0 == nil {
			return nil, false
		}
		if l, ok := b0.([]any); ok {
			for _, y := range l {
				if eq2(a0, valOf(y)) {
					return true, false
				}
			}
			return false, false
		}
		return eq2(a0, b0), false
	}
	return arith(x.Op, num(a), num(b)), false
}

// slice bounds: ok if they are numbers
func intBound(x *Expr, root *N, p []seg) (int, bool) {
	v, err := x.eval(root, p)
	if err {
		return 0, false
	}
	switch n := num(v).(type) {
	case int:
		return n, true
	case float64:
		return int(n), true
	}
	return 0, false
}

// the elements of a slice of n elements, in order
func (s *Step) slice(root *N, p []seg, n int) []int {
	norm := func(i int) int {
		if i >= 0 {
			return i
		}
		if -n <= i {
			return n + i
		}
		return 0
	}
	a, b, st := 0, n, 1
	if s.S != nil {
		i, ok := intBound(s.S, root, p)
		if !ok {
			return nil
		}
		a = norm(i)
	}
	if s.E != nil {
		i, ok := intBound(s.E, root, p)
		if !ok {
			return nil
		}
		b = norm(i)
	}
	if s.St != nil {
		i, ok := intBound(s.St, root, p)
		if !ok {
			return nil
		}
		st = i
	}
	var out []int
	if st > 0 {
		for i := a; i < b && i < n; {
			out = append(out, i)
			if st > n {
				break
			}
			i += st
		}
	} else if st < 0 && a < n {
		for i := a; i > b; {
			out = append(out, i)
			if st < -n {
				break
			}
			i += st
		}
	}
	return out
}

// does the step match the last node of p
func (s *Step) match(root *N, p []seg) bool {
	l := p[len(p)-1]
	switch s.K {
	case sRoot:
		return len(p) == 1
	case sCur, sWild:
		return true
	case sUnion:
		for _, x := range s.Parts {
			if x.match(root, p) {
				return true
			}
		}
		return false
	case sFilter:
		v, err := s.X.eval(root, p)
		return !err && truthy(v)
	}
	if len(p) < 2 {
		return false
	}
	up := p[: len(p)-1 : len(p)-1]
	par := up[len(up)-1].n
	if par.T == jp.ObjectNode {
		return s.K == sKey && l.name == s.Key
	}
	n := len(par.Kids)
	switch s.K {
	case sKey:
		i, ok := 0, false
		if k, err := strconv.Atoi(s.Key); err == nil {
			i, ok = k, true
		} else if s.KeyX != nil {
			v, _ := s.KeyX.eval(root, up)
			switch x := v.(type) {
			case int:
				i, ok = x, true
			case string:
				if k, err := strconv.Atoi(x); err == nil {
					i, ok = k, true
				}
			}
		}
		if i < 0 {
			i += n
		}
		return ok && l.idx == i
	case sIndex:
		i := s.Index
		if i < 0 {
			i += n
		}
		return l.idx == i
	case sSlice:
		for _, i := range s.slice(root, up, n) {
			if i == l.idx {
				return true
			}
		}
	}
	return false
}

func kids(n *N) []seg {
	var out []seg
	for i, k := range n.Kids {
		if n.T == jp.ObjectNode {
			out = append(out, seg{k, n.Keys[i], 0})
		} else {
			out = append(out, seg{k, "", i})
		}
	}
	return out
}

func push(p []seg, s seg) []seg { return append(p[:len(p):len(p)], s) }

// search returns the paths of the matches of the steps, the first one
// matching the end of p
func search(root *N, p []seg, steps []*Step) [][]seg {
	if len(steps) == 0 {
		return nil
	}
	var out [][]seg
	var at func(p []seg, steps []*Step)
	var desc func(p []seg, steps []*Step)
	desc = func(p []seg, steps []*Step) {
		for _, k := range kids(p[len(p)-1].n) {
			c := push(p, k)
			at(c, steps)
			desc(c, steps)
		}
	}
	at = func(p []seg, steps []*Step) {
		if len(steps) == 0 {
			out = append(out, p)
			return
		}
		if !steps[0].match(root, p) {
			return
		}
		if steps[0].Rec {
			desc(p, steps[1:])
			return
		}
		if len(steps) == 1 {
			out = append(out, p)
			return
		}
		here := p[len(p)-1].n
		ks := kids(here)
		if nx := steps[1]; nx.K == sSlice && here.T == jp.ArrayNode && nx.St != nil {
			var l []seg
			for _, i := range nx.slice(root, p, len(ks)) {
				l = append(l, ks[i])
			}
			ks = l
		}
		for _, k := range ks {
			at(push(p, k), steps[1:])
		}
	}
	at(p, steps)
	return out
}
