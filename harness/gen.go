package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	jp "github.com/bserdar/gojsonpath"
)

// G generates documents and paths
type G struct {
	*rand.Rand
	vals   []any    // values of documents and constants
	keys   []string // keys of documents and paths
	steps  map[stepKind]int
	ops    []string // operators of expressions
	depth  int      // of expressions
	plainX bool
}

func (g *G) pct(n int) bool { return g.Intn(100) < n }

var allVals = []any{nil, true, false, 0, 1, 2, 3, -1, -2, 7, 10, 0.5, 1.0, 1.5, 2.0, -1.5, 0.0, 2.5, "", "a", "b", "ab", "0", "1", "2", "-1", "1.5", "10", "x", "true", "null"}
var extremeVals = []any{math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, 1<<53 + 1, 1 << 53, float64(1 << 53), 1e300, -1e300, 1e18, 9223372036854775808.0, -9223372036854775808.0, 4294967296, 2147483648, "9223372036854775807", "9223372036854775808", "1e3", " 1", "0x10", "1_000", "+1", "NaN", "Inf", "é", "\n", "日本"}
var weirdVals = []any{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}
var allKeys = []string{"a", "b", "c", "a", "b", "k", "0", "1", "-1", "x y", "length", "$", "*", "@", "", "null", "é", "a-b", "it's", "2", "A", "K"}

func newG(r *rand.Rand) *G {
	return &G{Rand: r, vals: allVals, keys: allKeys[:6], depth: 2,
		steps: map[stepKind]int{sRoot: 1, sCur: 2, sWild: 6, sKey: 14, sUnion: 5, sFilter: 5, sSlice: 6},
		ops:   []string{"==", "!=", "===", "!==", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "**", "&&", "||", "in", "!", "neg", "arr", "call", "method"}}
}

func (g *G) val() any {
	if g.pct(12) {
		return extremeVals[g.Intn(len(extremeVals))]
	}
	if g.pct(3) {
		return weirdVals[g.Intn(len(weirdVals))]
	}
	return g.vals[g.Intn(len(g.vals))]
}

func (g *G) key() string {
	if g.pct(15) {
		return allKeys[g.Intn(len(allKeys))]
	}
	return g.keys[g.Intn(len(g.keys))]
}

func (g *G) doc(depth int) *N {
	if depth <= 0 || g.pct(15) {
		return vnode(g.val())
	}
	if g.pct(50) {
		n := &N{T: jp.ArrayNode}
		for i := g.Intn(5); i > 0; i-- {
			n.Kids = append(n.Kids, g.doc(depth-1))
		}
		if g.pct(10) {
			for i := g.Intn(9); i > 0; i-- {
				n.Kids = append(n.Kids, g.doc(0))
			}
		}
		return n
	}
	n := &N{T: jp.ObjectNode}
	for i := g.Intn(5); i > 0; i-- {
		k := g.key()
		if n.child(k) == nil {
			n.Keys = append(n.Keys, k)
			n.Kids = append(n.Kids, g.doc(depth-1))
		}
	}
	return n
}

func (g *G) rootDoc() *N {
	d := g.doc(1 + g.Intn(4))
	if d.T == jp.ValueNode && g.pct(80) {
		d = g.doc(3)
	}
	d.number(0)
	return d
}

func (g *G) pick(w map[stepKind]int) stepKind {
	t := 0
	for k := sRoot; k <= sSlice; k++ {
		t += w[k]
	}
	i := g.Intn(t)
	for k := sRoot; k <= sSlice; k++ {
		if i < w[k] {
			return k
		}
		i -= w[k]
	}
	return sWild
}

// path with the first step
func (g *G) path(first stepKind, max, depth int) []*Step {
	out := []*Step{{K: first}}
	for i := g.Intn(max + 1); i > 0; i-- {
		if g.pct(12) {
			out[len(out)-1].Rec = true
		}
		out = append(out, g.step(depth, false))
	}
	return out
}

func (g *G) step(depth int, inUnion bool) *Step {
	k := g.pick(g.steps)
	if inUnion && k == sUnion || k == sFilter && depth <= 0 {
		k = sKey
	}
	switch k {
	case sKey:
		return g.keyStep()
	case sUnion:
		s := &Step{K: sUnion}
		for i := 2 + g.Intn(3); i > 0; i-- {
			s.Parts = append(s.Parts, g.step(depth, true))
		}
		return s
	case sFilter:
		return &Step{K: sFilter, X: g.expr(g.depth, depth-1)}
	case sSlice:
		return g.sliceStep(depth)
	}
	return &Step{K: k}
}

func (g *G) keyStep() *Step {
	if g.pct(30) {
		i := g.Intn(7) - 3
		t := strconv.Itoa(i)
		s := &Step{K: sKey, Key: t, lit: t}
		if g.pct(6) {
			// an index which is computed
			p := &Expr{K: xPath, Steps: []*Step{{K: []stepKind{sCur, sRoot}[g.Intn(2)]}}}
			s = &Step{K: sKey, KeyX: &Expr{K: xCall, Name: "length", List: []*Expr{p}}, brackets: true}
			if g.pct(40) {
				p.Steps = append(p.Steps, &Step{K: sKey, Key: []string{"a", "b", "c", "k"}[g.Intn(4)]})
			}
			s.lit = g.exprText(s.KeyX)
			s.Key = s.lit
			return s
		}
		if g.pct(4) {
			v := []string{t, "a", "", "x", "1.0"}[g.Intn(5)]
			v = []string{"+'", "-'", "1+'"}[g.Intn(3)] + v + "'" // stands for its text
			s = &Step{K: sKey, Key: v, lit: v, KeyX: &Expr{K: xConst, V: v}, brackets: true}
			return s
		}
		if i >= 0 && g.pct(15) {
			if g.pct(30) {
				i = 8 + g.Intn(4)
			}
			f := []string{"0x%x", "0X%x", "0o%o", "0b%b", "0%d", "%d.0", "%d_", "+%d", "0x0_%x"}[g.Intn(9)]
			t = fmt.Sprintf(f, i)
			s = &Step{K: sKey, Key: t, lit: t}
			switch {
			case strings.HasSuffix(t, ".0"):
				s.KeyX = &Expr{K: xConst, V: float64(i)}
			case t[0] != '+':
				s.KeyX = &Expr{K: xConst, V: i}
			}
			s.brackets = true
		}
		return s
	}
	return &Step{K: sKey, Key: g.key()}
}

func (g *G) bound(depth int) *Expr {
	switch {
	case g.pct(30):
		return nil
	case g.pct(3):
		return errExpr()
	case g.pct(4) && depth > 0:
		return g.expr(1, depth-1)
	case g.pct(4):
		return &Expr{K: xConst, V: []any{1.0, 1.9, "1", "-1", "a", nil, true, "1.5"}[g.Intn(8)]}
	case g.pct(6):
		return &Expr{K: xConst, V: []any{math.MaxInt, math.MinInt + 1, math.MaxInt - 1, 1 << 62, -1 << 62, math.MaxInt32, math.MinInt32}[g.Intn(7)]}
	case g.pct(4) && depth > 0:
		return &Expr{K: xBin, Op: "-", A: &Expr{K: xMethod, Name: "length", A: &Expr{K: xPath, Steps: []*Step{{K: sCur}}}}, B: &Expr{K: xConst, V: g.Intn(4)}}
	}
	return &Expr{K: xConst, V: g.Intn(13) - 6}
}

// errExpr is an expression whose evaluation is an error
func errExpr() *Expr {
	return &Expr{K: xCall, Name: "foo", List: []*Expr{{K: xConst, V: 0}}}
}

func (g *G) sliceStep(depth int) *Step {
	s := &Step{K: sSlice, S: g.bound(depth), E: g.bound(depth)}
	if g.pct(65) {
		s.St = g.bound(depth)
		if g.pct(50) && s.St != nil {
			s.St = &Expr{K: xConst, V: []any{1, 2, 3, -1, -2, -3, 0}[g.Intn(7)]}
		}
	}
	return s
}

var binOps = map[string]bool{"==": true, "!=": true, "===": true, "!==": true, "<": true, "<=": true, ">": true, ">=": true, "+": true, "-": true, "*": true, "/": true, "%": true, "**": true, "&&": true, "||": true, "in": true}

// expr of at most n levels, with paths of depth levels of filters
func (g *G) expr(n, depth int) *Expr {
	if n <= 0 || g.pct(15) {
		if g.pct(60) {
			f := sCur
			if g.pct(20) {
				f = sRoot
			}
			return &Expr{K: xPath, Steps: g.path(f, 2, depth)}
		}
		return g.constant()
	}
	op := g.ops[g.Intn(len(g.ops))]
	switch op {
	case "!":
		return &Expr{K: xNot, A: g.expr(n-1, depth)}
	case "neg":
		return &Expr{K: xNeg, A: g.expr(n-1, depth)}
	case "arr":
		x := &Expr{K: xArr}
		for i := 1 + g.Intn(3); i > 0; i-- {
			x.List = append(x.List, g.expr(n-1, depth))
		}
		return x
	case "call":
		x := &Expr{K: xCall, Name: "length"}
		if g.pct(15) {
			x.Name = []string{"size", "foo", "Length", "len"}[g.Intn(4)]
		}
		k := 1
		if g.pct(20) {
			k = g.Intn(3)
		}
		for i := 0; i < k; i++ {
			x.List = append(x.List, g.expr(n-1, depth))
		}
		return x
	case "method":
		x := &Expr{K: xMethod, Name: "length", A: &Expr{K: xPath, Steps: g.path(sCur, 2, depth)}}
		if g.pct(15) {
			x.Name = []string{"size", "foo", "Length", "len"}[g.Intn(4)]
		}
		if g.pct(15) {
			x.A = &Expr{K: xArr, List: []*Expr{g.expr(0, depth), g.expr(n-1, depth)}}
		}
		if g.pct(10) {
			x.List = append(x.List, g.expr(n-1, depth))
		}
		return x
	}
	if op == "in" && g.pct(60) {
		b := &Expr{K: xArr}
		for i := 1 + g.Intn(3); i > 0; i-- {
			b.List = append(b.List, g.expr(0, depth))
		}
		return &Expr{K: xBin, Op: op, A: g.expr(n-1, depth), B: b}
	}
	return &Expr{K: xBin, Op: op, A: g.expr(n-1, depth), B: g.expr(n-1, depth)}
}

// constants which can be written
func (g *G) constant() *Expr {
	for {
		v := g.val()
		if f, ok := v.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0) || f == 0 && math.Signbit(f)) {
			continue
		}
		if v == math.MinInt {
			continue
		}
		return &Expr{K: xConst, V: v}
	}
}

// ---- text ----

var levels = map[string]int{"**": 11, "*": 12, "/": 12, "%": 12, "+": 13, "-": 13, "<": 14, ">": 14, "<=": 14, ">=": 14, "in": 15,
	"==": 16, "!=": 16, "===": 16, "!==": 16, "&&": 20, "||": 21}

func (x *Expr) level() int {
	switch x.K {
	case xConst:
		switch v := x.V.(type) {
		case int:
			if v < 0 {
				return 8
			}
		case float64:
			if v < 0 {
				return 8
			}
		}
		return 0
	case xNeg:
		return 8
	case xNot:
		return 10
	case xBin:
		return levels[x.Op]
	}
	return 0
}

func isIdent(s string) bool {
	for i, r := range s {
		if r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && (r >= '0' && r <= '9' || r == '$') || r == 'é' {
			continue
		}
		return false
	}
	return s != "" && s != "in"
}

func (g *G) str(s string) string {
	q := "'"
	if g.pct(50) {
		q = `"`
	}
	out := q
	for _, r := range s {
		switch {
		case string(r) == q, r == '\\':
			out += `\` + string(r)
		case r == '\n':
			out += `\n`
		case r == '\r':
			out += `\r`
		case r == '\t' && g.pct(50):
			out += `\t`
		default:
			out += string(r)
		}
	}
	return out + q
}

func (g *G) sp() string {
	if g.pct(70) {
		return " "
	}
	return []string{"  ", "\t", "\n"}[g.Intn(3)]
}

func (g *G) constText(v any) string {
	switch x := v.(type) {
	case string:
		return g.str(x)
	case int:
		return strconv.Itoa(x)
	case float64:
		t := strconv.FormatFloat(x, 'g', -1, 64)
		if !strings.ContainsAny(t, ".e") {
			t += ".0"
		}
		return t
	case bool:
		return strconv.FormatBool(x)
	}
	return "null"
}

func (g *G) paren(x *Expr, need bool) string {
	t := g.exprText(x)
	if need || g.pct(10) {
		return "(" + t + ")"
	}
	return t
}

func (g *G) exprText(x *Expr) string {
	switch x.K {
	case xConst:
		if x.lit != "" {
			return x.lit
		}
		return g.constText(x.V)
	case xPath:
		t := g.pathText(x.Steps)
		if strings.HasSuffix(t, "..") {
			return "(" + t + ")" // what follows might be a step
		}
		return t
	case xNeg:
		return "-" + g.paren(x.A, x.A.level() >= 8)
	case xNot:
		return "!" + g.paren(x.A, x.A.level() > 8)
	case xFilter:
		return "?(" + g.exprText(x.A) + ")"
	case xArr:
		return "[" + g.listText(x.List) + "]"
	case xCall:
		return x.Name + "(" + g.argText(x.List) + ")"
	case xMethod:
		t := g.paren(x.A, x.A.K != xPath && x.A.K != xArr)
		if strings.HasSuffix(t, "..") {
			t += "*"
		}
		if t[0] != '(' && x.A.K == xPath && g.pct(10) {
			return t + "[" + g.str(x.Name) + "](" + g.argText(x.List) + ")"
		}
		return t + "." + x.Name + "(" + g.argText(x.List) + ")"
	}
	l := levels[x.Op]
	a, b := x.A.level(), x.B.level()
	needA, needB := a > l || a == l && x.Op == "**", b > l || b == l && x.Op != "**"
	op := x.Op
	if op == "in" {
		return g.paren(x.A, needA) + " in " + g.paren(x.B, needB)
	}
	return g.paren(x.A, needA) + g.sp() + op + g.sp() + g.paren(x.B, needB)
}

func (g *G) listText(l []*Expr) string {
	var ts []string
	for _, x := range l {
		ts = append(ts, g.exprText(x))
	}
	if g.pct(30) {
		return strings.Join(ts, " ,")
	}
	if g.pct(30) {
		return strings.Join(ts, ", ")
	}
	return strings.Join(ts, ",")
}

func (g *G) argText(l []*Expr) string {
	var ts []string
	for _, x := range l {
		ts = append(ts, g.exprText(x))
	}
	return strings.Join(ts, ",")
}

// bracketText is the text of a step between brackets
func (g *G) bracketText(s *Step) string {
	switch s.K {
	case sRoot:
		return "$"
	case sCur:
		return "@"
	case sWild:
		return "*"
	case sKey:
		if s.lit != "" {
			return s.lit
		}
		if isIdent(s.Key) && s.Key != "true" && s.Key != "false" && g.pct(20) {
			return s.Key
		}
		return g.str(s.Key)
	case sFilter:
		return "?(" + g.exprText(s.X) + ")"
	case sSlice:
		t := ""
		if s.S != nil {
			t += g.exprText(s.S)
		}
		t += ":"
		if s.E != nil {
			t += g.exprText(s.E)
		}
		if s.St != nil {
			t += ":" + g.exprText(s.St)
		} else if g.pct(20) {
			t += ":"
		}
		return t
	}
	var ps []string
	for _, p := range s.Parts {
		ps = append(ps, g.bracketText(p))
	}
	sep := ","
	if g.pct(30) {
		sep = ", "
	} else if g.pct(10) {
		sep = " ,"
	}
	return strings.Join(ps, sep)
}

func (g *G) pathText(steps []*Step) string {
	t := "$"
	if steps[0].K == sCur {
		t = "@"
	}
	for i, s := range steps[1:] {
		rec := steps[i].Rec
		dot := "."
		if rec {
			dot = ".."
		}
		last := i+2 == len(steps)
		if rec && last && s.K == sWild && !s.Rec && g.pct(50) {
			return t + ".."
		}
		var dotted string
		switch s.K {
		case sRoot:
			dotted = "$"
		case sCur:
			dotted = "@"
		case sWild:
			dotted = "*"
		case sKey:
			switch {
			case s.brackets:
			case s.lit != "":
				if last && !rec && s.lit[0] != '-' {
					dotted = s.lit
				}
			case isIdent(s.Key):
				dotted = s.Key
			default:
				dotted = g.str(s.Key)
			}
		}
		if dotted == "" || g.pct(40) {
			if rec {
				t += ".."
			}
			t += "[" + g.bracketText(s) + "]"
		} else {
			t += dot + dotted
		}
	}
	if steps[len(steps)-1].Rec {
		panic("path ends with recursive descent")
	}
	return t
}
