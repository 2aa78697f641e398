package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/antlr4-go/antlr/v4"
	jp "github.com/bserdar/gojsonpath"
	"github.com/bserdar/gojsonpath/parser"
)

// pathCase searches a random path in a random document
func pathCase(g *G, max int) {
	steps := g.path(sRoot, max, 2)
	checkText(g.pathText(steps), steps, g.rootDoc())
}

func only(g *G, w map[stepKind]int) *G { g.steps = w; return g }

// exprCase evaluates a random expression as a filter
func exprCase(g *G, ops ...string) {
	g.ops = ops
	x := g.expr(1+g.Intn(3), 1)
	for x.K == xConst || x.K == xPath && g.pct(90) {
		x = g.expr(1+g.Intn(3), 1)
	}
	filterCase(g, x)
}

func filterCase(g *G, x *Expr) {
	steps := []*Step{{K: sRoot}, {K: sFilter, X: x}}
	if g.pct(10) {
		steps[0].Rec = true
	}
	if g.pct(10) {
		x = &Expr{K: xNot, A: x}
		steps[1].X = x
	}
	checkText(g.pathText(steps), steps, g.rootDoc())
}

// operandCase evaluates an operator for operands given as constants, members
// of the document, and paths selecting none, one or several nodes
func operandCase(g *G, ops ...string) {
	op := ops[g.Intn(len(ops))]
	operand := func(name string) (*Expr, *N) {
		if g.pct(3) {
			return errExpr(), vnode(nil)
		}
		switch g.Intn(10) {
		case 0, 1, 2:
			return g.constant(), vnode(nil)
		case 3:
			return &Expr{K: xPath, Steps: []*Step{{K: sCur}, {K: sKey, Key: "none"}}}, vnode(nil)
		case 4:
			return &Expr{K: xPath, Steps: []*Step{{K: sCur}, {K: sKey, Key: name}, {K: sWild}}}, g.doc(2)
		case 5:
			return &Expr{K: xPath, Steps: []*Step{{K: sCur}, {K: sKey, Key: name}}}, g.doc(2)
		}
		return &Expr{K: xPath, Steps: []*Step{{K: sCur}, {K: sKey, Key: name}}}, vnode(g.val())
	}
	a, an := operand("x")
	b, bn := operand("y")
	if g.pct(25) { // related values
		switch v := an.V.(type) {
		case int:
			bn = vnode([]any{float64(v), v, strconv.Itoa(v), v + 1, float64(v) + 0.5}[g.Intn(5)])
		case float64:
			if math.Abs(v) < 1e15 {
				bn = vnode([]any{int(v), v, fmt.Sprint(v), -v, v + 0.5}[g.Intn(5)])
			}
		case string:
			bn = vnode(v)
		}
	}
	var x *Expr
	switch op {
	case "neg":
		x = &Expr{K: xNeg, A: a}
	case "arr":
		x = &Expr{K: xArr, List: []*Expr{a, b}}
	default:
		x = &Expr{K: xBin, Op: op, A: a, B: b}
	}
	elem := obj("x", an, "y", bn)
	d := arr(elem, g.doc(1))
	if strings.Contains("+-*/%**neg", op) {
		// compare with the expected value, and with a neighbour
		d.number(0)
		v, err := x.eval(d, []seg{{n: d}, {n: elem}})
		if err {
			v = nil
		}
		elem.Keys = append(elem.Keys, "r")
		if g.pct(30) {
			switch y := v.(type) {
			case int:
				v = []any{y + 1, y - 1, float64(y), nil, -y}[g.Intn(5)]
			case float64:
				v = []any{y + 1, -y, int(y), nil}[g.Intn(4)]
			default:
				v = 0
			}
		}
		elem.Kids = append(elem.Kids, vnode(v))
		x = &Expr{K: xBin, Op: []string{"===", "=="}[g.Intn(2)], A: x, B: &Expr{K: xPath, Steps: []*Step{{K: sCur}, {K: sKey, Key: "r"}}}}
	}
	if (a.Name == "foo" || b.Name == "foo") && g.pct(50) {
		x = &Expr{K: xNot, A: x}
	}
	steps := []*Step{{K: sRoot}, {K: sFilter, X: x}}
	d.number(0)
	checkText(g.pathText(steps), steps, d)
}

// build makes a path with the combinators
func build(g *G, steps []*Step) (jp.Path, string) {
	var ps []jp.Path
	text := ""
	for i := 0; i < len(steps); i++ {
		s := steps[i]
		var p jp.Path
		switch s.K {
		case sRoot:
			p = jp.SelectRootPath
			text += "SelectRootPath "
		case sCur:
			p = jp.SelectCurrentPath
			text += "SelectCurrentPath "
		case sWild:
			p = jp.WildcardPath
			text += "WildcardPath "
		case sKey:
			p = jp.KeySelectorPath(s.Key)
			text += fmt.Sprintf("Key(%q) ", s.Key)
		case sIndex:
			p = jp.IndexSelectorPath(s.Index)
			text += fmt.Sprintf("Index(%d) ", s.Index)
		default:
			panic("step")
		}
		if s.Rec {
			p = jp.RecursiveDescent(p)
			text += ".. "
		}
		ps = append(ps, p)
		if g.pct(30) && len(ps) > 1 {
			// append what there is
			ps = []jp.Path{jp.Append(ps...)}
		}
		if g.pct(10) {
			ps = append(ps, jp.Path{})
		}
	}
	return jp.Append(ps...), text
}

// builtSteps are steps which can be built with the combinators
func builtSteps(g *G, max int) []*Step {
	out := []*Step{{K: sRoot}}
	if g.pct(10) {
		out[0].K = sCur
	}
	for i := g.Intn(max + 1); i > 0; i-- {
		if g.pct(20) {
			out[len(out)-1].Rec = true
		}
		switch g.Intn(6) {
		case 0, 1:
			k := g.key()
			out = append(out, &Step{K: sKey, Key: k})
		case 2:
			out = append(out, &Step{K: sKey, Key: strconv.Itoa(g.Intn(8) - 4)})
		case 3, 4:
			out = append(out, &Step{K: sIndex, Index: g.index()})
		default:
			out = append(out, &Step{K: []stepKind{sWild, sWild, sCur, sRoot}[g.Intn(4)]})
		}
	}
	return out
}

func (g *G) index() int {
	if g.pct(8) {
		return []int{math.MaxInt, math.MinInt, math.MinInt + 1, math.MaxInt - 1, 1 << 32, -1 << 32}[g.Intn(6)]
	}
	return g.Intn(15) - 7
}

// wide is a document with long arrays
func (g *G) wide() *N {
	n := &N{T: jp.ArrayNode}
	for i := g.Intn(12); i > 0; i-- {
		n.Kids = append(n.Kids, g.doc(g.Intn(3)))
	}
	if g.pct(50) {
		n = obj("a", n, "b", g.doc(2))
	}
	n.number(0)
	return n
}

func combined(g *G, steps []*Step, d *N) {
	p, text := build(g, steps)
	want := checkPath(text, p, steps, d)
	checkMap(text, p, want, d)
}

type prop func(g *G)

var props = map[string]prop{
	"C01": func(g *G) {
		switch g.Intn(4) {
		case 0:
			combined(g, builtSteps(g, 5), g.rootDoc())
		case 1:
			only(g, map[stepKind]int{sWild: 6, sKey: 8, sUnion: 2, sSlice: 4, sCur: 1})
			pathCase(g, 6)
		default:
			pathCase(g, 5)
		}
		if g.pct(5) {
			d := g.rootDoc()
			checkPath("empty path", jp.Path{}, nil, d)
			checkPath("Append()", jp.Append(), nil, d)
		}
	},
	"C02": func(g *G) {
		only(g, map[stepKind]int{sWild: 8, sKey: 8, sUnion: 3, sFilter: 4, sSlice: 6, sCur: 1})
		if g.pct(30) {
			combined(g, builtSteps(g, 5), g.rootDoc())
			return
		}
		steps := g.path(sRoot, 5, 2)
		if g.pct(50) {
			steps[g.Intn(len(steps))].Rec = true
			if steps[len(steps)-1].Rec {
				steps = append(steps, &Step{K: sWild})
			}
		}
		checkText(g.pathText(steps), steps, g.rootDoc())
	},
	"C03": func(g *G) {
		only(g, map[stepKind]int{sKey: 12, sWild: 2, sUnion: 1})
		g.keys = allKeys
		if g.pct(20) {
			steps := []*Step{{K: sRoot}, g.keyStep()}
			checkText(g.pathText(steps), steps, g.wide())
			return
		}
		if g.pct(30) {
			steps := []*Step{{K: sRoot}}
			for i := 1 + g.Intn(3); i > 0; i-- {
				k := g.key()
				if g.pct(40) {
					k = strconv.Itoa(g.index())
				}
				steps = append(steps, &Step{K: sKey, Key: k})
				if g.pct(15) {
					steps[len(steps)-2].Rec = true
				}
			}
			combined(g, steps, g.rootDoc())
			return
		}
		pathCase(g, 3)
	},
	"C04": func(g *G) {
		steps := []*Step{{K: sRoot}}
		for i := g.Intn(3); i > 0; i-- {
			steps = append(steps, []*Step{{K: sKey, Key: "a"}, {K: sWild}, {K: sKey, Key: "0"}, {K: sIndex, Index: g.index()}}[g.Intn(4)])
		}
		if g.pct(30) {
			steps[len(steps)-1].Rec = true
		}
		steps = append(steps, &Step{K: sIndex, Index: g.index()})
		if g.pct(20) {
			steps = append(steps, &Step{K: sIndex, Index: g.index()})
		}
		d := g.rootDoc()
		if g.pct(60) {
			d = g.wide()
		}
		combined(g, steps, d)
	},
	"C05": func(g *G) {
		steps := []*Step{{K: sRoot}}
		if g.pct(50) {
			steps = append(steps, []*Step{{K: sKey, Key: "a"}, {K: sWild}, {K: sKey, Key: "0"}}[g.Intn(3)])
		}
		if g.pct(25) {
			steps[len(steps)-1].Rec = true
		}
		s := g.sliceStep(1)
		if g.pct(25) {
			u := &Step{K: sUnion, Parts: []*Step{s, g.sliceStep(1)}}
			if g.pct(50) {
				u.Parts = append(u.Parts, g.keyStep())
			}
			s = u
		}
		steps = append(steps, s)
		if g.pct(25) {
			if g.pct(30) {
				s.Rec = true
			}
			steps = append(steps, &Step{K: sWild})
		}
		d := g.rootDoc()
		if g.pct(60) {
			d = g.wide()
		}
		checkText(g.pathText(steps), steps, d)
	},
	"C06": func(g *G) {
		if g.pct(25) {
			steps := builtSteps(g, 4)
			steps[g.Intn(len(steps))].Rec = true
			if g.pct(50) {
				steps[len(steps)-1].Rec = true
			}
			combined(g, steps, g.rootDoc())
			return
		}
		steps := g.path(sRoot, 4, 1)
		steps[g.Intn(len(steps))].Rec = true
		if g.pct(20) {
			steps[len(steps)-1].Rec = true
		}
		if steps[len(steps)-1].Rec {
			steps = append(steps, &Step{K: sWild})
		}
		checkText(g.pathText(steps), steps, g.rootDoc())
	},
	"C07": func(g *G) {
		only(g, map[stepKind]int{sRoot: 3, sCur: 3, sWild: 6, sUnion: 12, sKey: 4, sSlice: 2, sFilter: 1})
		pathCase(g, 4)
	},
	"C08": func(g *G) {
		if g.pct(30) {
			// the value itself is the filter
			x := &Expr{K: xPath, Steps: g.path(sCur, 2, 1)}
			switch g.Intn(4) {
			case 0:
				x = g.constant()
			case 1:
				x = &Expr{K: xNot, A: x}
			}
			filterCase(g, x)
			return
		}
		if g.pct(50) {
			only(g, map[stepKind]int{sFilter: 8, sKey: 4, sWild: 4, sUnion: 2})
			pathCase(g, 3)
			return
		}
		exprCase(g, "==", "<", "!", "&&", "||", "+", "call", "in", "!", "!", "arr")
	},
	"C09": func(g *G) {
		// nested paths, filters in paths of filters
		g.depth = 2
		only(g, map[stepKind]int{sFilter: 6, sKey: 6, sWild: 4, sUnion: 1, sSlice: 3})
		g.ops = []string{"==", "!=", "<", "in", "in", "call", "method", "!", "&&"}
		f := []stepKind{sCur, sRoot}
		path := &Expr{K: xPath, Steps: g.path(f[g.Intn(2)], 3, 2)}
		var x *Expr
		switch g.Intn(4) {
		case 0:
			x = path
		case 1:
			x = &Expr{K: xBin, Op: []string{"==", "===", "<", "in", "!="}[g.Intn(5)], A: path, B: &Expr{K: xPath, Steps: g.path(f[g.Intn(2)], 2, 1)}}
		case 2:
			x = &Expr{K: xBin, Op: []string{"==", "<"}[g.Intn(2)], A: &Expr{K: xCall, Name: "length", List: []*Expr{path}}, B: &Expr{K: xConst, V: g.Intn(4)}}
		default:
			x = g.expr(2, 2)
		}
		steps := []*Step{{K: sRoot}, {K: sFilter, X: x}}
		if g.pct(30) {
			steps = append([]*Step{{K: sRoot}, {K: []stepKind{sWild, sKey}[g.Intn(2)], Key: "a"}}, steps[1:]...)
		}
		if g.pct(20) {
			// bounds of slices
			steps[len(steps)-1] = &Step{K: sSlice, S: x, E: g.bound(1)}
			if g.pct(50) {
				steps[len(steps)-1] = &Step{K: sSlice, S: &Expr{K: xBin, Op: "-", A: &Expr{K: xCall, Name: "length", List: []*Expr{path}}, B: &Expr{K: xConst, V: g.Intn(3)}}}
			}
		}
		if g.pct(20) {
			steps[0].Rec = true
		}
		if g.pct(30) {
			steps = append(steps, g.step(1, false))
		}
		checkText(g.pathText(steps), steps, g.rootDoc())
	},
	"C10": func(g *G) { operandCase(g, "==", "!=", "===", "!==") },
	"C11": func(g *G) { operandCase(g, "<", "<=", ">", ">=") },
	"C12": func(g *G) {
		if g.pct(15) {
			exprCase(g, "+", "-", "*", "/", "%", "**", "neg", "==", "<")
			return
		}
		operandCase(g, "+", "-", "*", "/", "%", "**", "neg")
	},
	"C13": func(g *G) {
		switch g.Intn(3) {
		case 0:
			operandCase(g, "&&", "||", "in", "arr")
		case 1:
			exprCase(g, "&&", "||", "in", "!", "==", "arr")
		default:
			exprCase(g, "&&", "||", "in", "call")
		}
	},
	"C14": func(g *G) {
		if g.pct(60) {
			path := &Expr{K: xPath, Steps: g.path(sCur, 2, 1)}
			x := &Expr{K: xCall, Name: "length", List: []*Expr{path}}
			if g.pct(50) {
				x = &Expr{K: xMethod, Name: "length", A: path}
			}
			if g.pct(15) {
				x.Name = []string{"size", "foo", "Length", "len", "length2", "lengt"}[g.Intn(6)]
			}
			if g.pct(20) {
				x.List = append(x.List, g.expr(1, 1))
			}
			if g.pct(10) {
				x.List = nil
			}
			y := &Expr{K: xBin, Op: []string{"==", "===", "<", ">="}[g.Intn(4)], A: x, B: &Expr{K: xConst, V: g.Intn(5)}}
			if g.pct(20) {
				y = &Expr{K: xBin, Op: "||", A: y, B: &Expr{K: xConst, V: true}}
			}
			filterCase(g, y)
			return
		}
		exprCase(g, "call", "method", "==", "<", "!", "||")
	},
	"C15": stringLiterals,
	"C16": numericLiterals,
	"C17": joins,
	"C18": func(g *G) {
		switch g.Intn(10) {
		case 0, 1:
			unsupported(g)
		case 2, 3, 4, 5:
			operators(g)
		default:
			g.depth = 3
			x := g.expr(3, 1)
			filterCase(g, x)
		}
	},
	"C19": func(g *G) {
		if g.pct(25) {
			simplePath(g)
			return
		}
		only(g, map[stepKind]int{sRoot: 2, sCur: 2, sWild: 5, sKey: 12, sUnion: 8, sFilter: 3, sSlice: 8})
		g.ops = []string{"==", "<", "!"}
		g.keys = allKeys
		steps := g.path(sRoot, 5, 1)
		if g.pct(10) {
			steps[len(steps)-1].Rec = true
			steps = append(steps, &Step{K: sWild})
		}
		if g.pct(5) {
			steps[0].K = sCur
		}
		checkText(g.pathText(steps), steps, g.rootDoc())
	},
	"C20": combinators,
	"C21": reuse,
	"C22": fuzz,
	"C23": syntaxErrors,
	"C24": mapModel,
}

// C25: the cases of the other properties, whatever comes of them, end
func init() {
	all := []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24"}
	props["C25"] = func(g *G) {
		defer func() { recover() }()
		props[all[g.Intn(len(all))]](g)
	}
}

// ---- literals ----

func (g *G) anyRune() rune {
	switch g.Intn(8) {
	case 0:
		return []rune{'\'', '"', '\\', '\n', '\r', '\t', 0, '\b', '\f', '\v', 0x2028, 0x2029}[g.Intn(12)]
	case 1:
		return []rune{'é', '日', 0x1F600, 0x80, 0xFFFD, 0x10FFFF, 0xFF}[g.Intn(7)]
	case 2:
		return []rune{'b', 'f', 'n', 'r', 't', 'v', '0', 'x', 'u', '{', '}', '_', '/', '.', '$', '@', '*', '[', ']'}[g.Intn(19)]
	}
	return rune(32 + g.Intn(95))
}

// stringLiteral is a literal and the string it spells
func (g *G) stringLiteral() (string, string) {
	q := []string{"'", `"`}[g.Intn(2)]
	lit, val := q, ""
	one := map[rune]string{'\b': "b", '\f': "f", '\n': "n", '\r': "r", '\t': "t", '\v': "v"}
	for i := g.Intn(7); i > 0; i-- {
		r := g.anyRune()
		switch g.Intn(10) {
		case 0: // line continuation
			lit += "\\" + []string{"\n", "\r", "\r\n", "\u2028", "\u2029"}[g.Intn(5)]
			continue
		case 1:
			if r < 256 {
				lit += fmt.Sprintf([]string{`\x%02x`, `\x%02X`}[g.Intn(2)], r)
				val += string(r)
				continue
			}
		case 2:
			if r <= 0xFFFF {
				lit += fmt.Sprintf([]string{`\u%04x`, `\u%04X`}[g.Intn(2)], r)
				val += string(r)
				continue
			}
		case 3:
			lit += fmt.Sprintf([]string{`\u{%02x}`, `\u{%X}`, `\u{%05x}`}[g.Intn(3)], r)
			val += string(r)
			continue
		case 4:
			if e, ok := one[r]; ok {
				lit += `\` + e
				val += string(r)
				continue
			}
			if r == 0 {
				lit += `\0`
				val += "\x00"
				continue
			}
		case 5: // a backslash before another character
			if !strings.ContainsRune("bfnrtv0123456789xu\r\n\u2028\u2029", r) {
				lit += `\` + string(r)
				val += string(r)
				continue
			}
		}
		switch {
		case string(r) == q || r == '\\':
			lit += `\` + string(r)
		case r == '\n':
			lit += `\n`
		case r == '\r':
			lit += `\r`
		default:
			lit += string(r)
		}
		val += string(r)
	}
	return lit + q, val
}

func stringLiterals(g *G) {
	lit, val := g.stringLiteral()
	other := val + "x"
	if g.pct(50) && len(val) > 0 {
		_, n := utf8.DecodeLastRuneInString(val)
		other = val[:len(val)-n]
	}
	if other == val {
		other = val + "?"
	}
	var steps []*Step
	var d *N
	switch g.Intn(3) {
	case 0:
		steps = []*Step{{K: sRoot}, {K: sFilter, X: &Expr{K: xBin, Op: "==", A: &Expr{K: xPath, Steps: []*Step{{K: sCur}}}, B: &Expr{K: xConst, V: val, lit: lit}}}}
		d = arr(vnode(other), vnode(val), vnode(val+val), vnode(lit))
	case 1:
		steps = []*Step{{K: sRoot}, {K: sKey, Key: val, lit: lit, brackets: true}}
		d = obj(other, vnode(0), val, vnode(1))
	default:
		steps = []*Step{{K: sRoot}, {K: sUnion, Parts: []*Step{{K: sKey, Key: val, lit: lit}, {K: sKey, Key: "unlikely"}}}}
		d = obj(val, vnode(1), other, vnode(0))
	}
	if len(d.Keys) == 2 && d.Keys[0] == d.Keys[1] {
		return
	}
	d.number(0)
	checkText(g.pathText(steps), steps, d)
}

func (g *G) numericLiteral() (string, any) {
	sep := func(ds string) string {
		out := ""
		for i, c := range ds {
			if i > 0 && g.pct(10) {
				out += strings.Repeat("_", 1+g.Intn(2))
			}
			out += string(c)
		}
		if g.pct(3) {
			out += "_"
		}
		return out
	}
	digits := func(set string, n int) string {
		s := ""
		for i := 1 + g.Intn(n); i > 0; i-- {
			s += string(set[g.Intn(len(set))])
		}
		return s
	}
	sat := func(ds string, base int) int {
		v, err := strconv.ParseUint(ds, base, 64)
		if err != nil || v > math.MaxInt {
			return math.MaxInt
		}
		return int(v)
	}
	big := 6
	if g.pct(20) {
		big = 25
	}
	switch g.Intn(8) {
	case 0:
		d := digits("0123456789abcdefABCDEF", min(big, 18))
		return []string{"0x", "0X"}[g.Intn(2)] + sep(d), sat(d, 16)
	case 1:
		d := digits("01234567", big)
		return []string{"0o", "0O"}[g.Intn(2)] + sep(d), sat(d, 8)
	case 2:
		d := digits("01", 3*big)
		return []string{"0b", "0B"}[g.Intn(2)] + sep(d), sat(d, 2)
	case 3, 4:
		d := digits("0123456789", big)
		return sep(d), sat(d, 10)
	}
	a := digits("0123456789", min(big, 18))
	l, c := sep(a), a
	if g.pct(70) {
		f := digits("0123456789", 6)
		l += "." + sep(f)
		c += "." + f
		if g.pct(50) {
			v, _ := strconv.ParseFloat(c, 64)
			return l, v
		}
	}
	e := []string{"e", "E"}[g.Intn(2)] + []string{"", "+", "-"}[g.Intn(3)]
	x := digits("0123456789", 2)
	if g.pct(30) {
		x = digits("0123456789", 4)
	}
	l += e + sep(x)
	c += e + x
	v, _ := strconv.ParseFloat(c, 64)
	return l, v
}

func numericLiterals(g *G) {
	lit, val := g.numericLiteral()
	if g.pct(8) {
		lit, val = "true", true
		switch g.Intn(3) {
		case 0:
			lit, val = "false", false
		case 1:
			lit, val = "null", nil
		}
	}
	var near []any
	switch v := val.(type) {
	case int:
		near = []any{v, float64(v), v + 1, v - 1, strconv.Itoa(v), v / 2}
	case float64:
		near = []any{v, math.Nextafter(v, 0), math.Nextafter(v, 1e308), -v, fmt.Sprint(v)}
		if math.Abs(v) < 1e15 {
			near = append(near, int(v))
		}
	default:
		near = []any{true, false, nil, "true", "null", 0, 1}
	}
	d := arr()
	for _, x := range near {
		d.Kids = append(d.Kids, vnode(x))
	}
	d.number(0)
	op := []string{"===", "==", "<=", "!=="}[g.Intn(4)]
	x := &Expr{K: xBin, Op: op, A: &Expr{K: xPath, Steps: []*Step{{K: sCur}}}, B: &Expr{K: xConst, V: val, lit: lit}}
	if g.pct(20) {
		x.A, x.B = x.B, x.A
	}
	if g.pct(10) {
		x = &Expr{K: xConst, V: val, lit: lit}
	}
	steps := []*Step{{K: sRoot}, {K: sFilter, X: x}}
	checkText(g.pathText(steps), steps, d)
}

// ---- joins ----

func (g *G) anyKey() string {
	k := g.anyKey1()
	if k == "*" {
		return "**"
	}
	return k
}

func (g *G) anyKey1() string {
	switch g.Intn(12) {
	case 0:
		return []string{"", "$", "@", "in", "null", "true", "false", "..", "?(", "/", "-", "_", "__", "$$", "a$", "0", "1", "00", "1.5", "0x1", "-1", "+1", "1e5", " ", "length", "e1", "a.b", "a/b", "[0]", "'", `"`, `\`, `\n`, `'"`, "a\nb", "a\\", "**", "* ", "'*'", "IN", "in2", "_1", "a_", "$1"}[g.Intn(42)]
	case 1:
		return string(g.anyRune())
	case 2:
		for {
			r := rune(g.Intn(0x3000))
			if utf8.ValidRune(r) {
				if g.pct(50) {
					return "a" + string(r)
				}
				return string(r)
			}
		}
	}
	s := ""
	for i := g.Intn(6); i > 0; i-- {
		if g.pct(60) {
			s += string(rune('a' + g.Intn(3)))
		} else {
			s += string(g.anyRune())
		}
	}
	if s == "*" {
		return "a"
	}
	return s
}

// along checks that the path selects exactly the member reached by the keys
func along(g *G, text string, keys []string) {
	leaf := vnode(1)
	d := leaf
	for i := len(keys) - 1; i >= 0; i-- {
		up := obj()
		for _, k := range []string{g.anyKey(), keys[i] + "x", strings.TrimSpace(keys[i]), strings.Trim(keys[i], `"'`), g.key()} {
			if k != keys[i] && up.child(k) == nil {
				up.Keys = append(up.Keys, k)
				up.Kids = append(up.Kids, vnode("no"))
			}
		}
		n := g.Intn(len(up.Keys) + 1)
		up.Keys = append(up.Keys[:n:n], append([]string{keys[i]}, up.Keys[n:]...)...)
		up.Kids = append(up.Kids[:n:n], append([]*N{d}, up.Kids[n:]...)...)
		d = up
	}
	d.number(0)
	p, err := jp.Parse(text)
	if err != nil {
		fail("Parse returns an error for a path built from keys", fmt.Sprintf("%s from %q", text, keys), d, err, "no error")
	}
	got := runSearch(text, d, p)
	if len(got) != 1 || got[0][len(got[0])-1].n != leaf {
		fail("the path does not select the member", fmt.Sprintf("%s from %q", text, keys), d, pathsString(got), leaf.Id)
	}
}

func joins(g *G) {
	var keys []string
	for i := g.Intn(4); i > 0; i-- {
		keys = append(keys, g.anyKey())
	}
	along(g, jp.Join(keys...), keys)
	k := g.anyKey()
	along(g, "$."+jp.MakeKeyString(k), []string{k})
}

// ---- parsing ----

// operators checks how operators group
func operators(g *G) {
	ops := []string{"**", "*", "/", "%", "+", "-", "<", "<=", ">", ">=", "in", "==", "!=", "===", "!==", "&&", "||"}
	leaf := func() *Expr {
		if g.pct(30) {
			return &Expr{K: xPath, Steps: []*Step{{K: sCur}}}
		}
		return &Expr{K: xConst, V: []any{0, 1, 2, 3, -1, true, false, 1.5, "2", nil}[g.Intn(10)]}
	}
	var mk func(n int) *Expr
	mk = func(n int) *Expr {
		if n <= 0 {
			return leaf()
		}
		switch g.Intn(10) {
		case 0:
			return &Expr{K: xNeg, A: mk(n - 1)}
		case 1:
			return &Expr{K: xNot, A: mk(n - 1)}
		case 2:
			return &Expr{K: xArr, List: []*Expr{mk(n - 1), leaf(), mk(n - 2)}}
		}
		return &Expr{K: xBin, Op: ops[g.Intn(len(ops))], A: mk(n - 1), B: mk(n - 1)}
	}
	x := mk(1 + g.Intn(3))
	d := arr(vnode(0), vnode(1), vnode(2), vnode(-1), vnode("2"), vnode(nil), vnode(true), vnode(2.5), vnode(false))
	d.number(0)
	steps := []*Step{{K: sRoot}, {K: sFilter, X: x}}
	checkText(g.pathText(steps), steps, d)
}

// unsupported expressions are reported by Parse
func unsupported(g *G) {
	g.ops = []string{"==", "<", "+", "&&", "!"}
	bads := []string{"~@.a", "@.a & 1", "@.a | @.b", "1 ^ 2", "~1", "a", "a.b", "a == 1", "abc", "1 & 2", "(1 | 2)", "x[0]", "-~1", "'a'.b", "[1,2].b", "(@.a).b", "a..b", "1.a",
		"*.length()", "$a.length()", "$a.b.length()", "@.*()", "$()", "@()", "@[:1]()", "[1]()", "1()", "@[*]()", "x.length()", "(@.length)()", "length(a)", "@.length(a.b)", "length()()"}
	bad := bads[g.Intn(len(bads))]
	if _, err := jp.Parse("$[?(" + bad + ")]"); err == nil {
		if strings.Contains(bad, "1.a") {
			return
		}
		fail("Parse accepts an unsupported expression", "$[?("+bad+")]", nil, "no error", "an error")
	}
	g.ops = []string{"==", "<", "+", "&&", "||", "in", "-", "*", "**", "/", "%", "!=", "===", "!==", ">", "<=", ">="}
	t := bad
	for i := 1 + g.Intn(3); i > 0; i-- {
		switch g.Intn(6) {
		case 0:
			t = "!(" + t + ")"
		case 1:
			t = "(" + t + ") " + g.ops[g.Intn(len(g.ops))] + " " + g.paren(g.expr(1, 0), true)
		case 2:
			t = g.paren(g.expr(1, 0), true) + " " + g.ops[g.Intn(len(g.ops))] + " (" + t + ")"
		case 3:
			t = "[1,(" + t + "),2]"
		case 4:
			t = "length(1,(" + t + "))"
		default:
			t = "-(" + t + ")"
		}
	}
	for _, f := range []string{"$[?(%s)]", "$.a[?(%s)].b", "$[(%s):]", "$[:(%s)]", "$..[?(%s),'a']", "$[::(%s)]"} {
		text := fmt.Sprintf(f, t)
		if _, err := jp.Parse(text); err == nil {
			fail("Parse accepts an unsupported expression", text, nil, "no error", "an error")
		}
	}
}

func simplePath(g *G) {
	steps := []*Step{{K: sRoot}}
	text := ""
	for i := 1 + g.Intn(4); i > 0; i-- {
		sp := ""
		if g.pct(20) && text != "" {
			sp = " "
		}
		text += sp + "/"
		if g.pct(20) && len(steps) > 1 {
			text += " "
		}
		switch g.Intn(5) {
		case 0:
			steps = append(steps, &Step{K: sWild})
			text += "*"
		case 1:
			n := []string{"0", "1", "2", "01", "0x1", "1.5", "true", "null", "1_0", "12"}[g.Intn(10)]
			steps = append(steps, &Step{K: sKey, Key: n})
			text += n
		case 2:
			lit, val := g.stringLiteral()
			steps = append(steps, &Step{K: sKey, Key: val})
			text += lit
		default:
			k := g.key()
			steps = append(steps, &Step{K: sKey, Key: k})
			if isIdent(k) && k != "null" {
				text += k
			} else {
				text += g.str(k)
			}
		}
	}
	checkText(text, steps, g.rootDoc())
}

type counter struct {
	*antlr.DefaultErrorListener
	n int
}

func (c *counter) SyntaxError(antlr.Recognizer, interface{}, int, int, string, antlr.RecognitionException) {
	c.n++
}

// syntaxOK tells if the generated parser accepts the text
func syntaxOK(text string) bool {
	c := &counter{DefaultErrorListener: antlr.NewDefaultErrorListener()}
	l := parser.NewJsonpathLexer(antlr.NewInputStream(text))
	l.RemoveErrorListeners()
	l.AddErrorListener(c)
	p := parser.NewJsonpathParser(antlr.NewCommonTokenStream(l, 0))
	p.RemoveErrorListeners()
	p.AddErrorListener(c)
	if len(text) > 0 && text[0] == '/' {
		p.SimplePath()
	} else {
		p.Path()
	}
	return c.n == 0
}

var soup = []string{"$", "@", "*", ".", "..", "...", "[", "]", "(", ")", "?(", ",", ":", "'a'", `"b"`, "a", "b", "0", "1", "-1", "1.5", "null", "true", "in", "==", "===", "!=", "!", "-", "+", "<", ">=", "&&", "||", "&", "|", "^", "~", "**", "%", "/", "length", "()", " ", "\n", "'", `"`, `\`, "#", "é", "\x00", "\xff", "{", "}", ";", "=", "0x", "0b1", "1e5", `"\u{`, `'\x4`, "日", "length()", "[?(", ")]", "[0]", "['a']", "[::-1]", "[?(@.a)]"}

func (g *G) text() string {
	t := ""
	switch g.Intn(4) {
	case 0:
		for i := g.Intn(12); i > 0; i-- {
			t += soup[g.Intn(len(soup))]
		}
		if g.pct(60) {
			t = []string{"$", "/", "@"}[g.Intn(3)] + t
		}
	case 1:
		b := make([]byte, g.Intn(10))
		for i := range b {
			b[i] = byte(g.Intn(256))
		}
		t = string(b)
	default:
		g.keys = allKeys
		t = g.pathText(g.path(sRoot, 4, 2))
		if g.pct(20) {
			t = jp.Join(g.anyKey(), g.anyKey())
		}
		for i := g.Intn(3); i > 0; i-- {
			n := g.Intn(len(t) + 1)
			m := n + g.Intn(3)
			if m > len(t) {
				m = len(t)
			}
			switch g.Intn(3) {
			case 0:
				t = t[:n] + t[m:]
			case 1:
				t = t[:n] + soup[g.Intn(len(soup))] + t[n:]
			default:
				t = t[:n] + soup[g.Intn(len(soup))] + t[m:]
			}
		}
	}
	return t
}

func syntaxErrors(g *G) {
	t := g.text()
	if t == "/" {
		return
	}
	_, err := jp.Parse(t)
	if err == nil && !syntaxOK(t) {
		fail("Parse does not report a syntax error", t, nil, "no error", "an error")
	}
	if err != nil {
		if res, err2 := jp.ParseAndFind(Doc{vnode(1)}, t); err2 == nil {
			fail("ParseAndFind does not report the error of Parse", t, nil, fmt.Sprint(res), err)
		}
	}
	// valid text is accepted, and invalid text is not
	steps := g.path(sRoot, 3, 1)
	ok := g.pathText(steps)
	if _, err := jp.Parse(ok); err != nil {
		fail("Parse returns an error for a valid path", ok, nil, err, "no error")
	}
	for _, bad := range []string{ok + "]", ok + ")", ok + " $", ok + "#", ok + ".", ok + "[", "." + ok, ok + " x", ok + "'", ok + "[1", ok + "[?(1]", "/a" + "[", "/a//b", "/a/", "//", "/a b", "/a/#", "", " "} {
		if _, err := jp.Parse(bad); err == nil {
			if !syntaxOK(bad) || bad == "" || bad[0] == '/' {
				fail("Parse does not report a syntax error", bad, nil, "no error", "an error")
			}
		}
	}
}

// fuzz only looks for panics
func fuzz(g *G) {
	d := g.rootDoc()
	g.keys = allKeys
	try := func(p jp.Path, text string) {
		for _, m := range []jp.DocModel{Doc{d}, jp.MapModel{Doc: d.plain()}, jp.MapModel{}} {
			guard("Search", text, d, func() {
				jp.Search(m, p, func(jp.DocPath) {})
				jp.Find(m, p)
			})
		}
	}
	for i := 0; i < 3; i++ {
		t := g.text()
		var p jp.Path
		guard("Parse", t, nil, func() { p, _ = jp.Parse(t) })
		try(p, t)
	}
	p, t := build(g, builtSteps(g, 4))
	if g.pct(50) {
		p = jp.RecursiveDescent(p)
	}
	if g.pct(30) {
		p = jp.Append(jp.SelectCurrentPath, p, jp.Path{}, jp.RecursiveDescent(jp.Path{}))
	}
	try(p, t)
	k := g.anyKey()
	guard("Join", k, nil, func() { jp.Join(k, g.anyKey()); jp.MakeKeyString(k) })
	b := make([]byte, g.Intn(6))
	g.Read(b)
	guard("Join", fmt.Sprintf("%q", b), nil, func() { jp.Join(string(b)); jp.MakeKeyString(string(b)); jp.Parse(jp.Join(string(b))) })
}

func guard(what, text string, d *N, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, skip:
				panic(r)
			}
			fail(what+" panics", text, d, r, "no panic")
		}
	}()
	f()
}

// ---- combinators ----

type built struct {
	p     jp.Path
	steps []*Step
	text  string
	how   string
}

func combinators(g *G) {
	d := g.rootDoc()
	pool := []built{
		{jp.SelectRootPath, []*Step{{K: sRoot}}, "", "SelectRootPath"},
		{jp.SelectCurrentPath, []*Step{{K: sCur}}, "", "SelectCurrentPath"},
		{jp.WildcardPath, []*Step{{K: sWild}}, "", "WildcardPath"},
		{jp.Path{}, nil, "", "Path{}"},
		{jp.Append(), nil, "", "Append()"},
	}
	for i := 3 + g.Intn(8); i > 0; i-- {
		switch g.Intn(6) {
		case 0:
			k := g.key()
			pool = append(pool, built{jp.KeySelectorPath(k), []*Step{{K: sKey, Key: k}}, "", fmt.Sprintf("Key(%q)", k)})
		case 1:
			n := g.index()
			pool = append(pool, built{jp.IndexSelectorPath(n), []*Step{{K: sIndex, Index: n}}, "", fmt.Sprintf("Index(%d)", n)})
		case 2:
			x := pool[g.Intn(len(pool))]
			s := append([]*Step(nil), x.steps...)
			if n := len(s); n > 0 {
				c := *s[n-1]
				c.Rec = true
				s[n-1] = &c
			}
			pool = append(pool, built{jp.RecursiveDescent(x.p), s, "", "Rec(" + x.how + ")"})
		case 3:
			s := g.path([]stepKind{sRoot, sCur}[g.Intn(2)], 3, 1)
			t := g.pathText(s)
			pool = append(pool, built{mustParse(t), s, t, "Parse(" + t + ")"})
		default:
			var ps []jp.Path
			var s []*Step
			how := "Append("
			for j := g.Intn(4); j >= 0; j-- {
				x := pool[g.Intn(len(pool))]
				if len(s)+len(x.steps) > 7 {
					continue
				}
				ps = append(ps, x.p)
				s = append(s, x.steps...)
				how += x.how + " "
			}
			pool = append(pool, built{jp.Append(ps...), s, "", how + ")"})
		}
	}
	pool = append(pool, built{jp.SelectRootPath, []*Step{{K: sRoot}}, "", "SelectRootPath"},
		built{jp.WildcardPath, []*Step{{K: sWild}}, "", "WildcardPath"}, built{jp.SelectCurrentPath, []*Step{{K: sCur}}, "", "SelectCurrentPath"})
	for _, x := range pool {
		recs := 0
		for _, s := range x.steps {
			if s.Rec {
				recs++
			}
		}
		if recs > 2 {
			continue
		}
		steps := x.steps
		p := x.p
		guard("Search", x.how, d, func() { checkPath(x.how, p, steps, d) })
		// from the root, every step counts
		if len(steps) > 0 && steps[0].K != sRoot && steps[0].K != sCur {
			guard("Search", x.how, d, func() {
				checkPath("$ "+x.how, jp.Append(jp.SelectRootPath, p), append([]*Step{{K: sRoot}}, steps...), d)
			})
		}
	}
}

// ---- reuse ----

func reuse(g *G) {
	steps := g.path(sRoot, 4, 2)
	text := g.pathText(steps)
	p := mustParse(text)
	d1, d2 := g.rootDoc(), g.rootDoc()
	if g.pct(20) {
		d1, d2 = g.wide(), g.wide()
	}
	w1, w2 := search(d1, []seg{{n: d1}}, steps), search(d2, []seg{{n: d2}}, steps)
	if len(w1) > 60 || len(w2) > 200 {
		panic(skip{})
	}
	check := func(d *N, want [][]seg) {
		if got := runSearch(text, d, p); pathsString(got) != pathsString(want) {
			fail("a path used again reports other paths", text, d, pathsString(got), pathsString(want))
		}
	}
	check(d1, w1)
	check(d2, w2)
	check(d1, w1)
	// searches within searches
	var got [][]seg
	jp.Search(Doc{d1}, p, func(dp jp.DocPath) {
		check(d2, w2)
		if g.pct(20) {
			check(d1, w1)
		}
		got = append(got, fromDocPath(text, d1, dp))
		// the path belongs to the callback
		for i := range dp.P {
			dp.P[i] = jp.Segment{}
		}
		dp.P = append(dp.P, jp.Segment{})
	})
	if pathsString(got) != pathsString(w1) {
		fail("a search disturbed by its callback reports other paths", text, d1, pathsString(got), pathsString(w1))
	}
	// two searches at the same time
	done := make(chan any, 2)
	for _, x := range []struct {
		d *N
		w [][]seg
	}{{d1, w1}, {d2, w2}} {
		go func() {
			defer func() { done <- recover() }()
			check(x.d, x.w)
		}()
	}
	r1, r2 := <-done, <-done
	if r1 != nil {
		panic(r1)
	}
	if r2 != nil {
		panic(r2)
	}
	// a MapModel document stays as it is
	m := d1.plain()
	s := fromPlain(m).String()
	r, _ := jp.Find(jp.MapModel{Doc: m}, p)
	if fromPlain(m).String() != s {
		fail("the document has changed", text, d1, fromPlain(m).String(), s)
	}
	r2nd, _ := jp.Find(jp.MapModel{Doc: m}, p)
	if len(r) != len(r2nd) {
		fail("a path used again finds other nodes", text, d1, len(r2nd), len(r))
	}
}

// ---- MapModel ----

func mapModel(g *G) {
	d := g.doc(3)
	g.keys = allKeys
	x := d.plain()
	m := jp.MapModel{Doc: x}
	if fromPlain(m.Root()).String() != fromPlain(x).String() {
		fail("Root is not the document", "", d, m.Root(), x)
	}
	if g.pct(10) {
		x = []any{map[string]int{"a": 1}, []int{1}, map[int]any{1: 2}, [2]any{1, 2}, struct{}{}, map[string]any(nil), []any(nil), []string{"a"}, (*int)(nil)}[g.Intn(9)]
	}
	var t jp.NodeType
	switch v := x.(type) {
	case map[string]any:
		t = jp.ObjectNode
		ks := m.Keys(x)
		seen := map[string]bool{}
		for _, k := range ks {
			if _, ok := v[k]; !ok || seen[k] {
				fail("Keys has another key or a key twice", "", d, ks, v)
			}
			seen[k] = true
		}
		if len(seen) != len(v) {
			fail("Keys lacks a key", "", d, ks, v)
		}
		if m.Len(x) != len(v) {
			fail("Len of a map", "", d, m.Len(x), len(v))
		}
		for _, k := range append(ks, g.key(), g.key(), "zzz") {
			want, ok := v[k]
			got, ok2 := m.Key(x, k)
			if ok != ok2 || ok && fromPlain(got).String() != fromPlain(want).String() || !ok && got != nil {
				fail("Key "+k, "", d, fmt.Sprint(got, ok2), fmt.Sprint(want, ok))
			}
		}
	case []any:
		t = jp.ArrayNode
		if m.Len(x) != len(v) {
			fail("Len of a slice", "", d, m.Len(x), len(v))
		}
		for i := range v {
			if got := m.Elem(x, i); fromPlain(got).String() != fromPlain(v[i]).String() {
				fail(fmt.Sprintf("Elem %d", i), "", d, got, v[i])
			}
		}
	}
	if m.Type(x) != t {
		fail("Type", fmt.Sprintf("%T", x), d, m.Type(x), t)
	}
	if t == jp.ValueNode {
		if _, ok := m.Key(x, "a"); ok {
			fail("a value has a key", fmt.Sprintf("%T", x), d, true, false)
		}
		if ks := m.Keys(x); len(ks) != 0 {
			fail("a value has keys", fmt.Sprintf("%T", x), d, ks, "none")
		}
		if v := fmt.Sprintf("%#v", m.Value(x)); v != fmt.Sprintf("%#v", x) {
			fail("Value", "", d, v, x)
		}
	}
}

var _ = unicode.IsDigit
