package main

import (
	"fmt"
	"strconv"
	"strings"
)

// S is an s-expression: an atom, a string literal or a list
type S struct {
	Atom string
	Str  bool // string literal
	List []*S
	Line int
	File string
}

func (s *S) isList() bool { return s.List != nil }
func (s *S) head() string {
	if len(s.List) > 0 && !s.List[0].isList() && !s.List[0].Str {
		return s.List[0].Atom
	}
	return ""
}
func (s *S) String() string {
	if s.List == nil {
		if s.Str {
			return strconv.Quote(s.Atom)
		}
		return s.Atom
	}
	var p []string
	for _, x := range s.List {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}
func (s *S) fail(f string, a ...any) {
	panic(fmt.Sprintf("%s:%d: %s in %s", s.File, s.Line, fmt.Sprintf(f, a...), s))
}

func parseS(file, in string) []*S {
	line := 1
	i := 0
	var parse func() *S
	skip := func() {
		for i < len(in) {
			c := in[i]
			if c == '\n' {
				line++
				i++
			} else if c == ' ' || c == '\t' || c == '\r' {
				i++
			} else if c == ';' {
				for i < len(in) && in[i] != '\n' {
					i++
				}
			} else {
				return
			}
		}
	}
	parse = func() *S {
		skip()
		if i >= len(in) {
			panic(fmt.Sprintf("%s:%d: unexpected end", file, line))
		}
		l := line
		switch in[i] {
		case '(':
			i++
			out := []*S{}
			for {
				skip()
				if i >= len(in) {
					panic(fmt.Sprintf("%s: list from line %d is not closed", file, l))
				}
				if in[i] == ')' {
					i++
					return &S{List: out, Line: l, File: file}
				}
				out = append(out, parse())
			}
		case ')':
			panic(fmt.Sprintf("%s:%d: unexpected )", file, line))
		case '"':
			j := i + 1
			for in[j] != '"' {
				if in[j] == '\\' {
					j++
				}
				j++
			}
			v, err := strconv.Unquote(in[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: %v", file, line, err))
			}
			i = j + 1
			return &S{Atom: v, Str: true, Line: l, File: file}
		}
		j := i
		for j < len(in) && !strings.ContainsRune(" \t\r\n()\";", rune(in[j])) {
			j++
		}
		a := in[i:j]
		i = j
		return &S{Atom: a, Line: l, File: file}
	}
	var out []*S
	for {
		skip()
		if i >= len(in) {
			return out
		}
		out = append(out, parse())
	}
}
