package main

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"sync"

	jp "github.com/bserdar/gojsonpath"
)

// Failure is a violation
type Failure struct {
	Property, What, Path, Doc string
	Got, Want                 string
	Seed                      int64
	Case                      int
}

type failure struct{ f Failure }

func fail(what, path string, d *N, got, want any) {
	f := Failure{What: what, Path: path, Got: fmt.Sprint(got), Want: fmt.Sprint(want)}
	if d != nil {
		f.Doc = d.String()
	}
	panic(failure{f})
}

func pathString(p []seg) string {
	var ss []string
	for i, s := range p {
		t := fmt.Sprintf("%d", s.n.Id)
		if i > 0 {
			if p[i-1].n.T == jp.ObjectNode {
				t = fmt.Sprintf("%q=%d", s.name, s.n.Id)
			} else {
				t = fmt.Sprintf("[%d]=%d", s.idx, s.n.Id)
			}
		}
		ss = append(ss, t)
	}
	return strings.Join(ss, " ")
}

func pathsString(ps [][]seg) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, pathString(p))
	}
	return strings.Join(ss, "; ")
}

// fromDocPath checks that a reported path is a path from the root
func fromDocPath(text string, d *N, dp jp.DocPath) []seg {
	var out []seg
	for i, s := range dp.P {
		n, ok := s.Node.(*N)
		if !ok {
			fail("segment without a node of the document", text, d, fmt.Sprint(dp.P), "")
		}
		if s.Type != n.T {
			fail("segment with a wrong type", text, d, fmt.Sprint(s.Type, " of ", n), n.T)
		}
		if i == 0 {
			if n != d {
				fail("the path does not start with the root", text, d, n, d)
			}
			if s.Name != "" || s.Index != 0 {
				fail("the root has a name or an index", text, d, fmt.Sprint(s.Name, s.Index), "")
			}
		} else {
			up := out[i-1].n
			switch up.T {
			case jp.ObjectNode:
				if up.child(s.Name) != n || s.Index != 0 {
					fail("segment is not the member of the object it is in", text, d, fmt.Sprint(s.Name, s.Index, n), up)
				}
			case jp.ArrayNode:
				if s.Index < 0 || s.Index >= len(up.Kids) || up.Kids[s.Index] != n || s.Name != "" {
					fail("segment is not the element of the array it is in", text, d, fmt.Sprint(s.Name, s.Index, n), up)
				}
			default:
				fail("segment below a value", text, d, n, up)
			}
		}
		out = append(out, seg{n, s.Name, s.Index})
	}
	if len(out) == 0 {
		fail("empty path reported", text, d, "", "")
	}
	return out
}

// Some of the paths which have been tried, and how many there were
var tried struct {
	sync.Mutex
	seen    map[uint64]bool
	samples []string
}

func note(text string) {
	h := fnv.New64a()
	h.Write([]byte(text))
	k := h.Sum64()
	tried.Lock()
	defer tried.Unlock()
	if tried.seen == nil {
		tried.seen = map[uint64]bool{}
	}
	if len(tried.seen) < 2000000 && !tried.seen[k] {
		tried.seen[k] = true
		if len(tried.samples) < 5 {
			tried.samples = append(tried.samples, text)
		}
	}
}

func mustParse(text string) jp.Path {
	note(text)
	p, err := jp.Parse(text)
	if err != nil {
		fail("Parse returns an error for a valid path", text, nil, err, "no error")
	}
	return p
}

// runSearch searches the document, and checks the reported paths
func runSearch(text string, d *N, p jp.Path) [][]seg {
	var kept []jp.DocPath
	var got [][]seg
	err := jp.Search(Doc{d}, p, func(dp jp.DocPath) {
		kept = append(kept, dp)
		got = append(got, fromDocPath(text, d, dp))
	})
	if err != nil {
		fail("Search returns an error", text, d, err, "no error")
	}
	for i, dp := range kept {
		if now := fromDocPath(text, d, dp); pathString(now) != pathString(got[i]) {
			fail("a reported path has changed after the callback returned", text, d, pathString(now), pathString(got[i]))
		}
	}
	return got
}

func nodesOf(ps [][]seg) []*N {
	var out []*N
	for _, p := range ps {
		out = append(out, p[len(p)-1].n)
	}
	return out
}

func ids(ns []*N) string {
	var out []string
	for _, n := range ns {
		out = append(out, fmt.Sprint(n.Id))
	}
	return strings.Join(out, " ")
}

// checkPath compares the searches for a path with the reference
func checkPath(text string, p jp.Path, steps []*Step, d *N) [][]seg {
	want := search(d, []seg{{n: d}}, steps)
	before := d.String()
	got := runSearch(text, d, p)
	if pathsString(got) != pathsString(want) {
		fail("Search reports other paths", text, d, pathsString(got), pathsString(want))
	}
	res, err := jp.Find(Doc{d}, p)
	if err != nil {
		fail("Find returns an error", text, d, err, "no error")
	}
	if res == nil {
		fail("Find returns nil", text, d, "nil", "a list")
	}
	var ns []*N
	for _, x := range res {
		n, _ := x.(*N)
		ns = append(ns, n)
	}
	if ids(ns) != ids(nodesOf(want)) {
		fail("Find returns other nodes", text, d, ids(ns), ids(nodesOf(want)))
	}
	if s := d.String(); s != before {
		fail("the document has changed", text, d, s, before)
	}
	return want
}

// checkMap does the same with a MapModel
func checkMap(text string, p jp.Path, want [][]seg, d *N) {
	for _, s := range want {
		for _, x := range s {
			_ = x
		}
	}
	m := d.plain()
	res, err := jp.Find(jp.MapModel{Doc: m}, p)
	if err != nil {
		fail("Find returns an error", text, d, err, "no error")
	}
	var a, b []string
	for _, x := range res {
		a = append(a, fromPlain(x).String())
	}
	for _, n := range nodesOf(want) {
		b = append(b, fromPlain(n.plain()).String())
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		fail("Find in a MapModel returns other nodes", text, d, a, b)
	}
	if x, y := fromPlain(m).String(), fromPlain(d.plain()).String(); x != y {
		fail("the document has changed", text, d, x, y)
	}
}

func checkText(text string, steps []*Step, d *N) {
	p := mustParse(text)
	want := checkPath(text, p, steps, d)
	res, err := jp.ParseAndFind(Doc{d}, text)
	if err != nil {
		fail("ParseAndFind returns an error", text, d, err, "no error")
	}
	var ns []*N
	for _, x := range res {
		n, _ := x.(*N)
		ns = append(ns, n)
	}
	if ids(ns) != ids(nodesOf(want)) {
		fail("ParseAndFind returns other nodes", text, d, ids(ns), ids(nodesOf(want)))
	}
	checkMap(text, p, want, d)
}

var _ = reflect.DeepEqual
