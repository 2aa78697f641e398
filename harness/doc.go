package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"

	jp "github.com/bserdar/gojsonpath"
)

// N is a node of a document with ordered keys. Nodes have an identity
type N struct {
	T    jp.NodeType
	V    any
	Keys []string
	Kids []*N
	Id   int
}

func (n *N) child(k string) *N {
	for i, x := range n.Keys {
		if x == k {
			return n.Kids[i]
		}
	}
	return nil
}

// plain is the node as Go maps, slices and values
func (n *N) plain() any {
	switch n.T {
	case jp.ObjectNode:
		m := map[string]any{}
		for i, k := range n.Keys {
			m[k] = n.Kids[i].plain()
		}
		return m
	case jp.ArrayNode:
		a := make([]any, 0, len(n.Kids))
		for _, k := range n.Kids {
			a = append(a, k.plain())
		}
		return a
	}
	return n.V
}

func (n *N) String() string {
	switch n.T {
	case jp.ObjectNode:
		s := "{"
		for i, k := range n.Keys {
			if i > 0 {
				s += ","
			}
			s += strconv.Quote(k) + ":" + n.Kids[i].String()
		}
		return s + "}"
	case jp.ArrayNode:
		s := "["
		for i, k := range n.Kids {
			if i > 0 {
				s += ","
			}
			s += k.String()
		}
		return s + "]"
	}
	return valText(n.V)
}

func valText(v any) string {
	if f, ok := v.(float64); ok {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return fmt.Sprintf("float(%v)", f)
		}
		if f == math.Trunc(f) && math.Abs(f) < 1e15 {
			return strconv.FormatFloat(f, 'f', 1, 64)
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// Doc is a DocModel over nodes. It is strict: it panics if it is asked for an
// element which does not exist
type Doc struct{ root *N }

func (d Doc) Root() any              { return d.root }
func (d Doc) Type(x any) jp.NodeType { return x.(*N).T }
func (d Doc) Len(x any) int          { return len(x.(*N).Kids) }
func (d Doc) Elem(x any, i int) any  { return x.(*N).Kids[i] }
func (d Doc) Keys(x any) []string    { return append([]string(nil), x.(*N).Keys...) }
func (d Doc) Value(x any) any        { return x.(*N).plain() }
func (d Doc) Key(x any, k string) (any, bool) {
	n := x.(*N)
	if n.T != jp.ObjectNode {
		return nil, false
	}
	c := n.child(k)
	if c == nil {
		return nil, false
	}
	return c, true
}

// number the nodes, and count them
func (n *N) number(i int) int {
	n.Id = i
	i++
	for _, k := range n.Kids {
		i = k.number(i)
	}
	return i
}

func vnode(v any) *N { return &N{V: v} }
func arr(k ...*N) *N { return &N{T: jp.ArrayNode, Kids: k} }
func obj(kv ...any) *N {
	n := &N{T: jp.ObjectNode}
	for i := 0; i < len(kv); i += 2 {
		n.Keys = append(n.Keys, kv[i].(string))
		n.Kids = append(n.Kids, kv[i+1].(*N))
	}
	return n
}

// fromPlain makes nodes of Go values, with sorted keys
func fromPlain(x any) *N {
	switch v := x.(type) {
	case map[string]any:
		n := &N{T: jp.ObjectNode}
		for k := range v {
			n.Keys = append(n.Keys, k)
		}
		sort.Strings(n.Keys)
		for _, k := range n.Keys {
			n.Kids = append(n.Kids, fromPlain(v[k]))
		}
		return n
	case []any:
		n := &N{T: jp.ArrayNode}
		for _, k := range v {
			n.Kids = append(n.Kids, fromPlain(k))
		}
		return n
	}
	return vnode(x)
}
