package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type fieldInfo struct {
	name string // a.b for nested structs
	sort Sort
	typ  types.Type
}

// classInfo is a type implementing one of the interfaces whose values are
// terms
type classInfo struct {
	name   string
	typ    types.Type // T or *T, as it is stored in the interface
	named  *types.Named
	ptr    bool
	iface  string // sort of the interface
	fields []fieldInfo
	tag    int
	spec   string // its name in the specification, if that is another one
}

func (c *classInfo) mk() string             { return "mk_" + c.name }
func (c *classInfo) getter(f string) string { return "get_" + c.name + "_" + f }

type program struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	tpkg    *types.Package
	ifaces  map[string]*types.Interface // sort -> interface
	classes map[string]*classInfo
	byType  map[string]*classInfo
	funcs   map[string]*ssa.Function
	files   []string
}

var pr *program

const modPath = "github.com/bserdar/gojsonpath"

func loadProgram(dir string) (*program, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
		packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedCompiledGoFiles}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("%v", pkgs[0].Errors)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &program{prog: prog, pkg: sp[0], tpkg: pkgs[0].Types, ifaces: map[string]*types.Interface{}, classes: map[string]*classInfo{},
		byType: map[string]*classInfo{}, funcs: map[string]*ssa.Function{}, files: pkgs[0].GoFiles}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == p.pkg && fn.Synthetic == "" {
			p.funcs[fnName(fn)] = fn
		}
	}
	return p, nil
}

// fnName is the name of a function, as used in the contracts
func fnName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return "(*" + n.Obj().Name() + ")." + fn.Name()
			}
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

// setupClasses declares the sorts of the interfaces and constructors for
// their implementations
func (p *program) setupClasses(ifaces map[string]string) {
	scope := p.tpkg.Scope()
	names := scope.Names()
	var sorts []string
	for s := range ifaces {
		sorts = append(sorts, s)
	}
	sort.Strings(sorts)
	for _, s := range sorts {
		declSort(s)
		o := scope.Lookup(ifaces[s])
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		p.ifaces[s] = it
		declFun("nil_"+s, nil, s)
		declFun("tag_"+s, []Sort{s}, "Int")
	}
	tag := 1
	for _, s := range sorts {
		it := p.ifaces[s]
		if it == nil {
			continue
		}
		for _, n := range names {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := named.Underlying().(*types.Interface); isI {
				continue
			}
			c := &classInfo{name: n, named: named, iface: s, tag: tag}
			if types.Implements(named, it) {
				c.typ = named
			} else if types.Implements(types.NewPointer(named), it) {
				c.typ = types.NewPointer(named)
				c.ptr = true
			} else {
				continue
			}
			tag++
			p.addFields(c, "", named.Underlying())
			var fs []Sort
			for _, f := range c.fields {
				fs = append(fs, f.sort)
				declFun(c.getter(f.name), []Sort{s}, f.sort)
			}
			declFun(c.mk(), fs, s)
			th.mkCtors[c.mk()] = c
			p.classes[n] = c
		}
	}
}

func (p *program) addFields(c *classInfo, prefix string, t types.Type) {
	st, ok := t.(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if sub, ok := f.Type().Underlying().(*types.Struct); ok {
			if _, sp := sortOfType(f.Type()); !sp {
				p.addFields(c, prefix+f.Name()+".", sub)
				continue
			}
		}
		s, ok := sortOfType(f.Type())
		if !ok {
			s = "Opaque"
			declSort(s)
		}
		c.fields = append(c.fields, fieldInfo{prefix + f.Name(), s, f.Type()})
	}
}

// specName is the name of the class in the specification
func (c *classInfo) specName() string {
	if c.spec != "" {
		return c.spec
	}
	return c.name
}

// classOf returns the class of a dynamic type stored in an interface.
// Both T and *T are accepted if the interface holds the other one
func (p *program) classOf(t types.Type) (*classInfo, bool) {
	ptr := false
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
		ptr = true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != p.tpkg {
		return nil, false
	}
	c, ok := p.classes[n.Obj().Name()]
	return c, ok && (c.ptr == ptr || !c.ptr)
}

func isNamed(t types.Type, pkgSuffix, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	pk := ""
	if n.Obj().Pkg() != nil {
		pk = n.Obj().Pkg().Path()
	}
	return n.Obj().Name() == name && strings.HasSuffix(pk, pkgSuffix)
}

// isTreeType tells if values of the type are nodes of the parse tree
func isTreeType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	switch t := t.(type) {
	case *types.Named:
		pk := t.Obj().Pkg()
		if pk == nil {
			return false
		}
		if strings.HasSuffix(pk.Path(), "gojsonpath/parser") {
			n := t.Obj().Name()
			return strings.HasSuffix(n, "Context")
		}
		if strings.Contains(pk.Path(), "antlr") {
			switch t.Obj().Name() {
			case "Tree", "ParseTree", "TerminalNode", "SyntaxTree", "RuleNode", "RuleContext", "ParserRuleContext", "BaseParserRuleContext", "BaseRuleContext", "TerminalNodeImpl":
				return true
			}
		}
	case *types.Interface:
		if t.NumMethods() == 0 {
			return false
		}
		for i := 0; i < t.NumMethods(); i++ {
			switch t.Method(i).Name() {
			case "GetText", "AllExpression", "Expression", "GetChildren", "AllIndexExpression":
			default:
				return false
			}
		}
		return true
	}
	return false
}

// sortOfType returns the SMT sort of the values of a Go type, if they are
// represented by terms
func sortOfType(t types.Type) (Sort, bool) {
	if isTreeType(t) {
		declSort("Tree")
		return "Tree", true
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil && n.Obj().Name() == "error" {
			return "Err", true
		}
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath {
			switch n.Obj().Name() {
			case "expression":
				return "Expr", true
			case "selector":
				return "Sel", true
			case "DocModel":
				return "Doc", true
			case "Segment":
				return "Seg", true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool", true
		case u.Info()&types.IsInteger != 0:
			return "Int", true
		case u.Info()&types.IsFloat != 0:
			return "Flt", true
		case u.Info()&types.IsString != 0:
			return "Str", true
		case u.Kind() == types.UntypedNil:
			return "", false
		}
	case *types.Interface:
		if u.Empty() {
			return "Any", true
		}
	case *types.Slice:
		if es, ok := sortOfType(u.Elem()); ok {
			return seqOf(es), true
		}
		if isNamed(u.Elem(), "gojsonpath", "Path") {
			return seqOf("Path"), true
		}
		// exprValue and other single field structs
		if st, ok := u.Elem().Underlying().(*types.Struct); ok && st.NumFields() == 1 {
			if es, ok := sortOfType(st.Field(0).Type()); ok {
				return seqOf(es), true
			}
		}
	case *types.Signature:
		declSort("Fun")
		return "Fun", true
	case *types.Map:
		return "Map", true
	}
	return "", false
}

func (p *program) ifaceType(name string) *types.Interface {
	o := p.tpkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	it, _ := o.Type().Underlying().(*types.Interface)
	return it
}

func implements(t types.Type, it *types.Interface) bool { return types.Implements(t, it) }
