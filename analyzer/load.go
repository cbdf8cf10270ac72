package main

// Loading: the package of /repo is type-checked and translated to SSA, and its
// initialisation is analysed to obtain the abstract state every call starts from.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded package.
type Program struct {
	fset  *token.FileSet
	tpkg  *types.Package
	prog  *ssa.Program
	pkg   *ssa.Package
	own   map[*ssa.Package]bool
	files []string
}

func load(dir string, env ...string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes,
		Dir:  dir,
		Fset: fset,
		Env:  append(os.Environ(), env...),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	root := -1
	p := &Program{fset: fset}
	for i, q := range ps {
		if len(q.Errors) > 0 {
			return nil, fmt.Errorf("%v", q.Errors[0])
		}
		p.files = append(p.files, q.GoFiles...)
		if q.TypesSizes != nil {
			setWordSize(uint(q.TypesSizes.Sizeof(types.Typ[types.Int])) * 8)
		}
		if len(q.GoFiles) > 0 && filepath.Dir(q.GoFiles[0]) == filepath.Clean(dir) {
			root = i
		}
	}
	if root < 0 {
		return nil, fmt.Errorf("no package in %s", dir)
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	if pkgs[root] == nil {
		return nil, fmt.Errorf("no SSA for %s", dir)
	}
	prog.Build()
	p.own = map[*ssa.Package]bool{}
	for _, q := range pkgs {
		if q != nil {
			p.own[q] = true
		}
	}
	p.tpkg, p.prog, p.pkg = ps[root].Types, prog, pkgs[root]
	return p, nil
}

func newInterp(p *Program) *Interp {
	return &Interp{
		prog: p.prog, pkg: p.pkg, own: p.own, fset: p.fset,
		infos:     map[*ssa.Function]*funcInfo{},
		globals:   map[*ssa.Global]int{},
		limit:     40000000,
		fns:       map[string]bool{},
		callSites: map[token.Pos]bool{},
		blocks:    map[*ssa.BasicBlock]bool{},
		loopsSeen: map[token.Pos]string{},
		reads:     map[string]token.Pos{},
		allWrites: map[string]token.Pos{},
		ext:       map[string]bool{},
		pools:     map[string]*FuncV{},
	}
}

// initState analyses package initialisation.
func (x *Interp) initState() (*State, error) {
	st := &State{map[int]*Obj{}, newFacts(), nil}
	init := x.pkg.Func("init")
	rets, exits := x.Call(init, nil, nil, st, token.NoPos)
	if len(exits) > 0 {
		return nil, fmt.Errorf("initialisation may end abnormally: %s at %s", exits[0].what, x.where(exits[0].pos))
	}
	if len(rets) != 1 {
		return nil, fmt.Errorf("initialisation has %d outcomes", len(rets))
	}
	s := rets[0].st
	// name everything reachable from a package-level variable
	var gs []*ssa.Global
	for q := range x.own {
		for _, m := range q.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	seen := map[int]bool{}
	var name func(v Val, t types.Type, n string)
	name = func(v Val, t types.Type, n string) {
		switch w := v.(type) {
		case Ptr:
			o := s.heap[w.obj]
			if o == nil || seen[w.obj] {
				return
			}
			seen[w.obj] = true
			c := *o
			c.kind, c.origin = "global", n
			s.heap[w.obj] = &c
			name(c.val, c.typ, n)
		case SliceV:
			name(w.base, nil, n)
		case IfaceV:
			name(w.v, w.typ, n)
		case *StructV:
			var u *types.Struct
			if t != nil {
				u, _ = t.Underlying().(*types.Struct)
			}
			for i, e := range w.fs {
				if u != nil && i < u.NumFields() {
					name(e, u.Field(i).Type(), n+"."+u.Field(i).Name())
				} else {
					name(e, nil, fmt.Sprintf("%s.%d", n, i))
				}
			}
		case *ListV:
			for i, e := range w.es {
				if _, ok := e.(*Term); !ok {
					name(e, nil, fmt.Sprintf("%s[%d]", n, i))
				}
			}
		case *MapV:
			for _, e := range w.vs {
				name(e, nil, n+"[...]")
			}
		case *FuncV:
			for _, e := range w.bind {
				name(e, nil, n+".captured")
			}
		}
	}
	for _, g := range gs {
		if strings.HasPrefix(g.Name(), "init$guard") {
			continue
		}
		n := g.Name()
		if g.Pkg != x.pkg {
			n = g.String()
		}
		name(x.globalPtr(s, g), nil, n)
	}
	for id, o := range s.heap {
		if o.kind != "global" {
			c := *o
			c.kind = "global"
			s.heap[id] = &c
		}
	}
	return s, nil
}

// exported lists the exported functions and methods, by name.
func (x *Interp) exported() []*ssa.Function {
	var r []*ssa.Function
	for _, m := range x.pkg.Members {
		switch v := m.(type) {
		case *ssa.Function:
			if v.Object() != nil && v.Object().Exported() {
				r = append(r, v)
			}
		case *ssa.Type:
			n, ok := v.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if f := x.prog.FuncValue(n.Method(i)); f != nil && n.Method(i).Exported() {
					r = append(r, f)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// fn finds a function or a method ("(*PublicKey).Format").
func (x *Interp) fn(name string) *ssa.Function {
	for _, f := range x.exported() {
		if f.RelString(x.pkg.Pkg) == name {
			return f
		}
	}
	return nil
}
