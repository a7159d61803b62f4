package main

// Loading and indexing the program under analysis.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/superisaac/jlib"

type World struct {
	prog   *ssa.Program
	fset   *token.FileSet
	pkgs   map[string]*ssa.Package // short name -> package (jlib, jlibschema, jlibhttp) and import path
	ppkgs  []*packages.Package
	funcs  []*ssa.Function // every function with a body in the module, incl. anonymous
	root   string
	asVal  []*ssa.Function
	tables map[string][]*ssa.MapUpdate // package variables that hold a fixed map
	made   map[string]bool             // package variables that always hold the object made for them
}

var theWorld *World

func load(dir string, overlay map[string][]byte) (*World, error) {
	if theWorld != nil && theWorld.root == dir && overlay == nil {
		return theWorld, nil
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
		Overlay: overlay,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(ps) < 3 {
		return nil, fmt.Errorf("only %d packages found under %s", len(ps), dir)
	}
	prog, spk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, ppkgs: ps, root: dir}
	for i, p := range spk {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		w.pkgs[p.Pkg.Path()] = p
		if p.Pkg.Name() != "main" {
			w.pkgs[p.Pkg.Name()] = p
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks != nil && inModule(f) {
			w.funcs = append(w.funcs, f)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool {
		a, b := w.funcs[i], w.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.RelString(nil) < b.RelString(nil)
	})
	theWorld = w
	w.findMadeOnce()
	w.findTables()
	return w, nil
}

// findMadeOnce: the package variables of the module that are given a new
// error or object when the package starts and are only read from then on.
func (w *World) findMadeOnce() {
	bad := map[*ssa.Global]bool{}
	made := map[*ssa.Global]bool{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				s, _ := in.(*ssa.Store)
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if s != nil && s.Addr == ssa.Value(g) && f.Name() == "init" && f.Synthetic != "" && isMade(s.Val) {
						made[g] = true
					} else {
						bad[g] = true
					}
				}
			}
		}
	}
	w.made = map[string]bool{}
	for g := range made {
		if !bad[g] {
			w.made[g.RelString(nil)] = true
		}
	}
}

// findTables: the package variables that hold a map written out in the source
// which nothing changes: its entries.
func (w *World) findTables() {
	w.tables = map[string][]*ssa.MapUpdate{}
	mk := map[*ssa.Global]ssa.Value{}
	bad := map[*ssa.Global]bool{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if _, ok := deref(g.Type()).Underlying().(*types.Map); !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && f.Name() == "init" && f.Synthetic != "" && mk[g] == nil {
							mk[g] = x.Val
							continue
						}
					case *ssa.UnOp:
						if onlyRead(x) {
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for g, v := range mk {
		m, ok := v.(*ssa.MakeMap)
		if bad[g] || !ok {
			continue
		}
		var ups []*ssa.MapUpdate
		for _, r := range *m.Referrers() {
			switch x := r.(type) {
			case *ssa.MapUpdate:
				_, isConst := x.Key.(*ssa.Const)
				ok = ok && isConst && isFixed(x.Value)
				ups = append(ups, x)
			case *ssa.Store:
				ok = ok && x.Addr == ssa.Value(g)
			case *ssa.DebugRef:
			default:
				ok = false
			}
		}
		if ok && len(ups) <= 16 {
			w.tables[g.RelString(nil)] = ups
		}
	}
}

// onlyRead: the map loaded here is only looked into.
func onlyRead(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// isFixed: a value that is the same at all times.
func isFixed(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global:
		return true
	case *ssa.MakeInterface:
		return isFixed(x.X)
	case *ssa.ChangeType:
		return isFixed(x.X)
	}
	return false
}

func isMade(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return isMade(x.X)
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || fnPkg(f) == nil {
			return false
		}
		n := f.Name()
		p := fnPkg(f).Path()
		return (n == "New" || n == "Errorf") && (p == "errors" || p == "fmt" || p == "github.com/pkg/errors")
	}
	return false
}

// madeOnce: t is the value of such a variable.
func madeOnce(t *Term) bool {
	return theWorld != nil && t.op == ODeref && t.args[0].op == OGlobal && theWorld.made[t.args[0].str]
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func inModule(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func inModPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// Func finds a package-level function.
func (w *World) Func(pkg, name string) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	f := p.Func(name)
	if f == nil || f.Blocks == nil {
		return nil
	}
	return f
}

func (w *World) Type(pkg, name string) *types.Named {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method finds the method in the method set of *T; the declared body, not the wrapper.
func (w *World) Method(pkg, typ, name string) *ssa.Function {
	n := w.Type(pkg, typ)
	if n == nil {
		return nil
	}
	return w.MethodOf(types.NewPointer(n), name)
}

func (w *World) MethodOf(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name {
			return w.prog.MethodValue(sel)
		}
	}
	return nil
}

func (w *World) Var(pkg, name string) *ssa.Global {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Var(name)
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	rel, err := filepath.Rel(w.root, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

var msgKindNames = map[string]int{"RequestMessage": 0, "NotifyMessage": 1, "ResultMessage": 2, "ErrorMessage": 3}

// msgKindOf: index of the message struct type or -1
func msgKindOf(t types.Type) int {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
		return -1
	}
	if k, ok := msgKindNames[n.Obj().Name()]; ok {
		return k
	}
	return -1
}
