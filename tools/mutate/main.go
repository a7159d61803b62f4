// Command mutate lists small behaviour-changing edits of the non-test code of
// a Go module that still compile, as JSON lines.  It is used to look for
// changes the checks miss; no check runs it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Edit replaces the bytes [Start,End) of File.
type Edit struct {
	File       string
	Start, End int
	New        string
	Op, Func   string
	Line       int
	Old        string
}

var (
	root string
	pk   *packages.Package
	fset *token.FileSet
	src  []byte
	fn   string
	rel  string
	out  []Edit
	info *types.Info
	n    int
)

type imp map[string]*types.Package

func (i imp) Import(p string) (*types.Package, error) {
	if q := i[p]; q != nil {
		return q, nil
	}
	return nil, fmt.Errorf("no %s", p)
}

func off(p token.Pos) int { return fset.Position(p).Offset }

func text(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

func edit(op string, s, e token.Pos, nw string) {
	a, b := off(s), off(e)
	if string(src[a:b]) == nw {
		return
	}
	out = append(out, Edit{rel, a, b, nw, op, fn, fset.Position(s).Line, string(src[a:b])})
}

func repl(op string, n ast.Node, nw string) { edit(op, n.Pos(), n.End(), nw) }

func isLog(n ast.Node) bool {
	s := text(n)
	for _, w := range []string{"log.", "Log()", "logger.", "Logger(", "Debugf(", "Warnf(", "Errorf(", "Infof("} {
		if strings.Contains(s, w) && !strings.Contains(s, "Panicf") && !strings.Contains(s, "func") {
			return true
		}
	}
	return false
}

var binrep = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
}

func isErrT(t types.Type) bool { return t != nil && t.String() == "error" }

func exprs(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CallExpr:
			if isLog(x) {
				return false
			}
			if i, ok := x.Fun.(*ast.Ident); ok && i.Name == "append" && len(x.Args) >= 2 {
				repl("noappend", x, text(x.Args[0]))
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				for _, p := range [][2]string{{"Add", "Set"}, {"Set", "Add"}, {"Lock", "RLock"}, {"As", "Is"}, {"HasPrefix", "HasSuffix"}, {"HasPrefix", "Contains"}} {
					if s.Sel.Name == p[0] {
						repl("method", s.Sel, p[1])
					}
				}
			}
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := info.TypeOf(x.Args[i]), info.TypeOf(x.Args[i+1])
				if a != nil && b != nil && (types.Identical(a, b) || types.AssignableTo(a, b)) && text(x.Args[i]) != text(x.Args[i+1]) {
					edit("argswap", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
			}
			// f(x) with f: T -> T
			if len(x.Args) >= 1 {
				if a, r := info.TypeOf(x.Args[0]), info.TypeOf(x); a != nil && r != nil && types.Identical(a, r) {
					repl("uncall", x, text(x.Args[0]))
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if a, r := info.TypeOf(s.X), info.TypeOf(x); a != nil && r != nil && types.Identical(a, r) {
					repl("uncall", x, text(s.X))
				}
			}
		case *ast.BinaryExpr:
			for _, r := range binrep[x.Op] {
				edit("binop", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				repl("left", x, text(x.X))
				repl("right", x, text(x.Y))
			}
			if x.Op == token.ADD {
				repl("left", x, text(x.X))
				repl("right", x, text(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				repl("unnot", x, text(x.X))
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.Atoi(x.Value); err == nil {
					repl("int", x, strconv.Itoa(v+1))
					if v > 0 {
						repl("int", x, strconv.Itoa(v-1))
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil {
					repl("string", x, strconv.Quote(s+"x"))
					if s != "" {
						repl("string", x, `""`)
					}
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				repl("slice", x.Low, "0")
				repl("slice", x.Low, text(x.Low)+"+1")
			}
			if x.High != nil {
				repl("slice", x.High, "")
				repl("slice", x.High, text(x.High)+"-1")
			}
		case *ast.IndexExpr:
			if t := info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Slice); ok {
					repl("index", x.Index, "0")
				}
			}
		case *ast.SelectorExpr:
			if sel := info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
				t := sel.Recv()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if st, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if f.Name() != x.Sel.Name && types.Identical(f.Type(), sel.Type()) {
							repl("field", x.Sel, f.Name())
						}
					}
				}
			}
			// methods of the same type
			if sel := info.Selections[x]; sel != nil && sel.Kind() == types.MethodVal {
				ms := types.NewMethodSet(sel.Recv())
				for i := 0; i < ms.Len(); i++ {
					m := ms.At(i).Obj()
					if m.Name() != x.Sel.Name && m.Pkg() == pk.Types && types.Identical(m.Type(), sel.Type()) {
						repl("meth", x.Sel, m.Name())
					}
				}
			}
			exprs(x.X)
			return false
		case *ast.Ident:
			o := info.Uses[x]
			switch o := o.(type) {
			case *types.Const:
				if o.Name() == "true" || o.Name() == "false" {
					repl("bool", x, map[string]string{"true": "false", "false": "true"}[o.Name()])
				} else if o.Pkg() == pk.Types {
					same(x, o)
				}
			case *types.Var:
				same(x, o)
				if !o.IsField() {
					if types.IsInterface(o.Type()) || isPtrOrMap(o.Type()) {
						repl("nil", x, "nil")
					}
				}
			case *types.Func:
				if o.Pkg() == pk.Types {
					same(x, o)
				}
			}
		case *ast.CompositeLit:
			for i, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					if _, ok := kv.Key.(*ast.Ident); ok {
						end := kv.End()
						if i+1 < len(x.Elts) {
							end = x.Elts[i+1].Pos()
						}
						edit("nofield", kv.Pos(), end, "")
						exprs(kv.Value)
						continue
					}
				}
				exprs(el)
			}
			return false
		case *ast.FuncLit:
			body(x.Body)
			return false
		case ast.Stmt:
			return false
		}
		return true
	})
}

func isPtrOrMap(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

// same: other variables of the same type in scope.
func same(x *ast.Ident, o types.Object) {
	sc := pk.Types.Scope().Innermost(x.Pos())
	seen := map[string]bool{}
	k := 0
	for s := sc; s != nil && s != types.Universe; s = s.Parent() {
		for _, nm := range s.Names() {
			q := s.Lookup(nm)
			if seen[nm] || nm == x.Name || nm == "_" {
				continue
			}
			seen[nm] = true
			if q.Pos() > x.Pos() && s != pk.Types.Scope() {
				continue
			}
			switch o.(type) {
			case *types.Var:
				if _, ok := q.(*types.Var); !ok {
					continue
				}
			case *types.Func:
				if _, ok := q.(*types.Func); !ok {
					continue
				}
			case *types.Const:
				if _, ok := q.(*types.Const); !ok {
					continue
				}
			}
			if types.Identical(q.Type(), o.Type()) && k < 4 {
				k++
				repl("same", x, nm)
			}
		}
	}
}

func cond(e ast.Expr) {
	repl("negate", e, "!("+text(e)+")")
	repl("true", e, text(e)+" || true")
	repl("false", e, text(e)+" && false")
	exprs(e)
}

func list(l []ast.Stmt) {
	for i, s := range l {
		stmt(s)
		if i+1 < len(l) {
			a, b := l[i], l[i+1]
			if simple(a) && simple(b) && !isLog(a) && !isLog(b) {
				edit("swap", a.Pos(), b.End(), text(b)+"\n"+text(a))
			}
		}
	}
}

func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IfStmt, *ast.SendStmt, *ast.IncDecStmt:
		return true
	}
	return false
}

func del(s ast.Stmt) {
	if !isLog(s) {
		repl("delete", s, "")
	}
}

func stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		if isLog(s) {
			return
		}
		del(s)
		exprs(s.X)
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			del(s)
			for _, l := range s.Lhs {
				exprs(l)
			}
		} else if len(s.Lhs) == 1 || true {
			// shadow to assign
		}
		for _, r := range s.Rhs {
			exprs(r)
		}
	case *ast.IncDecStmt:
		del(s)
		if s.Tok == token.INC {
			edit("incdec", s.TokPos, s.TokPos+2, "--")
		}
	case *ast.DeferStmt:
		del(s)
		edit("undefer", s.Defer, s.Defer+5, "")
		exprs(s.Call)
	case *ast.GoStmt:
		del(s)
		edit("ungo", s.Go, s.Go+2, "")
		exprs(s.Call)
	case *ast.SendStmt:
		del(s)
		exprs(s.Value)
		exprs(s.Chan)
	case *ast.ReturnStmt:
		del(s)
		for _, r := range s.Results {
			if t := info.TypeOf(r); t != nil && (isErrT(t) || types.IsInterface(t) || isPtrOrMap(t)) && text(r) != "nil" {
				repl("retnil", r, "nil")
			}
			exprs(r)
		}
	case *ast.BranchStmt:
		del(s)
		if s.Tok == token.BREAK && s.Label == nil {
			repl("branch", s, "continue")
		}
		if s.Tok == token.CONTINUE {
			repl("branch", s, "break")
			repl("branch", s, "return")
		}
	case *ast.IfStmt:
		if s.Init != nil {
			exprs2(s.Init)
		}
		cond(s.Cond)
		if s.Else != nil {
			edit("noelse", s.Body.End(), s.Else.End(), "")
			stmt(s.Else)
		}
		list(s.Body.List)
		if s.Init == nil && s.Else == nil {
			del(s)
		}
	case *ast.BlockStmt:
		list(s.List)
	case *ast.ForStmt:
		if s.Init != nil {
			exprs2(s.Init)
		}
		if s.Cond != nil {
			cond(s.Cond)
		}
		if s.Post != nil {
			exprs2(s.Post)
		}
		edit("once", s.Body.Rbrace, s.Body.Rbrace, "\nbreak\n")
		list(s.Body.List)
	case *ast.RangeStmt:
		del(s)
		edit("once", s.Body.Rbrace, s.Body.Rbrace, "\nbreak\n")
		if t := info.TypeOf(s.X); t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				edit("skip", s.X.End(), s.X.End(), "[1:]")
			}
		}
		exprs(s.X)
		list(s.Body.List)
	case *ast.SwitchStmt:
		if s.Init != nil {
			exprs2(s.Init)
		}
		if s.Tag != nil {
			exprs(s.Tag)
		}
		for _, c := range s.Body.List {
			clause(c.(*ast.CaseClause))
		}
	case *ast.TypeSwitchStmt:
		for _, c := range s.Body.List {
			clause(c.(*ast.CaseClause))
		}
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			repl("nocase", cc, "")
			if cc.Comm != nil {
				if x, ok := cc.Comm.(*ast.SendStmt); ok {
					exprs(x.Value)
					exprs(x.Chan)
				} else {
					exprs2(cc.Comm)
				}
			}
			list(cc.Body)
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					for _, x := range v.Values {
						exprs(x)
					}
				}
			}
		}
	case *ast.LabeledStmt:
		stmt(s.Stmt)
	}
}

func exprs2(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, r := range s.Rhs {
			exprs(r)
		}
	case *ast.ExprStmt:
		exprs(s.X)
	case *ast.IncDecStmt:
		stmt(s)
	}
}

func clause(c *ast.CaseClause) {
	repl("nocase", c, "")
	if len(c.List) > 1 {
		for i, x := range c.List {
			if i+1 < len(c.List) {
				edit("nocase", x.Pos(), c.List[i+1].Pos(), "")
			} else {
				edit("nocase", c.List[i-1].End(), x.End(), "")
			}
		}
	}
	for _, x := range c.List {
		exprs(x)
	}
	list(c.Body)
}

func body(b *ast.BlockStmt) { list(b.List) }

func main() {
	repo := flag.String("repo", "/repo", "")
	only := flag.String("file", "", "file relative to repo")
	flag.Parse()
	root = *repo
	fset = token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Fset: fset}, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, p := range ps {
		pk, info = p, p.TypesInfo
		im := imp{}
		packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) { im[q.PkgPath] = q.Types })
		for k, q := range p.Imports {
			im[k] = q.Types
		}
		for i, f := range p.Syntax {
			path := p.CompiledGoFiles[i]
			rel, _ = filepath.Rel(root, path)
			if *only != "" && rel != *only {
				continue
			}
			src, _ = os.ReadFile(path)
			out = nil
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Body == nil {
						continue
					}
					fn = d.Name.Name
					if d.Recv != nil && len(d.Recv.List) > 0 {
						t := d.Recv.List[0].Type
						if s, ok := t.(*ast.StarExpr); ok {
							t = s.X
						}
						fn = text(t) + "." + fn
					}
					body(d.Body)
				case *ast.GenDecl:
					if d.Tok == token.VAR || d.Tok == token.CONST {
						fn = "var"
						for _, sp := range d.Specs {
							for _, x := range sp.(*ast.ValueSpec).Values {
								exprs(x)
							}
						}
					}
				}
			}
			dup := map[string]bool{}
			for _, e := range out {
				m := string(src[:e.Start]) + e.New + string(src[e.End:])
				if dup[m] {
					continue
				}
				dup[m] = true
				fs := token.NewFileSet()
				nf, err := parser.ParseFile(fs, path, m, 0)
				if err != nil {
					continue
				}
				fl := []*ast.File{nf}
				for j, g := range p.CompiledGoFiles {
					if j != i {
						h, err := parser.ParseFile(fs, g, nil, 0)
						if err != nil {
							continue
						}
						fl = append(fl, h)
					}
				}
				bad := false
				cf := types.Config{Importer: im, Error: func(error) { bad = true }}
				cf.Check(p.PkgPath, fs, fl, nil)
				if !bad {
					enc.Encode(e)
					n++
				}
			}
		}
	}
	fmt.Fprintln(os.Stderr, n)
}
