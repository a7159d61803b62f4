// Command refac rewrites one function (or a whole file) of a Go package by a
// behaviour-preserving transformation.  It is used to test that the checks
// stay quiet on refactorings; no check runs it.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	n     int
	sites int
	extra []ast.Decl
)

func fresh(p string) string { n++; return fmt.Sprintf("%s%d", p, n) }
func id(s string) *ast.Ident { return ast.NewIdent(s) }

type transform struct {
	name string
	f    func(fd *ast.FuncDecl)
}

func apply(fd *ast.FuncDecl, pre, post func(c *astutil.Cursor) bool) {
	astutil.Apply(fd.Body, pre, post)
}

// lists calls f for every statement list, innermost first.
func lists(root ast.Node, f func(l []ast.Stmt) []ast.Stmt) {
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		astutil.Apply(n, nil, func(c *astutil.Cursor) bool {
			switch b := c.Node().(type) {
			case *ast.BlockStmt:
				b.List = f(b.List)
			case *ast.CaseClause:
				b.Body = f(b.Body)
			case *ast.CommClause:
				b.Body = f(b.Body)
			}
			return true
		})
	}
	walk(root)
}

func neg(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return neg(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.BinaryExpr:
		m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL}
		if o, ok := m[x.Op]; ok {
			return &ast.BinaryExpr{X: x.X, Op: o, Y: x.Y}
		}
		fl := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		if o, ok := fl[x.Op]; ok && isInt(x.X) {
			return &ast.BinaryExpr{X: x.X, Op: o, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func isInt(e ast.Expr) bool {
	t := info.TypeOf(e)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok != token.FALLTHROUGH
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func block(l ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

func define(lhs string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(lhs)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

// parts of a function that are not in nested function literals
func shallow(root ast.Node, f func(n ast.Node) bool) {
	ast.Inspect(root, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok && n != root {
			return false
		}
		return f(n)
	})
}

func has(root ast.Node, p func(n ast.Node) bool) bool {
	r := false
	shallow(root, func(n ast.Node) bool {
		if n != nil && p(n) {
			r = true
		}
		return !r
	})
	return r
}

func hasReturn(root ast.Node) bool {
	return has(root, func(n ast.Node) bool { _, ok := n.(*ast.ReturnStmt); return ok })
}

// break, continue, goto or fallthrough that leave the node
func escapes(l []ast.Stmt) bool {
	r := false
	var walk func(n ast.Node, brk, cont bool)
	walk = func(n ast.Node, brk, cont bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt:
				walk(x.Body, true, true)
				return false
			case *ast.RangeStmt:
				walk(x.Body, true, true)
				return false
			case *ast.SwitchStmt:
				walk(x.Body, true, cont)
				return false
			case *ast.TypeSwitchStmt:
				walk(x.Body, true, cont)
				return false
			case *ast.SelectStmt:
				walk(x.Body, true, cont)
				return false
			case *ast.LabeledStmt:
				r = true
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.GOTO || x.Tok == token.FALLTHROUGH || x.Tok == token.BREAK && !brk || x.Tok == token.CONTINUE && !cont {
					r = true
				}
			}
			return true
		})
	}
	walk(block(l...), false, false)
	return r
}

func hasDefer(root ast.Node) bool {
	return has(root, func(n ast.Node) bool {
		if _, ok := n.(*ast.DeferStmt); ok {
			return true
		}
		c, ok := n.(*ast.CallExpr)
		if ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "recover" {
				return true
			}
		}
		return false
	})
}

// typeExpr renders a type as seen from the file, or "".
func typeExpr(t types.Type) ast.Expr {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		for _, im := range file.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if !ok || strings.Contains(s, "untyped") || s == "invalid type" {
		return nil
	}
	// unexported types of other packages
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil
	}
	for _, part := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune("*[]() ,{}", r) }) {
		if i := strings.Index(part, "."); i >= 0 && i+1 < len(part) && part[i+1] >= 'a' && part[i+1] <= 'z' {
			return nil
		}
	}
	return e
}

func clearPos(e ast.Node) {}

// local variables (incl. parameters) used in l but declared outside
func freeVars(l []ast.Stmt, fd *ast.FuncDecl) (vars []*types.Var, assigned map[*types.Var]bool) {
	assigned = map[*types.Var]bool{}
	decl := map[types.Object]bool{}
	seen := map[*types.Var]bool{}
	b := block(l...)
	ast.Inspect(b, func(m ast.Node) bool {
		if i, ok := m.(*ast.Ident); ok {
			if o := info.Defs[i]; o != nil {
				decl[o] = true
			}
		}
		if c, ok := m.(*ast.CaseClause); ok {
			if o := info.Implicits[c]; o != nil {
				decl[o] = true
			}
		}
		return true
	})
	ast.Inspect(b, func(m ast.Node) bool {
		i, ok := m.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := info.Uses[i].(*types.Var)
		if !ok || v.IsField() || decl[v] || seen[v] || v.Parent() == pkg.Scope() || v.Pkg() != pkg {
			return true
		}
		seen[v] = true
		vars = append(vars, v)
		return true
	})
	root := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				// field of a struct variable
				if t := info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Struct); ok {
						e = x.X
						continue
					}
				}
			case *ast.IndexExpr:
				if t := info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						e = x.X
						continue
					}
				}
			case *ast.Ident:
				v, _ := info.Uses[x].(*types.Var)
				return v
			}
			return nil
		}
	}
	mark := func(e ast.Expr) {
		if v := root(e); v != nil {
			assigned[v] = true
		}
	}
	ast.Inspect(b, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				mark(e)
			}
		case *ast.IncDecStmt:
			mark(x.X)
		case *ast.RangeStmt:
			if x.Key != nil {
				mark(x.Key)
			}
			if x.Value != nil {
				mark(x.Value)
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				mark(x.X)
			}
		case *ast.CallExpr:
			// pointer method called on an addressable variable
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					if sg, ok := sel.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
						if _, p := sg.Recv().Type().(*types.Pointer); p {
							if t := info.TypeOf(s.X); t != nil {
								if _, q := t.Underlying().(*types.Pointer); !q {
									mark(s.X)
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	return
}

// captured variables: used inside function literals, or whose address is taken
func captured(fd *ast.FuncDecl) map[*types.Var]bool {
	r := map[*types.Var]bool{}
	ast.Inspect(fd.Body, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			ast.Inspect(x.Body, func(k ast.Node) bool {
				if i, ok := k.(*ast.Ident); ok {
					if v, ok := info.Uses[i].(*types.Var); ok {
						r[v] = true
					}
				}
				return true
			})
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if i, ok := x.X.(*ast.Ident); ok {
					if v, ok := info.Uses[i].(*types.Var); ok {
						r[v] = true
					}
				}
			}
		}
		return true
	})
	return r
}

func namedResults(ft *ast.FuncType) bool {
	return ft.Results != nil && len(ft.Results.List) > 0 && len(ft.Results.List[0].Names) > 0
}

func resultTypes(ft *ast.FuncType) []ast.Expr {
	var r []ast.Expr
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			k := len(f.Names)
			if k == 0 {
				k = 1
			}
			for ; k > 0; k-- {
				r = append(r, f.Type)
			}
		}
	}
	return r
}

// helper makes a new top-level function out of statements; nil if impossible.
func helper(name string, l []ast.Stmt, vars []*types.Var, results *ast.FieldList) ([]ast.Expr, bool) {
	var fl ast.FieldList
	var args []ast.Expr
	for _, v := range vars {
		te := typeExpr(v.Type())
		if te == nil {
			return nil, false
		}
		fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: te})
		args = append(args, id(v.Name()))
	}
	extra = append(extra, &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &fl, Results: results}, Body: block(l...)})
	return args, true
}

// funcs visits the function and its literals with their types
func funcs(fd *ast.FuncDecl, f func(ft *ast.FuncType, body *ast.BlockStmt)) {
	ast.Inspect(fd.Body, func(m ast.Node) bool {
		if x, ok := m.(*ast.FuncLit); ok {
			f(x.Type, x.Body)
		}
		return true
	})
	f(fd.Type, fd.Body)
}

func isConv(c *ast.CallExpr) bool {
	tv, ok := info.Types[c.Fun]
	return ok && (tv.IsType() || tv.IsBuiltin())
}

// returnsOf rewrites the returns of a body, not those of literals in it
func returnsOf(body *ast.BlockStmt, f func(r *ast.ReturnStmt) []ast.Stmt) {
	astutil.Apply(body, func(c *astutil.Cursor) bool {
		_, lit := c.Node().(*ast.FuncLit)
		return !lit
	}, func(c *astutil.Cursor) bool {
		switch b := c.Node().(type) {
		case *ast.BlockStmt:
			b.List = repl(b.List, f)
		case *ast.CaseClause:
			b.Body = repl(b.Body, f)
		case *ast.CommClause:
			b.Body = repl(b.Body, f)
		}
		return true
	})
}

func repl(l []ast.Stmt, f func(r *ast.ReturnStmt) []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if r, ok := s.(*ast.ReturnStmt); ok {
			if x := f(r); x != nil {
				sites++
				out = append(out, x...)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

var transforms = []transform{
	{"invertif", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok && s.Else != nil {
				e := s.Else
				var b *ast.BlockStmt
				if x, ok := e.(*ast.BlockStmt); ok {
					b = x
				} else {
					b = block(e)
				}
				s.Cond = neg(s.Cond)
				s.Else = s.Body
				s.Body = b
				sites++
			}
			return true
		})
	}},
	{"elsify", func(fd *ast.FuncDecl) {
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i := len(l) - 2; i >= 0; i-- {
				s, ok := l[i].(*ast.IfStmt)
				if ok && s.Else == nil && terminates(s.Body.List) {
					lab := false
					for _, x := range l[i+1:] {
						if _, ok := x.(*ast.LabeledStmt); ok {
							lab = true
						}
					}
					if lab {
						continue
					}
					s.Else = block(append([]ast.Stmt{}, l[i+1:]...)...)
					l = l[:i+1]
					sites++
				}
			}
			return l
		})
	}},
	{"unelse", func(fd *ast.FuncDecl) {
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for i, x := range l {
				s, ok := x.(*ast.IfStmt)
				out = append(out, x)
				if ok && s.Else != nil && terminates(s.Body.List) && s.Init == nil && i == len(l)-1 {
					if b, ok := s.Else.(*ast.BlockStmt); ok {
						out = append(out, b.List...)
					} else {
						out = append(out, s.Else)
					}
					s.Else = nil
					sites++
				}
			}
			return out
		})
	}},
	{"guard", func(fd *ast.FuncDecl) { // if c {A; return}; B;return -> if !c {B; return}; A; return
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i := len(l) - 2; i >= 0; i-- {
				s, ok := l[i].(*ast.IfStmt)
				if ok && s.Else == nil && s.Init == nil && terminates(s.Body.List) && terminates(l[len(l)-1:]) {
					rest := append([]ast.Stmt{}, l[i+1:]...)
					l = append(append([]ast.Stmt{}, l[:i+1]...), s.Body.List...)
					s.Cond = neg(s.Cond)
					s.Body = block(rest...)
					sites++
					break
				}
			}
			return l
		})
	}},
	{"rangeindex", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE && s.Key != nil {
				return true
			}
			if _, ok := c.Parent().(*ast.LabeledStmt); ok {
				return true
			}
			t := info.TypeOf(s.X)
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Slice); !ok {
				return true
			}
			xs := fresh("items")
			i := fresh("idx")
			var body []ast.Stmt
			if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
				body = append(body, define(k.Name, id(i)))
			}
			if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
				body = append(body, define(v.Name, &ast.IndexExpr{X: id(xs), Index: id(i)}))
			}
			body = append(body, s.Body.List...)
			c.Replace(block(define(xs, s.X), &ast.ForStmt{
				Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}),
				Cond: &ast.BinaryExpr{X: id(i), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(xs)}}},
				Post: &ast.IncDecStmt{X: id(i), Tok: token.INC},
				Body: block(body...)}))
			sites++
			return true
		})
	}},
	{"rangekey", func(fd *ast.FuncDecl) { // for i, x := range xs -> for i := range xs { x := xs[i] } (slices and maps held in plain variables)
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE {
				return true
			}
			v, ok := s.Value.(*ast.Ident)
			if !ok || v.Name == "_" {
				return true
			}
			t := info.TypeOf(s.X)
			if t == nil {
				return true
			}
			switch t.Underlying().(type) {
			case *types.Slice, *types.Map:
			default:
				return true
			}
			if has(s.X, func(n ast.Node) bool { _, ok := n.(*ast.CallExpr); return ok }) {
				return true
			}
			if k, ok := s.Key.(*ast.Ident); !ok || k.Name == "_" {
				s.Key = id(fresh("key"))
			}
			s.Value = nil
			s.Body.List = append([]ast.Stmt{define(v.Name, &ast.IndexExpr{X: s.X, Index: id(s.Key.(*ast.Ident).Name)})}, s.Body.List...)
			sites++
			return true
		})
	}},
	{"whileloop", func(fd *ast.FuncDecl) { // 3-clause for -> init; for { if !cond {break}; body; post } without continue
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.ForStmt)
			if !ok || s.Cond == nil {
				return true
			}
			if _, ok := c.Parent().(*ast.LabeledStmt); ok {
				return true
			}
			if s.Post != nil && has(s.Body, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok == token.CONTINUE }) {
				return true
			}
			body := append([]ast.Stmt{&ast.IfStmt{Cond: neg(s.Cond), Body: block(&ast.BranchStmt{Tok: token.BREAK})}}, s.Body.List...)
			if s.Post != nil {
				body = append(body, s.Post)
			}
			f := &ast.ForStmt{Body: block(body...)}
			if s.Init != nil {
				c.Replace(block(s.Init, f))
			} else {
				c.Replace(f)
			}
			sites++
			return true
		})
	}},
	{"condvar", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok {
				return true
			}
			if _, ok := c.Parent().(*ast.LabeledStmt); ok {
				return true
			}
			v := fresh("cond")
			var l []ast.Stmt
			if s.Init != nil {
				l = append(l, s.Init)
				s.Init = nil
			}
			l = append(l, define(v, s.Cond))
			s.Cond = id(v)
			l = append(l, s)
			c.Replace(block(l...))
			sites++
			return true
		})
	}},
	{"splitinit", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init == nil {
				return true
			}
			i := s.Init
			s.Init = nil
			c.Replace(block(i, s))
			sites++
			return true
		})
	}},
	{"nestand", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else != nil {
				return true
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				s.Cond = b.X
				s.Body = block(&ast.IfStmt{Cond: b.Y, Body: s.Body})
				sites++
			}
			return true
		})
	}},
	{"splitor", func(fd *ast.FuncDecl) {
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, x := range l {
				s, ok := x.(*ast.IfStmt)
				if ok && s.Else == nil && s.Init == nil && terminates(s.Body.List) {
					if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR {
						// the body is printed twice: share the nodes
						out = append(out, &ast.IfStmt{Cond: b.X, Body: s.Body}, &ast.IfStmt{Cond: b.Y, Body: s.Body})
						sites++
						continue
					}
				}
				out = append(out, x)
			}
			return out
		})
	}},
	{"mergeif", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else != nil || len(s.Body.List) != 1 {
				return true
			}
			if t, ok := s.Body.List[0].(*ast.IfStmt); ok && t.Else == nil && t.Init == nil {
				s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LAND, Y: &ast.ParenExpr{X: t.Cond}}
				s.Body = t.Body
				sites++
			}
			return true
		})
	}},
	{"flipcmp", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok {
				return true
			}
			m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
			if o, ok := m[b.Op]; ok {
				b.X, b.Y, b.Op = b.Y, b.X, o
				sites++
			}
			return true
		})
	}},
	{"lencmp", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok {
				return true
			}
			call, ok := b.X.(*ast.CallExpr)
			y, ok2 := b.Y.(*ast.BasicLit)
			if !ok || !ok2 || y.Value != "0" {
				return true
			}
			if i, ok := call.Fun.(*ast.Ident); !ok || i.Name != "len" {
				return true
			}
			one := &ast.BasicLit{Kind: token.INT, Value: "1"}
			switch b.Op {
			case token.GTR, token.NEQ:
				b.Op, b.Y = token.GEQ, one
			case token.EQL, token.LEQ:
				b.Op, b.Y = token.LSS, one
			default:
				return true
			}
			sites++
			return true
		})
	}},
	{"argtemps", func(fd *ast.FuncDecl) {
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, x := range l {
				var call *ast.CallExpr
				switch s := x.(type) {
				case *ast.ExprStmt:
					call, _ = s.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(s.Rhs) == 1 {
						call, _ = s.Rhs[0].(*ast.CallExpr)
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 1 {
						call, _ = s.Results[0].(*ast.CallExpr)
					}
				}
				if call != nil && !isConv(call) && !has(call.Fun, func(n ast.Node) bool { _, ok := n.(*ast.CallExpr); return ok }) {
					for i, a := range call.Args {
						tv, ok := info.Types[a]
						if !ok || tv.IsNil() || tv.Value != nil || tv.Type == nil {
							continue
						}
						if _, tup := tv.Type.(*types.Tuple); tup {
							continue
						}
						v := fresh("arg")
						out = append(out, define(v, a))
						call.Args[i] = id(v)
						sites++
					}
				}
				out = append(out, x)
			}
			return out
		})
	}},
	{"returntemps", func(fd *ast.FuncDecl) {
		funcs(fd, func(ft *ast.FuncType, body *ast.BlockStmt) {
			if namedResults(ft) {
				return
			}
			rt := resultTypes(ft)
			returnsOf(body, func(r *ast.ReturnStmt) []ast.Stmt {
				if len(r.Results) == 0 {
					return nil
				}
				var out []ast.Stmt
				var names, vals []ast.Expr
				for range rt {
					names = append(names, id(fresh("ret")))
				}
				if len(r.Results) != len(rt) {
					out = append(out, &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: r.Results})
				} else {
					for i, e := range r.Results {
						out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{names[i].(*ast.Ident)}, Type: rt[i], Values: []ast.Expr{e}}}}})
					}
				}
				for _, x := range names {
					vals = append(vals, id(x.(*ast.Ident).Name))
				}
				return append(out, &ast.ReturnStmt{Results: vals})
			})
		})
	}},
	{"namedresults", func(fd *ast.FuncDecl) {
		ft := fd.Type
		if namedResults(ft) || ft.Results == nil {
			return
		}
		var names []ast.Expr
		for _, f := range ft.Results.List {
			nm := fresh("out")
			f.Names = []*ast.Ident{id(nm)}
			names = append(names, id(nm))
		}
		returnsOf(fd.Body, func(r *ast.ReturnStmt) []ast.Stmt {
			return []ast.Stmt{&ast.AssignStmt{Lhs: names, Tok: token.ASSIGN, Rhs: r.Results}, &ast.ReturnStmt{}}
		})
	}},
	{"singleexit", func(fd *ast.FuncDecl) { // body moved to a closure, whose results are kept and returned at the end
		ft := fd.Type
		rt := resultTypes(ft)
		if namedResults(ft) || len(rt) == 0 || hasDefer(fd.Body) {
			return
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: ft.Results}, Body: fd.Body}
		var a, b []ast.Expr
		for range rt {
			s := fresh("res")
			a = append(a, id(s))
			b = append(b, id(s))
		}
		fd.Body = block(&ast.AssignStmt{Lhs: a, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: lit}}}, &ast.ReturnStmt{Results: b})
		sites++
	}},
	{"wrapper", func(fd *ast.FuncDecl) {
		if fd.Name.Name == "main" || fd.Name.Name == "init" || hasDefer(fd.Body) && has(fd.Body, func(n ast.Node) bool { c, ok := n.(*ast.CallExpr); return ok && fmt.Sprint(c.Fun) == "recover" }) {
			return
		}
		nm := fresh(strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Impl")
		var args []ast.Expr
		ell := token.NoPos
		cp := &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}
		for _, f := range fd.Type.Params.List {
			g := &ast.Field{Type: f.Type}
			if len(f.Names) == 0 {
				return
			}
			for _, x := range f.Names {
				if x.Name == "_" {
					return
				}
				g.Names = append(g.Names, id(x.Name))
				args = append(args, id(x.Name))
			}
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
			cp.Params.List = append(cp.Params.List, g)
		}
		var fun ast.Expr = id(nm)
		d := &ast.FuncDecl{Name: id(nm), Type: fd.Type, Body: fd.Body}
		if fd.Recv != nil {
			if len(fd.Recv.List[0].Names) == 0 {
				return
			}
			d.Recv = fd.Recv
			r := fd.Recv.List[0]
			fun = &ast.SelectorExpr{X: id(r.Names[0].Name), Sel: id(nm)}
			fd.Recv = &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id(r.Names[0].Name)}, Type: r.Type}}}
		}
		extra = append(extra, d)
		call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
		fd.Type = cp
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
			fd.Body = block(&ast.ReturnStmt{Results: []ast.Expr{call}})
		} else {
			fd.Body = block(&ast.ExprStmt{X: call})
		}
		sites++
	}},
	{"switchif", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.SwitchStmt)
			if !ok || s.Body == nil || len(s.Body.List) == 0 {
				return true
			}
			if _, ok := c.Parent().(*ast.LabeledStmt); ok {
				return true
			}
			tag := fresh("tag")
			var first, last *ast.IfStmt
			var def *ast.BlockStmt
			for _, x := range s.Body.List {
				cc := x.(*ast.CaseClause)
				// breaks of the switch
				brk := false
				ast.Inspect(block(cc.Body...), func(m ast.Node) bool {
					switch y := m.(type) {
					case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.FuncLit:
						return false
					case *ast.BranchStmt:
						if y.Tok == token.BREAK || y.Tok == token.FALLTHROUGH {
							brk = true
						}
					}
					return true
				})
				if brk {
					return true
				}
				if cc.List == nil {
					def = block(cc.Body...)
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					t := e
					if s.Tag != nil {
						t = &ast.BinaryExpr{X: id(tag), Op: token.EQL, Y: e}
					}
					if cond == nil {
						cond = t
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: t}
					}
				}
				i := &ast.IfStmt{Cond: cond, Body: block(cc.Body...)}
				if first == nil {
					first = i
				} else {
					last.Else = i
				}
				last = i
			}
			if first == nil {
				return true
			}
			if def != nil {
				last.Else = def
			}
			var l []ast.Stmt
			if s.Init != nil {
				l = append(l, s.Init)
			}
			if s.Tag != nil {
				l = append(l, define(tag, s.Tag))
			}
			l = append(l, first)
			if len(l) == 1 {
				c.Replace(first)
			} else {
				c.Replace(block(l...))
			}
			sites++
			return true
		})
	}},
	{"typeswitchif", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.TypeSwitchStmt)
			if !ok || s.Init != nil {
				return true
			}
			var name string
			var x ast.Expr
			switch a := s.Assign.(type) {
			case *ast.AssignStmt:
				name = a.Lhs[0].(*ast.Ident).Name
				x = a.Rhs[0].(*ast.TypeAssertExpr).X
			case *ast.ExprStmt:
				x = a.X.(*ast.TypeAssertExpr).X
			}
			val := fresh("val")
			var first, last *ast.IfStmt
			var def *ast.BlockStmt
			for _, y := range s.Body.List {
				cc := y.(*ast.CaseClause)
				if escapes(cc.Body) && has(block(cc.Body...), func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok != token.CONTINUE }) {
					return true
				}
				used := false
				if o := info.Implicits[cc]; o != nil {
					ast.Inspect(block(cc.Body...), func(m ast.Node) bool {
						if i, ok := m.(*ast.Ident); ok && info.Uses[i] == o {
							used = true
						}
						return true
					})
				}
				body := cc.Body
				if cc.List == nil {
					if used {
						body = append([]ast.Stmt{define(name, id(val))}, body...)
					}
					def = block(body...)
					continue
				}
				var i *ast.IfStmt
				if len(cc.List) == 1 && fmt.Sprint(cc.List[0]) != "nil" {
					ok := fresh("is")
					v := "_"
					if used {
						v = name
					}
					i = &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: id(val), Type: cc.List[0]}}}, Cond: id(ok), Body: block(body...)}
				} else if len(cc.List) == 1 {
					if used {
						body = append([]ast.Stmt{define(name, id(val))}, body...)
					}
					i = &ast.IfStmt{Cond: &ast.BinaryExpr{X: id(val), Op: token.EQL, Y: id("nil")}, Body: block(body...)}
				} else {
					return true
				}
				if first == nil {
					first = i
				} else {
					last.Else = i
				}
				last = i
			}
			if first == nil {
				return true
			}
			if def != nil {
				last.Else = def
			}
			c.Replace(block(define(val, x), first))
			sites++
			return true
		})
	}},
	{"iftoswitch", func(fd *ast.FuncDecl) { // if/else chain -> switch
		apply(fd, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else == nil || s.Init != nil {
				return true
			}
			var cl []ast.Stmt
			var cur ast.Stmt = s
			for cur != nil {
				switch x := cur.(type) {
				case *ast.IfStmt:
					if x.Init != nil {
						cl = append(cl, &ast.CaseClause{Body: []ast.Stmt{x}})
						cur = nil
						break
					}
					cl = append(cl, &ast.CaseClause{List: []ast.Expr{x.Cond}, Body: x.Body.List})
					cur = x.Else
					if x.Else == nil {
						cur = nil
					}
				case *ast.BlockStmt:
					cl = append(cl, &ast.CaseClause{Body: x.List})
					cur = nil
				}
			}
			for _, y := range cl {
				if has(y, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) {
					return true
				}
			}
			c.Replace(&ast.SwitchStmt{Body: block(cl...)})
			sites++
			return true
		}, nil)
	}},
	{"deferclosure", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.DeferStmt)
			if !ok {
				return true
			}
			if _, lit := s.Call.Fun.(*ast.FuncLit); lit || strings.Contains(strings.ToLower(fmt.Sprint(s.Call.Fun)), "recover") {
				return true
			}
			var l []ast.Stmt
			for i, a := range s.Call.Args {
				if _, isid := a.(*ast.Ident); isid {
					v := fresh("darg")
					l = append(l, define(v, a))
					s.Call.Args[i] = id(v)
				} else if tv := info.Types[a]; tv.Value == nil {
					return true
				}
			}
			for _, x := range l {
				c.InsertBefore(x)
			}
			s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: s.Call})}}
			sites++
			return true
		})
	}},
	{"undefer", func(fd *ast.FuncDecl) { // defer x.Unlock() -> explicit before every return
		funcs(fd, func(ft *ast.FuncType, body *ast.BlockStmt) {
			if namedResults(ft) {
				return
			}
			var d *ast.DeferStmt
			var l []ast.Stmt
			k := 0
			shallow(body, func(m ast.Node) bool {
				if _, ok := m.(*ast.DeferStmt); ok {
					k++
				}
				return true
			})
			seenRet := false
			for _, x := range body.List {
				if y, ok := x.(*ast.DeferStmt); ok && d == nil && !seenRet && k == 1 {
					if sel, ok := y.Call.Fun.(*ast.SelectorExpr); ok && strings.HasSuffix(sel.Sel.Name, "nlock") {
						d = y
						continue
					}
				}
				if d == nil && hasReturn(x) {
					seenRet = true
				}
				l = append(l, x)
			}
			if d == nil {
				return
			}
			body.List = l
			rt := resultTypes(ft)
			ends := terminates(l)
			returnsOf(body, func(r *ast.ReturnStmt) []ast.Stmt {
				var out []ast.Stmt
				var names, vals []ast.Expr
				if len(r.Results) > 0 {
					for range rt {
						names = append(names, id(fresh("ret")))
					}
					if len(r.Results) != len(rt) {
						out = append(out, &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: r.Results})
					} else {
						for i, e := range r.Results {
							out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{names[i].(*ast.Ident)}, Type: rt[i], Values: []ast.Expr{e}}}}})
						}
					}
					for _, x := range names {
						vals = append(vals, id(x.(*ast.Ident).Name))
					}
				}
				out = append(out, &ast.ExprStmt{X: d.Call})
				return append(out, &ast.ReturnStmt{Results: vals})
			})
			if !ends && len(rt) == 0 {
				body.List = append(body.List, &ast.ExprStmt{X: d.Call})
			}
			sites++
		})
	}},
	{"goclosure", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.GoStmt)
			if !ok {
				return true
			}
			if _, lit := s.Call.Fun.(*ast.FuncLit); lit {
				return true
			}
			var l []ast.Stmt
			for i, a := range s.Call.Args {
				if tv := info.Types[a]; tv.Value == nil {
					v := fresh("garg")
					l = append(l, define(v, a))
					s.Call.Args[i] = id(v)
				}
			}
			s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: s.Call})}}
			l = append(l, s)
			c.Replace(block(l...))
			sites++
			return true
		})
	}},
	{"fields", func(fd *ast.FuncDecl) { // x := &T{A: a} -> x := &T{}; x.A = a
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, x := range l {
				out = append(out, x)
				s, ok := x.(*ast.AssignStmt)
				if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
					continue
				}
				e := s.Rhs[0]
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
					e = u.X
				}
				cl, ok := e.(*ast.CompositeLit)
				if !ok {
					continue
				}
				if t := info.TypeOf(cl); t == nil {
					continue
				} else if _, ok := t.Underlying().(*types.Struct); !ok {
					continue
				}
				var as []ast.Stmt
				bad := false
				for _, el := range cl.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						bad = true
						break
					}
					as = append(as, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(s.Lhs[0].(*ast.Ident).Name), Sel: id(kv.Key.(*ast.Ident).Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
				}
				if !bad && len(as) > 0 {
					cl.Elts = nil
					out = append(out, as...)
					sites++
				}
			}
			return out
		})
	}},
	{"varnew", func(fd *ast.FuncDecl) { // x := e -> var x T = e ; &T{} -> new(T)
		apply(fd, nil, func(c *astutil.Cursor) bool {
			if u, ok := c.Node().(*ast.UnaryExpr); ok && u.Op == token.AND {
				if cl, ok := u.X.(*ast.CompositeLit); ok && len(cl.Elts) == 0 && cl.Type != nil {
					c.Replace(&ast.CallExpr{Fun: id("new"), Args: []ast.Expr{cl.Type}})
					sites++
				}
			}
			return true
		})
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, x := range l {
				s, ok := x.(*ast.AssignStmt)
				if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
					continue
				}
				nm, ok := s.Lhs[0].(*ast.Ident)
				if !ok || info.Defs[nm] == nil {
					continue
				}
				te := typeExpr(info.Defs[nm].Type())
				if te == nil {
					continue
				}
				l[i] = &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{nm}, Type: te, Values: s.Rhs}}}}
				sites++
			}
			return l
		})
	}},
	{"consts", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BasicLit)
			if !ok || b.Kind != token.STRING && b.Kind != token.INT {
				return true
			}
			nm := fresh("konst")
			extra = append(extra, &ast.GenDecl{Tok: token.CONST, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(nm)}, Values: []ast.Expr{&ast.BasicLit{Kind: b.Kind, Value: b.Value}}}}})
			c.Replace(id(nm))
			sites++
			return true
		})
	}},
	{"continue", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			var b *ast.BlockStmt
			switch s := c.Node().(type) {
			case *ast.ForStmt:
				b = s.Body
			case *ast.RangeStmt:
				b = s.Body
			default:
				return true
			}
			if len(b.List) == 0 {
				return true
			}
			if s, ok := b.List[len(b.List)-1].(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
				body := s.Body.List
				s.Cond = neg(s.Cond)
				s.Body = block(&ast.BranchStmt{Tok: token.CONTINUE})
				b.List = append(b.List, body...)
				sites++
			}
			return true
		})
	}},
	{"selectrev", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.SelectStmt); ok && len(s.Body.List) > 1 {
				l := s.Body.List
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
				sites++
			}
			return true
		})
	}},
	{"caserev", func(fd *ast.FuncDecl) {
		apply(fd, nil, func(c *astutil.Cursor) bool {
			var l []ast.Stmt
			switch s := c.Node().(type) {
			case *ast.SwitchStmt:
				if s.Tag == nil {
					return true
				}
				l = s.Body.List
				for _, x := range l {
					for _, e := range x.(*ast.CaseClause).List {
						if info.Types[e].Value == nil {
							return true
						}
					}
				}
			case *ast.TypeSwitchStmt:
				l = s.Body.List
				for _, x := range l {
					for _, e := range x.(*ast.CaseClause).List {
						if t := info.TypeOf(e); t == nil || types.IsInterface(t) {
							return true
						}
					}
				}
			default:
				return true
			}
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			sites++
			return true
		})
	}},
	{"tailhelper", func(fd *ast.FuncDecl) { tail(fd, func(n int) int { return n / 2 }) }},
	{"tailhelper2", func(fd *ast.FuncDecl) { tail(fd, func(n int) int { return 1 }) }},
	{"tailhelper3", func(fd *ast.FuncDecl) { tail(fd, func(n int) int { return n - 2 }) }},
	{"thenhelper", func(fd *ast.FuncDecl) { // if c { ...; return x } -> if c { return helper() }
		if namedResults(fd.Type) {
			return
		}
		apply(fd, func(c *astutil.Cursor) bool {
			if _, ok := c.Node().(*ast.FuncLit); ok {
				return false
			}
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || len(s.Body.List) < 2 || hasDefer(s.Body) || escapes(s.Body.List) {
				return true
			}
			if _, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); !ok {
				return true
			}
			vars, asg := freeVars(s.Body.List, fd)
			cap := captured(fd)
			for _, v := range vars {
				if asg[v] && cap[v] {
					return true
				}
			}
			nm := fresh("branch")
			args, ok := helper(nm, s.Body.List, vars, fd.Type.Results)
			if !ok {
				return true
			}
			call := &ast.CallExpr{Fun: id(nm), Args: args}
			if len(resultTypes(fd.Type)) > 0 {
				s.Body = block(&ast.ReturnStmt{Results: []ast.Expr{call}})
			} else {
				s.Body = block(&ast.ExprStmt{X: call}, &ast.ReturnStmt{})
			}
			sites++
			return false
		}, nil)
	}},
	{"loopbody", func(fd *ast.FuncDecl) { // loop body without escapes -> helper(vars)
		apply(fd, nil, func(c *astutil.Cursor) bool {
			var b **ast.BlockStmt
			switch s := c.Node().(type) {
			case *ast.ForStmt:
				b = &s.Body
			case *ast.RangeStmt:
				b = &s.Body
			default:
				return true
			}
			l := (*b).List
			if len(l) == 0 || hasReturn(*b) || hasDefer(*b) || escapes(l) {
				return true
			}
			seg(fd, l, func(x []ast.Stmt) { *b = block(x...) })
			return true
		})
	}},
	{"segment", func(fd *ast.FuncDecl) { // statements between first and last third -> helper returning what it assigned
		funcs(fd, func(ft *ast.FuncType, body *ast.BlockStmt) {
			l := body.List
			for k := len(l) - 1; k >= 1; k-- {
				for i := 0; i+k <= len(l); i++ {
					part := l[i : i+k]
					if k < 2 {
						// a single compound statement
						switch part[0].(type) {
						case *ast.ForStmt, *ast.RangeStmt, *ast.IfStmt, *ast.SwitchStmt:
						default:
							continue
						}
					}
					b := block(part...)
					if hasReturn(b) || hasDefer(b) || escapes(part) {
						continue
					}
					// variables declared here and used later
					decl := map[types.Object]bool{}
					for _, s := range part {
						ast.Inspect(s, func(m ast.Node) bool {
							if x, ok := m.(*ast.Ident); ok && info.Defs[x] != nil {
								decl[info.Defs[x]] = true
							}
							return true
						})
					}
					later := false
					ast.Inspect(block(l[i+k:]...), func(m ast.Node) bool {
						if x, ok := m.(*ast.Ident); ok && decl[info.Uses[x]] {
							later = true
						}
						return true
					})
					if later {
						continue
					}
					done := false
					seg(fd, part, func(x []ast.Stmt) {
						nl := append([]ast.Stmt{}, l[:i]...)
						nl = append(nl, x...)
						nl = append(nl, l[i+k:]...)
						body.List = nl
						done = true
					})
					if done {
						return
					}
				}
			}
		})
	}},
	{"exprhelper", func(fd *ast.FuncDecl) { // every condition -> predicate helper
		apply(fd, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok {
				return true
			}
			if _, ok := s.Cond.(*ast.Ident); ok {
				return true
			}
			e := &ast.ReturnStmt{Results: []ast.Expr{s.Cond}}
			vars, asg := freeVars([]ast.Stmt{e}, fd)
			for _, v := range vars {
				if asg[v] {
					return true
				}
			}
			nm := fresh("pred")
			args, ok := helper(nm, []ast.Stmt{e}, vars, &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}})
			if !ok {
				return true
			}
			s.Cond = &ast.CallExpr{Fun: id(nm), Args: args}
			sites++
			return true
		})
	}},
	{"swap", func(fd *ast.FuncDecl) { // swap adjacent independent simple statements
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				if simple(l[i]) && simple(l[i+1]) && independent(l[i], l[i+1], fd) {
					l[i], l[i+1] = l[i+1], l[i]
					i++
					sites++
				}
			}
			return l
		})
	}},
	{"litvar", func(fd *ast.FuncDecl) { // function literals passed as arguments get a name first
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, x := range l {
				s, ok := x.(*ast.ExprStmt)
				if ok {
					if c, ok := s.X.(*ast.CallExpr); ok {
						for i, a := range c.Args {
							if _, ok := a.(*ast.FuncLit); ok {
								v := fresh("fn")
								out = append(out, define(v, a))
								c.Args[i] = id(v)
								sites++
							}
						}
					}
				}
				out = append(out, x)
			}
			return out
		})
	}},
	{"noop", func(fd *ast.FuncDecl) {
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			if len(l) == 0 {
				return l
			}
			if _, ok := l[0].(*ast.CaseClause); ok {
				return l
			}
			if _, ok := l[0].(*ast.CommClause); ok {
				return l
			}
			sites++
			return append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, l...)
		})
	}},
	{"methodfunc", func(fd *ast.FuncDecl) { // method body -> plain function taking the receiver
		if fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 || hasDefer(fd.Body) {
			return
		}
		nm := fresh("func" + fd.Name.Name)
		r := fd.Recv.List[0]
		params := &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id(r.Names[0].Name)}, Type: r.Type}}}
		args := []ast.Expr{id(r.Names[0].Name)}
		ell := token.NoPos
		for _, f := range fd.Type.Params.List {
			if len(f.Names) == 0 {
				return
			}
			g := &ast.Field{Type: f.Type}
			for _, x := range f.Names {
				if x.Name == "_" {
					return
				}
				g.Names = append(g.Names, id(x.Name))
				args = append(args, id(x.Name))
			}
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
			params.List = append(params.List, g)
		}
		extra = append(extra, &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: params, Results: fd.Type.Results}, Body: fd.Body})
		call := &ast.CallExpr{Fun: id(nm), Args: args, Ellipsis: ell}
		if len(resultTypes(fd.Type)) > 0 {
			fd.Body = block(&ast.ReturnStmt{Results: []ast.Expr{call}})
		} else {
			fd.Body = block(&ast.ExprStmt{X: call})
		}
		sites++
	}},
}

func simple(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE || x.Tok == token.ASSIGN {
			for _, e := range append(append([]ast.Expr{}, x.Rhs...), x.Lhs...) {
				if has(e, func(n ast.Node) bool {
					switch y := n.(type) {
					case *ast.CallExpr:
						return !isConv(y)
					case *ast.UnaryExpr:
						return y.Op == token.ARROW || y.Op == token.AND
					case *ast.TypeAssertExpr, *ast.IndexExpr, *ast.StarExpr:
						return true
					}
					return false
				}) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func vset(s ast.Stmt) (uses, sets map[string]bool) {
	uses, sets = map[string]bool{}, map[string]bool{}
	a := s.(*ast.AssignStmt)
	for _, e := range a.Lhs {
		sets[exprString(e)] = true
		ast.Inspect(e, func(m ast.Node) bool {
			if i, ok := m.(*ast.Ident); ok && m != e {
				uses[i.Name] = true
			}
			return true
		})
	}
	for _, e := range a.Rhs {
		ast.Inspect(e, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.Ident:
				uses[x.Name] = true
			case *ast.SelectorExpr:
				uses[exprString(x)] = true
			}
			return true
		})
	}
	return
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

func independent(a, b ast.Stmt, fd *ast.FuncDecl) bool {
	ua, sa := vset(a)
	ub, sb := vset(b)
	for s := range sa {
		if ub[s] || sb[s] {
			return false
		}
	}
	for s := range sb {
		if ua[s] {
			return false
		}
	}
	return true
}

// seg replaces statements by a call of a helper that gets the free variables
// and returns the assigned ones
func seg(fd *ast.FuncDecl, l []ast.Stmt, set func([]ast.Stmt)) {
	vars, asg := freeVars(l, fd)
	cap := captured(fd)
	var outs []*types.Var
	for _, v := range vars {
		if asg[v] {
			if cap[v] {
				return
			}
			outs = append(outs, v)
		}
	}
	var res *ast.FieldList
	var lhs, ret []ast.Expr
	if len(outs) > 2 {
		return
	}
	for _, v := range outs {
		te := typeExpr(v.Type())
		if te == nil {
			return
		}
		if res == nil {
			res = &ast.FieldList{}
		}
		res.List = append(res.List, &ast.Field{Type: te})
		lhs = append(lhs, id(v.Name()))
		ret = append(ret, id(v.Name()))
	}
	body := append([]ast.Stmt{}, l...)
	if len(ret) > 0 {
		body = append(body, &ast.ReturnStmt{Results: ret})
	}
	nm := fresh("part")
	args, ok := helper(nm, body, vars, res)
	if !ok {
		return
	}
	call := &ast.CallExpr{Fun: id(nm), Args: args}
	sites++
	if len(lhs) > 0 {
		set([]ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}})
	} else {
		set([]ast.Stmt{&ast.ExprStmt{X: call}})
	}
}

func tail(fd *ast.FuncDecl, from func(n int) int) {
	funcs(fd, func(ft *ast.FuncType, body *ast.BlockStmt) {
		l := body.List
		if namedResults(ft) || len(l) < 3 {
			return
		}
		k := from(len(l))
		if k < 1 || len(l)-k < 2 {
			return
		}
		part := l[k:]
		if escapes(part) {
			return
		}
		if has(block(part...), func(n ast.Node) bool { c, ok := n.(*ast.CallExpr); return ok && fmt.Sprint(c.Fun) == "recover" }) {
			return
		}
		vars, asg := freeVars(part, fd)
		cap := captured(fd)
		for _, v := range vars {
			if asg[v] && cap[v] {
				return
			}
			if asg[v] && fd.Name.Name == "" {
				return
			}
		}
		// struct values with locks must not be copied; skip struct variables
		for _, v := range vars {
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				return
			}
		}
		nm := fresh("rest")
		args, ok := helper(nm, append([]ast.Stmt{}, part...), vars, ft.Results)
		if !ok {
			return
		}
		call := &ast.CallExpr{Fun: id(nm), Args: args}
		nl := append([]ast.Stmt{}, l[:k]...)
		if len(resultTypes(ft)) > 0 {
			nl = append(nl, &ast.ReturnStmt{Results: []ast.Expr{call}})
		} else {
			nl = append(nl, &ast.ExprStmt{X: call})
		}
		body.List = nl
		sites++
	})
}

func fname(fd *ast.FuncDecl) string {
	if fd.Recv != nil {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		return fmt.Sprint(t) + "." + fd.Name.Name
	}
	return fd.Name.Name
}

func main() {
	repo := flag.String("repo", "", "")
	fileF := flag.String("file", "", "file relative to repo")
	t := flag.String("t", "", "transformation")
	fn := flag.String("fn", "", "function, or all")
	list := flag.Bool("list", false, "list transformations")
	flag.Parse()
	if *list {
		var s []string
		for _, x := range transforms {
			s = append(s, x.name)
		}
		fmt.Println(strings.Join(s, "\n"))
		return
	}
	path := filepath.Join(*repo, *fileF)
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax &^ packages.NeedDeps | packages.NeedDeps, Dir: filepath.Dir(path), ParseFile: func(fset *token.FileSet, fn string, src []byte) (*ast.File, error) {
		return parser.ParseFile(fset, fn, src, 0)
	}}, ".")
	if err != nil || len(ps) != 1 {
		fmt.Println("load", err)
		os.Exit(2)
	}
	p := ps[0]
	info, pkg = p.TypesInfo, p.Types
	for i, f := range p.Syntax {
		if p.CompiledGoFiles[i] == path {
			file = f
		}
	}
	if file == nil {
		fmt.Println("no file")
		os.Exit(2)
	}
	var names []string
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || *fn != "" && *fn != fname(fd) {
			continue
		}
		k := sites
		for _, x := range transforms {
			if x.name == *t {
				x.f(fd)
			}
		}
		if sites > k {
			names = append(names, fname(fd))
		}
	}
	if sites == 0 {
		os.Exit(3)
	}
	file.Decls = append(file.Decls, extra...)
	var b bytes.Buffer
	// positions of moved nodes confuse the printer: print declaration by declaration without them
	strip(file)
	if err := format.Node(&b, token.NewFileSet(), file); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	sort.Strings(names)
	fmt.Println(strings.Join(names, " "))
	os.WriteFile(path, b.Bytes(), 0o644)
}

func strip(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Lparen.IsValid() {
				x.Lparen = 1
			}
		case *ast.CallExpr:
			if x.Ellipsis.IsValid() {
				x.Ellipsis = 1
			}
		}
		return true
	})
}
