package main

import (
	"go/ast"
	goparser "go/parser"
	"go/token"
)

// parseNormal parses a source file and brings its loops into the form the
// evaluation summarizes best; positions are kept.
func parseNormal(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := goparser.ParseFile(fset, name, src, goparser.SkipObjectResolution|goparser.ParseComments)
	if err == nil {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				normal(n.List)
			case *ast.CaseClause:
				normal(n.Body)
			case *ast.CommClause:
				normal(n.Body)
			}
			return true
		})
	}
	return f, err
}

func normal(list []ast.Stmt) {
	flagLoops(list)
	timers(list)
}

// timers: a function that is called later,
//
//	time.AfterFunc(d, f)
//
// is one that is called by a goroutine that has slept before:
//
//	go func(d time.Duration, f func()) { time.Sleep(d); f() }(d, f)
func timers(list []ast.Stmt) {
	for i, st := range list {
		x, ok := st.(*ast.ExprStmt)
		if !ok {
			continue
		}
		call, ok := x.X.(*ast.CallExpr)
		if !ok || len(call.Args) != 2 {
			continue
		}
		sel, ok := call.Fun.(*ast.SelectorExpr)
		if !ok || sel.Sel.Name != "AfterFunc" {
			continue
		}
		pkg, ok := sel.X.(*ast.Ident)
		if !ok || pkg.Name != "time" {
			continue
		}
		at := call.Pos()
		id := func(n string) *ast.Ident { return &ast.Ident{NamePos: at, Name: n} }
		of := func(n string) ast.Expr { return &ast.SelectorExpr{X: id("time"), Sel: id(n)} }
		do := func(f ast.Expr, as ...ast.Expr) *ast.CallExpr {
			return &ast.CallExpr{Fun: f, Lparen: at, Args: as, Rparen: at}
		}
		fn := &ast.FuncLit{
			Type: &ast.FuncType{Func: at, Params: &ast.FieldList{Opening: at, Closing: at, List: []*ast.Field{
				{Names: []*ast.Ident{id("d")}, Type: of("Duration")},
				{Names: []*ast.Ident{id("f")}, Type: &ast.FuncType{Func: at, Params: &ast.FieldList{Opening: at, Closing: at}}}}}},
			Body: &ast.BlockStmt{Lbrace: at, Rbrace: at, List: []ast.Stmt{
				&ast.ExprStmt{X: do(of("Sleep"), id("d"))}, &ast.ExprStmt{X: do(id("f"))}}}}
		list[i] = &ast.GoStmt{Go: at, Call: do(fn, call.Args...)}
	}
}

// flagLoops: a loop that goes on while a flag is not set,
//
//	for i := 0; !found && i < n; i++ { … }
//
// is one that ends when the flag is set:
//
//	if !found { for i := 0; i < n; i++ { …; if found { break } } }
func flagLoops(list []ast.Stmt) {
	for i, st := range list {
		loop, ok := st.(*ast.ForStmt)
		if !ok || loop.Post == nil {
			continue
		}
		and, ok := unparen(loop.Cond).(*ast.BinaryExpr)
		if !ok || and.Op != token.LAND {
			continue
		}
		if init, ok := loop.Init.(*ast.AssignStmt); !ok || init.Tok != token.DEFINE || len(init.Rhs) != 1 || !plain(init.Rhs[0]) {
			continue
		}
		flag, rest := and.X, and.Y
		name, set := flagOf(flag)
		if name == nil {
			flag, rest = and.Y, and.X
			name, set = flagOf(flag)
		}
		if name == nil || !assigns(loop.Body, name.Name) || continues(loop.Body) || !plain(rest) {
			continue
		}
		at := flag.Pos()
		id := func() ast.Expr { return &ast.Ident{NamePos: at, Name: name.Name} }
		not := func(x ast.Expr) ast.Expr { return &ast.UnaryExpr{OpPos: at, Op: token.NOT, X: x} }
		done, more := id(), not(id())
		if !set {
			done, more = not(id()), id()
		}
		loop.Cond = rest
		loop.Body.List = append(loop.Body.List, &ast.IfStmt{If: at, Cond: done,
			Body: &ast.BlockStmt{Lbrace: at, List: []ast.Stmt{&ast.BranchStmt{TokPos: at, Tok: token.BREAK}}, Rbrace: at}})
		list[i] = &ast.IfStmt{If: loop.For, Cond: more, Body: &ast.BlockStmt{Lbrace: loop.For, List: []ast.Stmt{loop}, Rbrace: loop.End()}}
	}
}

func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

// flagOf is the variable of a flag, and the value that ends the loop.
func flagOf(x ast.Expr) (*ast.Ident, bool) {
	switch x := unparen(x).(type) {
	case *ast.Ident:
		return x, false
	case *ast.UnaryExpr:
		if id, ok := unparen(x.X).(*ast.Ident); ok && x.Op == token.NOT {
			return id, true
		}
	}
	return nil, false
}

// plain: the expression only compares, and calls nothing but len.
func plain(x ast.Expr) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, is := n.Fun.(*ast.Ident); !is || id.Name != "len" {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func assigns(b *ast.BlockStmt, name string) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN {
			for _, l := range a.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == name {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// continues: the body goes on with the next iteration before its end, or
// declares names of its own that might hide the flag.
func continues(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE || n.Tok == token.GOTO {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}
