// Command mutate prints or applies single-point mutations of a Go file.
//
//	mutate FILE            prints the number of mutations
//	mutate FILE N          prints the file with mutation N; describes it on stderr
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	desc string
	pos  token.Pos
	do   func()
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.AND}, token.AND: {token.OR},
}

var names = map[string]string{"left": "right", "right": "left", "start": "end", "end": "start", "next": "prev", "prev": "next", "low": "high", "high": "low",
	"Left": "Right", "Right": "Left", "Front": "Back", "Back": "Front", "front": "back", "back": "front", "Next": "Prev", "Prev": "Next", "x": "y", "y": "x", "width": "height", "height": "width", "mid": "left", "key": "val", "a": "b", "b": "a", "Min": "Max", "Max": "Min", "head": "tail", "tail": "head", "forward": "reverse"}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, d string, do func()) { ms = append(ms, mut{d, p, do}) }
	stmts := func(list *[]ast.Stmt) {
		for i, s := range *list {
			i, list := i, list
			switch s := s.(type) {
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE {
					continue
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.BranchStmt:
			case *ast.ReturnStmt:
				if len(s.Results) > 0 {
					continue
				}
			default:
				continue
			}
			add(s.Pos(), "delete statement", func() { (*list)[i] = &ast.EmptyStmt{} })
			if i > 0 {
				if _, ok := (*list)[i-1].(*ast.AssignStmt); ok {
					if _, ok := s.(*ast.AssignStmt); ok {
						add(s.Pos(), "swap with the statement before", func() { (*list)[i], (*list)[i-1] = (*list)[i-1], (*list)[i] })
					}
				}
			}
		}
	}
	var inFn bool
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		inFn = true
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				op := n.Op
				for _, o := range swaps[op] {
					o := o
					add(n.OpPos, fmt.Sprintf("%s to %s", op, o), func() { n.Op = o })
				}
				if op == token.LAND || op == token.LOR {
					add(n.OpPos, "keep only the left operand", func() { n.Y = n.X })
					add(n.OpPos, "keep only the right operand", func() { n.X = n.Y })
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v := n.Value
					k, err := strconv.ParseInt(v, 0, 64)
					if err == nil {
						add(n.Pos(), v+" plus 1", func() { n.Value = strconv.FormatInt(k+1, 10) })
						if k > 0 {
							add(n.Pos(), v+" minus 1", func() { n.Value = strconv.FormatInt(k-1, 10) })
						}
					}
				}
			case *ast.IfStmt:
				add(n.Pos(), "negate", func() { n.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: n.Cond}} })
				if n.Else != nil {
					add(n.Pos(), "drop else", func() { n.Else = nil })
				}
			case *ast.Ident:
				if r, ok := names[n.Name]; ok {
					v := n.Name
					add(n.Pos(), v+" to "+r, func() { n.Name = r })
				}
				if n.Name == "true" || n.Name == "false" {
					v := n.Name
					add(n.Pos(), "not "+v, func() {
						if v == "true" {
							n.Name = "false"
						} else {
							n.Name = "true"
						}
					})
				}
			case *ast.IncDecStmt:
				add(n.Pos(), "flip", func() {
					if n.Tok == token.INC {
						n.Tok = token.DEC
					} else {
						n.Tok = token.INC
					}
				})
			case *ast.SliceExpr:
				if n.Low != nil {
					add(n.Pos(), "drop low", func() { n.Low = nil })
				}
				if n.High != nil && !n.Slice3 {
					add(n.Pos(), "drop high", func() { n.High = nil })
				}
				if n.Slice3 {
					add(n.Pos(), "drop cap", func() { n.Slice3, n.Max = false, nil })
				}
			case *ast.CallExpr:
				if len(n.Args) == 2 {
					add(n.Pos(), "swap arguments", func() { n.Args[0], n.Args[1] = n.Args[1], n.Args[0] })
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 && n.Ellipsis.IsValid() {
				}
			case *ast.BlockStmt:
				stmts(&n.List)
			case *ast.CaseClause:
				stmts(&n.Body)
			}
			return true
		})
	}
	_ = inFn
	if len(os.Args) < 3 {
		fmt.Println(len(ms))
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	p := fset.Position(ms[k].pos)
	fmt.Fprintf(os.Stderr, "%s:%d: %s\n", p.Filename, p.Line, ms[k].desc)
	ms[k].do()
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(buf.Bytes())
}
