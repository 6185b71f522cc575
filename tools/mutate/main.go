// Command mutate makes small changes to Go source files.  It is used to
// measure how many changes the checks find (see mutants.py).
//
//	mutate FILE      lists the possible changes
//	mutate FILE K    writes the file with change number K to stdout
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	pos   token.Pos
	desc  string
	apply func()
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
}

func main() {
	fset := token.NewFileSet()
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	text := func(n ast.Node) string {
		s := string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 90 {
			s = s[:90] + "..."
		}
		return s
	}
	var changes []change
	fn := ""
	add := func(n ast.Node, desc string, apply func()) {
		changes = append(changes, change{n.Pos(), fn + ": " + desc, apply})
	}

	isError := func(n ast.Node) bool {
		s := text(n)
		return strings.Contains(s, "err != nil") || strings.Contains(s, "errors.New") || strings.Contains(s, "Errorf")
	}
	block := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE {
					continue
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
			default:
				continue
			}
			if strings.HasPrefix(text(s), "panic(") {
				continue
			}
			add(s, "delete "+text(s), func() {
				if a, ok := s.(*ast.AssignStmt); ok {
					// keep the variables in use
					var lhs []ast.Expr
					for range a.Lhs {
						lhs = append(lhs, ast.NewIdent("_"))
					}
					list[i] = &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: a.Rhs}
					if a.Tok != token.ASSIGN {
						list[i] = &ast.EmptyStmt{Implicit: true}
					}
					return
				}
				list[i] = &ast.EmptyStmt{Implicit: true}
			})
		}
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec, *ast.Field:
			return false
		case *ast.GenDecl:
			if n.Tok == token.TYPE || n.Tok == token.IMPORT {
				return false
			}
		case *ast.FuncDecl:
			fn = n.Name.Name
			if n.Name.Name == "String" || n.Name.Name == "Error" {
				return false
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return false
			}
			if s := text(n.Fun); strings.HasPrefix(s, "fmt.") || strings.HasPrefix(s, "errors.") || s == "make" {
				return false
			}
		case *ast.CompositeLit:
			if s := text(n); strings.Contains(s, "Error{") {
				return false
			}
		case *ast.BlockStmt:
			block(n.List)
		case *ast.CaseClause:
			block(n.Body)
		case *ast.IfStmt:
			if !isError(n.Cond) {
				cond := n.Cond
				add(n, "if "+text(cond)+" -> false", func() { n.Cond = &ast.BinaryExpr{X: ast.NewIdent("false"), Op: token.LAND, Y: &ast.ParenExpr{X: cond}} })
				add(n, "if "+text(cond)+" -> true", func() { n.Cond = &ast.BinaryExpr{X: ast.NewIdent("true"), Op: token.LOR, Y: &ast.ParenExpr{X: cond}} })
			}
		case *ast.BinaryExpr:
			if isError(n) {
				return true
			}
			for _, op := range swaps[n.Op] {
				add(n, text(n)+": "+n.Op.String()+" -> "+op.String(), func() { n.Op = op })
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err != nil {
					return true
				}
				add(n, fmt.Sprintf("line %d: %s -> %d", fset.Position(n.Pos()).Line, n.Value, v+1), func() { n.Value = fmt.Sprint(v + 1) })
				if v > 1 {
					add(n, fmt.Sprintf("line %d: %s -> %d", fset.Position(n.Pos()).Line, n.Value, v-1), func() { n.Value = fmt.Sprint(v - 1) })
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)

	if len(os.Args) < 3 {
		for i, c := range changes {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(c.pos).Line, c.desc)
		}
		return
	}
	k, err := strconv.Atoi(os.Args[2])
	if err != nil {
		panic(err)
	}
	changes[k].apply()
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(buf.Bytes())
}
