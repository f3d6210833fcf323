// mutants lists small changes of Go files: one JSON object per line with file, offset, length,
// replacement, line and kind. Usage: go run mutants.go ROOT FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	File        string
	Off, Len    int
	New         string
	Line        int
	Kind, Where string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, repl, kind string) {
			where := string(src[off(from):off(to)])
			if len(where) > 160 {
				where = where[:160]
			}
			enc.Encode(mutant{f, off(from), off(to) - off(from), repl, fset.Position(from).Line, kind, where})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch v := s.(type) {
				case *ast.ExprStmt:
					emit(v.Pos(), v.End(), "", "drop call")
				case *ast.AssignStmt:
					if v.Tok == token.ASSIGN {
						blank := "_ = " + text(v.Rhs[0])
						for _, r := range v.Rhs[1:] {
							blank += "; _ = " + text(r)
						}
						if len(v.Lhs) > len(v.Rhs) {
							blank = strings.Repeat("_, ", len(v.Lhs)-1) + blank
						}
						emit(v.Pos(), v.End(), blank, "drop assignment")
					}
				case *ast.IncDecStmt:
					emit(v.Pos(), v.End(), "", "drop increment")
				case *ast.BranchStmt:
					if v.Tok == token.CONTINUE {
						emit(v.Pos(), v.End(), "break", "continue to break")
						emit(v.Pos(), v.End(), "", "drop continue")
					} else if v.Tok == token.BREAK {
						emit(v.Pos(), v.End(), "continue", "break to continue")
						emit(v.Pos(), v.End(), "", "drop break")
					}
				case *ast.ReturnStmt:
				case *ast.IfStmt:
					emit(v.Body.Lbrace, v.Body.Rbrace+1, "{}", "empty branch")
				case *ast.GoStmt:
				case *ast.DeferStmt:
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.GenDecl:
				if v.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(v.List)
			case *ast.CaseClause:
				stmts(v.Body)
			case *ast.BinaryExpr:
				for _, r := range swap[v.Op] {
					if v.Op == token.ADD {
						if lit, ok := v.Y.(*ast.BasicLit); ok && lit.Kind == token.STRING {
							continue
						}
						if lit, ok := v.X.(*ast.BasicLit); ok && lit.Kind == token.STRING {
							continue
						}
					}
					emit(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), r, "operator")
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					emit(v.Pos(), v.End(), "("+text(v.X)+")", "left only")
					emit(v.Pos(), v.End(), "("+text(v.Y)+")", "right only")
				}
			case *ast.UnaryExpr:
				if v.Op == token.NOT {
					emit(v.OpPos, v.OpPos+1, "", "drop not")
				}
			case *ast.BasicLit:
				switch v.Kind {
				case token.INT:
					emit(v.Pos(), v.End(), fmt.Sprintf("(%s + 1)", v.Value), "number")
					if v.Value != "0" {
						emit(v.Pos(), v.End(), fmt.Sprintf("(%s - 1)", v.Value), "number")
					}
				case token.STRING:
					if len(v.Value) > 2 {
						emit(v.Pos(), v.End(), `"zz"`, "text")
					}
				}
			case *ast.Ident:
				if v.Name == "true" {
					emit(v.Pos(), v.End(), "false", "truth")
				} else if v.Name == "false" {
					emit(v.Pos(), v.End(), "true", "truth")
				}
			case *ast.Field:
				return false
			}
			return true
		})
	}
}
