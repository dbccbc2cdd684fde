// mutate lists small syntactic changes to Go files, as JSON lines, for trying
// the checks against. It is a development tool: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Repl string `json:"repl"`
	Desc string `json:"desc"`
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL, token.REM}, token.REM: {token.QUO},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND, token.XOR}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND_NOT: {token.AND, token.OR},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl, desc string) {
			enc.Encode(mutant{f, fs.Position(a).Line, off(a), off(b), repl, desc})
		}
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.GoStmt:
					emit(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete "+text(s))
						if len(x.Lhs) == 1 {
							emit(s.Pos(), s.End(), "_ = "+text(x.Rhs[0]), "discard "+text(s))
						}
						if x.Tok != token.ASSIGN && len(x.Lhs) == 1 {
							emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=", "op= to = in "+text(s))
						}
					}
				case *ast.IfStmt:
					if x.Init == nil && x.Else == nil {
						emit(s.Pos(), s.End(), "", "delete "+text(s))
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						last := x.Results[len(x.Results)-1]
						if t := text(last); t != "nil" {
							emit(last.Pos(), last.End(), "nil", "return nil for "+t)
						}
					}
				}
				if i+1 < len(l) {
					_, r1 := s.(*ast.DeclStmt)
					if !r1 {
						a, b := text(s), text(l[i+1])
						emit(s.Pos(), l[i+1].End(), b+"\n"+a, "swap "+a+" with "+b)
					}
				}
			}
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o.String(), fmt.Sprintf("%s: %s to %s", text(x), x.Op, o))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "drop right of "+text(x))
					emit(x.Pos(), x.End(), text(x.Y), "drop left of "+text(x))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR {
					emit(x.OpPos, x.X.Pos(), "", "drop unary in "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("%s to %d", x.Value, v+1))
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), fmt.Sprintf("%s to %d", x.Value, v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true to false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false to true")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") == false", "negate "+text(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always "+text(x.Cond))
			case *ast.SliceExpr:
				if x.Slice3 {
					emit(x.Pos(), x.End(), text(x.X), "unclip "+text(x))
				}
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "low+1 in "+text(x))
				}
				if x.High != nil && !x.Slice3 {
					emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "high-1 in "+text(x))
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) >= 2 {
					emit(x.Pos(), x.End(), text(x.Args[0]), "drop append in "+text(x))
				}
				if len(x.Args) == 2 {
					emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap args of "+text(x))
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			}
			return true
		})
	}
}
