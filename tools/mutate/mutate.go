// Command mutate lists small changes of Go files: one JSON object per line,
// with the file, the byte range it replaces and the text to put there.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File, Desc, New string
	Line, From, To  int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, repl, desc string) {
			if string(src[off(from):off(to)]) == repl {
				return
			}
			enc.Encode(mutant{file, desc, repl, fset.Position(from).Line, off(from), off(to)})
		}
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.GTR: {">=", "<="}, token.LEQ: {"<", ">"}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
					emit(s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						blank := ""
						for k := range x.Lhs { // keep the variables used
							_ = k
						}
						emit(s.Pos(), s.End(), blank, "drop "+text(s))
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "", "drop "+text(s))
					}
				case *ast.ReturnStmt:
					if i == len(list)-1 && len(x.Results) == 0 {
						emit(s.Pos(), s.End(), "", "drop return")
					}
				}
				if i+1 < len(list) { // exchange neighbours
					a, okA := s.(*ast.ExprStmt)
					b, okB := list[i+1].(*ast.ExprStmt)
					_, okC := s.(*ast.AssignStmt)
					_, okD := list[i+1].(*ast.AssignStmt)
					if okA && okB {
						emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "exchange "+text(a))
					} else if okC && okD && s.(*ast.AssignStmt).Tok != token.DEFINE && list[i+1].(*ast.AssignStmt).Tok != token.DEFINE {
						emit(s.Pos(), list[i+1].End(), text(list[i+1])+"\n"+text(s), "exchange "+text(s))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, r := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, x.Op.String()+" to "+r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "only "+text(x.X))
					emit(x.Pos(), x.End(), text(x.Y), "only "+text(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "drop !")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always "+text(x.Cond))
				if x.Else != nil {
					if _, ok := x.Else.(*ast.BlockStmt); ok {
						emit(x.Else.Pos(), x.Else.End(), "{}", "drop else")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprint(v, " to ", v+1))
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprint(v, " to ", v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true to false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false to true")
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case "+string(src[off(x.Pos()):off(x.Colon)]))
				}
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "errs") {
						emit(r.Pos(), r.End(), "nil", "return nil for "+id.Name)
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil && x.Low.Pos() != x.X.Pos() {
					emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "slice from +1")
				}
			case *ast.SelectorExpr:
				pairs := map[string][]string{"V1": {"V2"}, "V2": {"V3"}, "V3": {"V1"}, "P1": {"P2"}, "P2": {"P1", "P3"}, "P3": {"P1"}, "Min": {"Max"}, "Max": {"Min"}, "RLock": nil,
					"R1": nil, "Radius": nil, "TileStyleU": {"TileStyleV"}, "TileStyleV": {"TileStyleU"}, "PID": {"PIndex"}, "PIndex": {"PID"}}
				for _, r := range pairs[x.Sel.Name] {
					emit(x.Sel.Pos(), x.Sel.End(), r, x.Sel.Name+" to "+r)
				}
			case *ast.IndexExpr:
				if lit, ok := x.Index.(*ast.BasicLit); !ok || lit == nil {
					if id, ok := x.Index.(*ast.Ident); ok && (id.Name == "i" || id.Name == "j") {
						emit(x.Index.Pos(), x.Index.End(), "0", "index 0")
					}
				}
			case *ast.RangeStmt:
				if x.Body != nil && len(x.Body.List) > 0 {
					// only the first element
					emit(x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n", "first iteration only")
				}
			}
			return true
		})
	}
}
