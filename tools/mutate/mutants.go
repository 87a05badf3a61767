// mutants FILE...: prints one JSON line per small change: {"file", "line", "off", "end", "new", "what"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		t, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl, what string) {
			enc.Encode(map[string]any{"file": f, "line": fset.Position(a).Line, "off": off(a), "end": off(b), "new": repl, "what": what})
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT && x.Tok != token.CONST && x.Tok != token.TYPE
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, fmt.Sprintf("%s -> %s in %s", x.Op, s, text(x)))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "only the left of "+text(x))
					emit(x.Pos(), x.End(), text(x.Y), "only the right of "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && 1 == 0", "never: if "+c)
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || 1 == 1", "always: if "+c)
			case *ast.CaseClause:
				if len(x.List) > 1 {
					for i := range x.List {
						a, b := x.List[i].Pos(), x.List[i].End()
						if i+1 < len(x.List) {
							b = x.List[i+1].Pos()
						} else {
							a = x.List[i-1].End()
						}
						emit(a, b, "", "no case "+text(x.List[i]))
					}
				}
			case *ast.BlockStmt:
				del(x.List, emit, text)
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						emit(id.Pos(), id.End(), "nil", "no error in "+text(x))
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), "("+text(x.X)+")", "without !: "+text(x))
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "-=", text(x))
				}
				if x.Tok == token.OR_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "=", text(x))
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 && text(x.Args[0]) != text(x.Args[1]) {
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") {
						emit(x.Pos(), x.End(), text(x.Args[0]), "first of "+text(x))
						emit(x.Pos(), x.End(), text(x.Args[1]), "second of "+text(x))
					}
				}
			}
			return true
		})
	}
}

func del(l []ast.Stmt, emit func(a, b token.Pos, s, w string), text func(ast.Node) string) {
	for _, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.IncDecStmt:
			emit(s.Pos(), s.End(), "", "without "+text(s))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				r := ""
				for i, y := range x.Rhs { // keep variables used
					if i > 0 {
						r += "; "
					}
					r += "_ = " + text(y)
				}
				if len(x.Lhs) == len(x.Rhs) {
					emit(s.Pos(), s.End(), r, "without "+text(s))
				}
			}
		}
	}
}
