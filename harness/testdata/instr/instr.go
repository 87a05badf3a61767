// Command instr writes instrumented copies of a package's files: "sync" becomes vsync and every
// statement is preceded by a yield point.
//
//	go run instr.go SRCDIR OUTDIR IMPORTPATH-OF-VSYNC
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	src, out, vs := os.Args[1], os.Args[2], os.Args[3]
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	check(err)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(src, filepath.Base(f)); err != nil || !ok {
			continue
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, nil, 0)
		check(err)
		for _, im := range file.Imports {
			if im.Path.Value == `"sync"` {
				if im.Name == nil {
					im.Name = ast.NewIdent("sync")
				}
				im.Path.Value = strconv.Quote(vs)
			}
		}
		im := &ast.ImportSpec{Name: ast.NewIdent("vsyncYield"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vs)}}
		file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{im}}}, file.Decls...)
		used := false
		for _, d := range file.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && fn.Body != nil {
				used = true
				ast.Inspect(fn.Body, func(n ast.Node) bool {
					switch b := n.(type) {
					case *ast.BlockStmt:
						b.List = yields(b.List)
					case *ast.CaseClause:
						b.Body = yields(b.Body)
					case *ast.CommClause:
						b.Body = yields(b.Body)
					}
					return true
				})
			}
		}
		if !used {
			file.Decls = file.Decls[1:]
		}
		var buf bytes.Buffer
		check(format.Node(&buf, fset, file))
		check(os.WriteFile(filepath.Join(out, filepath.Base(f)), buf.Bytes(), 0o644))
		fmt.Println(filepath.Base(f))
	}
}

func yields(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return l // the body of a switch: its clauses are instrumented themselves
		case *ast.LabeledStmt, *ast.EmptyStmt, *ast.DeclStmt:
			out = append(out, s)
			continue
		}
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsyncYield"), Sel: ast.NewIdent("Yield")}}}, s)
	}
	return out
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
