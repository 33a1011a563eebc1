// Command instr makes an instrumented copy of the library's root and util packages:
// scheduling points before the statements of everything that takes part in
// the life cycle of a stream or an endpoint, and locks that block on channels.  It writes
// the copies to a directory and an overlay file for the go command.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	src, dst := os.Args[1], os.Args[2]
	repl := map[string]string{}
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	must(err)
	more, err := filepath.Glob(filepath.Join(src, "util", "*.go"))
	must(err)
	files = append(files, more...)
	points := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		out, n := instrument(f)
		points += n
		if out == nil {
			continue
		}
		to := filepath.Join(dst, filepath.Base(filepath.Dir(f))+"-"+filepath.Base(f))
		must(os.WriteFile(to, out, 0o644))
		repl[f] = to
	}
	b, err := json.Marshal(map[string]any{"Replace": repl})
	must(err)
	must(os.WriteFile(filepath.Join(dst, "overlay.json"), b, 0o644))
	fmt.Println(points)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

const shim = "verifharness/vsync"

func instrument(path string) ([]byte, int) {
	fs := token.NewFileSet()
	// without comments: they would be misplaced by the new statements
	file, err := parser.ParseFile(fs, path, nil, 0)
	must(err)
	n := 0
	changed := false
	for _, im := range file.Imports {
		if im.Path.Value == strconv.Quote("sync") {
			im.Path.Value = strconv.Quote(shim)
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
			changed = true
		}
	}
	for _, d := range file.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Body != nil && concerned(fn) {
			n += points(fn.Body)
		}
	}
	if n == 0 && !changed {
		return nil, 0
	}
	if n > 0 {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsyncPoint"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shim)}}
		file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, file.Decls...)
	}
	var b bytes.Buffer
	src, err := os.ReadFile(path)
	must(err)
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "//go:build") {
			b.WriteString(l + "\n\n")
		}
	}
	must(format.Node(&b, fs, file))
	return b.Bytes(), n
}

// concerned: methods of streams and endpoints, and whatever communicates.
func concerned(fn *ast.FuncDecl) bool {
	is := false
	ast.Inspect(fn, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.Ident:
			if (y.Name == "FrameStream" || y.Name == "UDPReadWriteCloser") && !strings.HasPrefix(fn.Name.Name, "New") {
				is = true
			}
		case *ast.SelectStmt, *ast.SendStmt, *ast.GoStmt:
			is = true
		case *ast.UnaryExpr:
			if y.Op == token.ARROW {
				is = true
			}
		}
		return true
	})
	return is
}

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsyncPoint"), Sel: ast.NewIdent("Yield")}}}
}

func points(root ast.Node) int {
	n := 0
	spread := func(in []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range in {
			out = append(out, point(), s)
			n++
		}
		return out
	}
	ast.Inspect(root, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BlockStmt:
			// the clauses of a switch or select are not statements of their own
			if len(y.List) > 0 {
				switch y.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			y.List = append(spread(y.List), point())
			if len(y.List) > 1 {
				switch y.List[len(y.List)-2].(type) {
				case *ast.ReturnStmt, *ast.BranchStmt, *ast.ForStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.IfStmt,
					*ast.TypeSwitchStmt, *ast.LabeledStmt, *ast.BlockStmt, *ast.ExprStmt:
					// what ends a function has to stay at its end
					y.List = y.List[:len(y.List)-1]
				}
			}
		case *ast.CaseClause:
			y.Body = spread(y.Body)
		case *ast.CommClause:
			y.Body = spread(y.Body)
		}
		return true
	})
	return n
}
