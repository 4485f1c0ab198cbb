// mutate lists small source changes (mutants) of the Go files below a directory, as JSON lines.
// It only serves to measure the checks (tools/mutants.py); no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Repl string `json:"repl"`
	Desc string `json:"desc"`
	Func string `json:"func"`
	Line int    `json:"line"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
}
var names = map[string]string{"Lock": "RLock", "RLock": "Lock", "UnLock": "RUnLock", "MLock": "MRLock", "LPop": "RPop", "RPop": "LPop", "LPush": "RPush", "RPush": "LPush", "Next": "Prev", "Prev": "Next", "Head": "Tail", "Tail": "Head"}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, p)
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || strings.HasPrefix(fn.Name.Name, "Register") || fn.Name.Name == "String" {
				continue
			}
			add := func(a, b token.Pos, repl, desc string) {
				enc.Encode(mutant{rel, off(a), off(b), repl, desc, fn.Name.Name, fs.Position(a).Line})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, o := range swaps[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, fmt.Sprintf("%s -> %s in %s", x.Op, o, text(x)))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						add(x.Pos(), x.End(), "("+x.Value+"+1)", "const+1 "+x.Value)
						if x.Value != "0" {
							add(x.Pos(), x.End(), "("+x.Value+"-1)", "const-1 "+x.Value)
						}
					}
				case *ast.IfStmt:
					add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never: if "+text(x.Cond))
					add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always: if "+text(x.Cond))
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
							add(s.Pos(), s.End(), "", "drop "+text(s))
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								add(s.Pos(), s.End(), "", "drop "+text(s))
							}
						case *ast.BranchStmt:
							add(s.Pos(), s.End(), "", "drop "+text(s))
						}
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						switch s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.AssignStmt:
							add(s.Pos(), s.End(), "", "drop "+text(s))
						}
					}
				case *ast.SelectorExpr:
					if r, ok := names[x.Sel.Name]; ok {
						add(x.Sel.Pos(), x.Sel.End(), r, x.Sel.Name+" -> "+r+" in "+text(x))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						add(x.OpPos, x.OpPos+1, "", "drop "+x.Op.String()+" in "+text(x))
					}
				}
				return true
			})
		}
		return nil
	})
}
