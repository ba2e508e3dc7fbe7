// mutate lists single-place mutants of Go files as JSON lines: file, byte range,
// replacement. It is used to look for behaviour the checks do not cover.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string
	From, To   int
	New        string
	Line       int
	Kind, Desc string
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		list(f, src)
	}
}

func list(file string, src []byte) {
	fs := token.NewFileSet()
	tree, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	enc := json.NewEncoder(os.Stdout)
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(kind string, n ast.Node, repl string) {
		d := text(n)
		if len(d) > 120 {
			d = d[:120]
		}
		enc.Encode(mutant{file, off(n.Pos()), off(n.End()), repl, fs.Position(n.Pos()).Line, kind, strings.ReplaceAll(d, "\n", " ")})
	}
	boring := func(n ast.Node) bool {
		t := text(n)
		for _, s := range []string{"logger.", "Logger.", "log.", "Errorf(", "errors.New(", "panic(", "fmt.Print", ".Warn", ".Info(", ".Debug(", ".Error("} {
			if strings.HasPrefix(t, s) || strings.Contains(strings.SplitN(t, "(", 2)[0]+"(", s) {
				return true
			}
		}
		return false
	}
	var parents []ast.Node
	ast.Inspect(tree, func(n ast.Node) bool {
		if n == nil {
			parents = parents[:len(parents)-1]
			return true
		}
		var parent ast.Node
		if len(parents) > 0 {
			parent = parents[len(parents)-1]
		}
		if e, ok := n.(ast.Expr); ok && boring(e) {
			if _, ok := e.(*ast.CallExpr); ok {
				return false
			}
		}
		parents = append(parents, n)
		switch x := n.(type) {
		case *ast.ImportSpec, *ast.GenDecl:
			if g, ok := x.(*ast.GenDecl); ok && (g.Tok == token.VAR || g.Tok == token.CONST) {
				return true
			}
			parents = parents[:len(parents)-1]
			return false
		case *ast.IfStmt:
			emit("if-false", x.Cond, "("+text(x.Cond)+") && false")
			emit("if-true", x.Cond, "("+text(x.Cond)+") || true")
		case *ast.BinaryExpr:
			switch x.Op {
			case token.LAND, token.LOR:
				emit("left", x, text(x.X))
				emit("right", x, text(x.Y))
			case token.LSS:
				emit("bound", x, text(x.X)+" <= "+text(x.Y))
			case token.LEQ:
				emit("bound", x, text(x.X)+" < "+text(x.Y))
			case token.GTR:
				emit("bound", x, text(x.X)+" >= "+text(x.Y))
			case token.GEQ:
				emit("bound", x, text(x.X)+" > "+text(x.Y))
			case token.EQL:
				if _, ok := parent.(*ast.IfStmt); !ok {
					emit("neg", x, text(x.X)+" != "+text(x.Y))
				}
			case token.NEQ:
				if _, ok := parent.(*ast.IfStmt); !ok {
					emit("neg", x, text(x.X)+" == "+text(x.Y))
				}
			case token.ADD:
				emit("arith", x, text(x.X)+" - "+text(x.Y))
			case token.SUB:
				emit("arith", x, text(x.X)+" + "+text(x.Y))
			case token.SHL:
				emit("arith", x, text(x.X)+" >> "+text(x.Y))
			case token.SHR:
				emit("arith", x, text(x.X)+" << "+text(x.Y))
			case token.AND:
				emit("arith", x, text(x.X)+" | "+text(x.Y))
			case token.OR:
				emit("arith", x, text(x.X)+" & "+text(x.Y))
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit("int", x, fmt.Sprint(v+1))
					if v > 0 {
						emit("int", x, fmt.Sprint(v-1))
					}
				}
			case token.STRING:
				if len(x.Value) > 2 && x.Value[0] == '"' {
					emit("str", x, x.Value[:len(x.Value)-1]+"X\"")
				}
			}
		case *ast.Ident:
			if _, ok := parent.(*ast.SelectorExpr); ok {
				break
			}
			if x.Name == "true" {
				emit("bool", x, "false")
			} else if x.Name == "false" {
				emit("bool", x, "true")
			}
		case *ast.ExprStmt:
			t := text(x)
			if !strings.Contains(t, "Lock()") && !boring(x.X) {
				emit("del", x, "")
			}
		case *ast.DeferStmt:
			if !strings.Contains(text(x), "Unlock()") {
				emit("del", x, "")
			}
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				_, isFor := parent.(*ast.ForStmt)
				_, isIf := parent.(*ast.IfStmt)
				if !isFor && !isIf {
					emit("del", x, "")
				}
			}
		case *ast.IncDecStmt:
			if _, ok := parent.(*ast.ForStmt); !ok {
				emit("del", x, "")
			}
		case *ast.BranchStmt:
			if x.Label == nil {
				if x.Tok == token.BREAK {
					emit("branch", x, "continue")
				} else if x.Tok == token.CONTINUE {
					emit("branch", x, "break")
				}
			}
		case *ast.CaseClause:
			if len(x.Body) > 0 {
				a, b := off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End())
				enc.Encode(mutant{file, a, b, "", fs.Position(x.Body[0].Pos()).Line, "case", strings.SplitN(text(x), "\n", 2)[0]})
			}
		case *ast.SendStmt:
			emit("del", x, "")
		case *ast.GoStmt:
			emit("del", x, "")
		}
		return true
	})
}
