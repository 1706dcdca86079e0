// Command mutate lists small changes ("mutants") to Go files, as JSON lines:
// {"file", "line", "op", "from", "to", "off", "len"}. It is used to look for
// behaviour that the checks don't observe, see mutate.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
	Op   string `json:"op"`
	From string `json:"from"`
	To   string `json:"to"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		emit := func(op string, from, to token.Pos, repl string) {
			a, b := pos(from), pos(to)
			enc.Encode(mutant{f, fs.Position(from).Line, fn, op, string(src[a:b]), repl, a, b - a})
		}
		ret := ""
		for _, d := range t.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ret = ""
			if fd.Type.Results != nil {
				l := fd.Type.Results.List
				if id, ok := l[len(l)-1].Type.(*ast.Ident); ok && id.Name == "error" {
					ret = "err"
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit("binop", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
				case *ast.IfStmt:
					emit("iffalse", x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[pos(x.Cond.Pos()):pos(x.Cond.End())])+")")
					emit("iftrue", x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[pos(x.Cond.Pos()):pos(x.Cond.End())])+")")
				case *ast.ForStmt:
					if x.Cond != nil {
						emit("forfalse", x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[pos(x.Cond.Pos()):pos(x.Cond.End())])+")")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						switch x.Value {
						case "0":
							emit("lit", x.Pos(), x.End(), "1")
						case "1":
							emit("lit", x.Pos(), x.End(), "0")
							emit("lit", x.Pos(), x.End(), "2")
						default:
							emit("lit", x.Pos(), x.End(), "("+x.Value+"+1)")
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x.OpPos, x.OpPos+1, "")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit("bool", x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						emit("bool", x.Pos(), x.End(), "true")
					}
				case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
					var l []ast.Stmt
					switch b := x.(type) {
					case *ast.BlockStmt:
						l = b.List
					case *ast.CaseClause:
						l = b.Body
					case *ast.CommClause:
						l = b.Body
					}
					for _, s := range l {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt:
							emit("delete", s.Pos(), s.End(), "")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit("delete", s.Pos(), s.End(), "_ = 0")
							}
						case *ast.BranchStmt:
							emit("delete", s.Pos(), s.End(), "")
							if y.Tok == token.BREAK {
								emit("branch", s.Pos(), s.End(), "continue")
							} else if y.Tok == token.CONTINUE {
								emit("branch", s.Pos(), s.End(), "break")
							}
						case *ast.ReturnStmt:
							if k := len(y.Results); k > 0 && ret == "err" {
								last := y.Results[k-1]
								if id, ok := last.(*ast.Ident); ok && id.Name != "nil" {
									emit("nilerr", last.Pos(), last.End(), "nil")
								}
							}
						}
					}
				}
				return true
			})
		}
		fmt.Fprintln(os.Stderr, f)
	}
}
