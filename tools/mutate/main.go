// mutate FILE...: prints one JSON line per small change to a Go file:
// {"file","from","to","repl","op","line"} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Repl string `json:"repl"`
	Op   string `json:"op"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(n ast.Node, repl, op string) {
			enc.Encode(mut{f, off(n.Pos()), off(n.End()), repl, op, fs.Position(n.Pos()).Line})
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt:
					add(s, "", "delete call")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add(s, "", "delete assignment")
					}
				case *ast.IncDecStmt:
					add(s, "", "delete inc")
				case *ast.BranchStmt:
					add(s, "", "delete "+x.Tok.String())
				case *ast.IfStmt:
					if x.Else != nil {
						enc.Encode(mut{f, off(x.Body.End()), off(x.Else.End()), "", "delete else", fs.Position(x.Else.Pos()).Line})
					}
				case *ast.RangeStmt:
					b := x.Body
					enc.Encode(mut{f, off(b.End()) - 1, off(b.End()), "\nbreak\n}", "loop once", fs.Position(x.Pos()).Line})
				}
			}
		}
		swaps := map[string]string{"PrimaryKey": "UniqueKey", "UniqueKey": "PrimaryKey", "Size": "Scale", "Scale": "Size", "NotNull": "PrimaryKey",
			"DefaultValue": "OnUpdate", "OnUpdate": "DefaultValue", "Description": "Name", "AutoIncremental": "PrimaryKey", "Group": "Name", "ClassName": "Name"}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 1 {
					for i := range x.List {
						s := ""
						for j, e := range x.List {
							if j != i {
								if s != "" {
									s += ", "
								}
								s += text(e)
							}
						}
						enc.Encode(mut{f, off(x.List[0].Pos()), off(x.List[len(x.List)-1].End()), s, "drop case " + text(x.List[i]), fs.Position(x.List[i].Pos()).Line})
					}
				}
			case *ast.IfStmt:
				add(x.Cond, "!("+text(x.Cond)+")", "negate")
				add(x.Cond, "("+text(x.Cond)+") || true", "always")
				add(x.Cond, "("+text(x.Cond)+") && false", "never")
			case *ast.BinaryExpr:
				var r []token.Token
				switch x.Op {
				case token.LSS:
					r = []token.Token{token.LEQ, token.GTR}
				case token.LEQ:
					r = []token.Token{token.LSS}
				case token.GTR:
					r = []token.Token{token.GEQ, token.NEQ}
				case token.GEQ:
					r = []token.Token{token.GTR}
				case token.LAND:
					r = []token.Token{token.LOR}
					add(x, text(x.X), "left only")
					add(x, text(x.Y), "right only")
				case token.LOR:
					r = []token.Token{token.LAND}
					add(x, text(x.X), "left only")
					add(x, text(x.Y), "right only")
				case token.ADD:
					add(x, text(x.X), "left only")
					add(x, text(x.Y), "right only")
				case token.SUB:
					r = []token.Token{token.ADD}
				case token.EQL:
					r = []token.Token{token.NEQ}
				case token.NEQ:
					r = []token.Token{token.EQL}
				}
				for _, k := range r {
					add(x, text(x.X)+" "+k.String()+" "+text(x.Y), x.Op.String()+" to "+k.String())
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x, "false", "flip")
				} else if x.Name == "false" {
					add(x, "true", "flip")
				}
			case *ast.SelectorExpr:
				if y, ok := swaps[x.Sel.Name]; ok {
					add(x.Sel, y, "other field")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x, text(x.X), "drop !")
				}
			case *ast.CallExpr:
				if len(x.Args) == 1 && x.Ellipsis == 0 {
					add(x, text(x.Args[0]), "unwrap call")
				}
				if len(x.Args) == 2 {
					add(x, text(x.Args[0]), "unwrap call 2")
				}
				if id, ok := x.Fun.(*ast.SelectorExpr); ok && id.Sel.Name == "Sprintf" {
					return true
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x, fmt.Sprint(v+1), "int+1")
					}
				case token.STRING:
					if len(x.Value) > 2 {
						add(x, `""`, "empty string")
						if v, err := strconv.Unquote(x.Value); err == nil {
							add(x, strconv.Quote(v+"_"), "longer string")
						}
					}
				}
			case *ast.Field:
				return false
			}
			return true
		})
	}
}
