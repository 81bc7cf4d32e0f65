package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	From, To int
	New, Why string
	Line     int
	Old      string
}

func main() {
	src, _ := os.ReadFile(os.Args[1])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, s, why string) {
		ms = append(ms, mut{off(a), off(b), s, why, fs.Position(a).Line, string(src[off(a):off(b)])})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	noisy := func(s string) bool {
		for _, p := range []string{"c.log", "log.", "fmt.Print", "_ =", "pprint"} {
			if strings.HasPrefix(s, p) {
				return true
			}
		}
		return false
	}
	ops := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"}}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if noisy(text(x)) {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
				add(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
			case *ast.ExprStmt:
				if !noisy(text(x)) {
					add(x.Pos(), x.End(), "{}", "del")
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(x.Pos(), x.End(), "{}", "del")
				}
			case *ast.IncDecStmt:
				add(x.Pos(), x.End(), "{}", "del")
			case *ast.DeferStmt:
				add(x.Pos(), x.End(), "{}", "del")
			case *ast.GoStmt:
				add(x.Pos(), x.Call.Pos(), "", "nogo")
			case *ast.SendStmt:
				add(x.Pos(), x.End(), "{}", "del")
			case *ast.BasicLit:
				if x.Kind == token.INT {
					add(x.Pos(), x.End(), "("+x.Value+"+1)", "lit")
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "flip")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "flip")
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					add(x.Pos(), x.End(), "break", "br")
				} else if x.Tok == token.BREAK {
					add(x.Pos(), x.End(), "continue", "br")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), x.X.Pos(), "", "not")
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					l := x.Results[k-1]
					if t := text(l); t == "err" || strings.Contains(t, "Errorf") || strings.Contains(t, "errors.New") || strings.HasSuffix(t, "Error()") {
						add(l.Pos(), l.End(), "nil", "noerr")
					}
				}
			}
			return true
		})
	}
	b, _ := json.Marshal(ms)
	fmt.Println(string(b))
}
