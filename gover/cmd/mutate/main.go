// Developer tool: lists small syntactic changes to Go files, as JSON lines
// {file, off, len, repl, desc}. usage: mutate FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Repl string `json:"repl"`
	Desc string `json:"desc"`
}

var swap = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.REM: {"*"},
}

var vars = map[string][]string{
	"last":                       {"lastExIgnore", "lastLastExIgnore", "current"},
	"lastExIgnore":               {"last", "lastLastExIgnore"},
	"lastLastExIgnore":           {"lastExIgnore", "last"},
	"lastExIgnoreClose":          {"lastExIgnoreSpClose", "lastExIgnore"},
	"lastExIgnoreSpClose":        {"lastExIgnoreClose", "lastExIgnoreSp"},
	"lastExIgnoreSp":             {"lastExIgnore", "lastExIgnoreClose"},
	"lastExIgnoreParaSepSpClose": {"lastExIgnoreSpClose"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, repl string) {
			o, e := off(from), off(to)
			old := string(src[o:e])
			if len(old) > 60 {
				old = old[:60] + "…"
			}
			enc.Encode(mut{name, o, e - o, repl, fmt.Sprintf("%d: %q -> %q", fs.Position(from).Line, old, repl)})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				return n.Tok != token.IMPORT
			case *ast.BinaryExpr:
				for _, r := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
				}
				if n.Op == token.OR || n.Op == token.LAND || n.Op == token.LOR || n.Op == token.AND {
					emit(n.Pos(), n.End(), text(n.X))
					emit(n.Pos(), n.End(), text(n.Y))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
				if n.Kind == token.CHAR && len(n.Value) == 3 {
					emit(n.Pos(), n.End(), fmt.Sprintf("%q", n.Value[1]+1))
					emit(n.Pos(), n.End(), fmt.Sprintf("%q", n.Value[1]-1))
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.CONTINUE {
					emit(n.Pos(), n.End(), "break")
					emit(n.Pos(), n.End(), "")
				}
				if n.Label == nil && n.Tok == token.BREAK {
					emit(n.Pos(), n.End(), "continue")
					emit(n.Pos(), n.End(), "")
				}
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN || n.Tok == token.ADD_ASSIGN || n.Tok == token.OR_ASSIGN {
					emit(n.Pos(), n.End(), "")
				}
				if n.Tok == token.ADD_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "=")
				}
			case *ast.IncDecStmt:
				emit(n.Pos(), n.End(), "")
				if n.Tok == token.INC {
					emit(n.TokPos, n.TokPos+2, "+= 2")
				}
			case *ast.ReturnStmt:
				if len(n.Results) == 1 && (text(n.Results[0]) == "true" || text(n.Results[0]) == "false") {
					emit(n.Results[0].Pos(), n.Results[0].End(), map[string]string{"true": "false", "false": "true"}[text(n.Results[0])])
				}
			case *ast.Ident:
				for _, r := range vars[n.Name] {
					emit(n.Pos(), n.End(), r)
				}
				if n.Name == "true" || n.Name == "false" {
					return true
				}
			case *ast.SelectorExpr:
				return true
			}
			return true
		})
	}
}
