// mutate lists small edits of the library's source as offset replacements (development only).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Edit struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Old  string `json:"old"`
}

func main() {
	files, _ := filepath.Glob(filepath.Join(os.Args[1], "*.go"))
	sort.Strings(files)
	var out []Edit
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		add := func(kind string, from, to token.Pos, repl string) {
			a, b := off(from), off(to)
			if string(src[a:b]) == repl {
				return
			}
			out = append(out, Edit{filepath.Base(f), a, b, repl, kind, fs.Position(from).Line, string(src[a:b])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}
				for _, s := range swap[x.Op] {
					add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add("operand", x.Pos(), x.End(), text(x.X))
					add("operand", x.Pos(), x.End(), text(x.Y))
				}
				if x.Op == token.ADD { // drop an operand of a concatenation
					add("operand", x.Pos(), x.End(), text(x.X))
					add("operand", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.IfStmt:
				add("cond", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				add("cond", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
			case *ast.CaseClause:
				for _, e := range x.List {
					switch e.(type) {
					case *ast.BinaryExpr, *ast.CallExpr, *ast.UnaryExpr, *ast.ParenExpr:
						add("case", e.Pos(), e.End(), "("+text(e)+") && false")
						add("case", e.Pos(), e.End(), "("+text(e)+") || true")
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add("not", x.Pos(), x.End(), text(x.X))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						add("int", x.Pos(), x.End(), strconv.Itoa(v+1))
						add("int", x.Pos(), x.End(), fmt.Sprintf("(%d)", v-1))
					}
				}
				if x.Kind == token.STRING {
					add("string", x.Pos(), x.End(), `""`)
					if v, err := strconv.Unquote(x.Value); err == nil && v != "" {
						add("string", x.Pos(), x.End(), strconv.Quote(v+" "))
						add("string", x.Pos(), x.End(), strconv.Quote(strings.TrimSpace(v)))
						add("string", x.Pos(), x.End(), strconv.Quote(strings.ToLower(v)))
						add("string", x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]))
					}
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					add("bool", x.Pos(), x.End(), "false")
				case "false":
					add("bool", x.Pos(), x.End(), "true")
				case "LogicalAND":
					add("const", x.Pos(), x.End(), "LogicalOR")
				case "LogicalOR":
					add("const", x.Pos(), x.End(), "LogicalAND")
				case "InnerJoin":
					add("const", x.Pos(), x.End(), "LeftJoin")
				case "LeftJoin":
					add("const", x.Pos(), x.End(), "RightJoin")
				case "RightJoin":
					add("const", x.Pos(), x.End(), "FullJoin")
				case "FullJoin":
					add("const", x.Pos(), x.End(), "InnerJoin")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "copySlice" || id.Name == "append" || id.Name == "withoutEmptyGroups") && len(x.Args) > 0 {
					add("call", x.Pos(), x.End(), text(x.Args[0]))
				}
				if len(x.Args) == 2 {
					add("swap", x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]))
				}
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok { // a chained call left out
					add("unchain", x.Pos(), x.End(), text(sel.X))
				}
				if x.Ellipsis != 0 && len(x.Args) > 0 {
					last := x.Args[len(x.Args)-1]
					add("cut", last.Pos(), last.End(), text(last)+"[:min(1,len("+text(last)+"))]")
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					add("branch", x.Pos(), x.End(), "break")
				}
				if x.Tok == token.BREAK {
					add("branch", x.Pos(), x.End(), "continue")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch st := s.(type) {
					case *ast.AssignStmt:
						if st.Tok != token.DEFINE {
							add("del", s.Pos(), s.End(), "")
						}
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
						add("del", s.Pos(), s.End(), "")
					case *ast.ForStmt, *ast.RangeStmt, *ast.IfStmt:
						add("del", s.Pos(), s.End(), "")
					}
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						end := off(kv.End())
						for end < len(src) && (src[end] == ',' || src[end] == ' ') {
							end++
						}
						_ = end
						add("field", kv.Pos(), kv.End()+token.Pos(bytesUntilComma(src, off(kv.End()))), "")
					}
				}
			}
			return true
		})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func bytesUntilComma(src []byte, at int) int {
	if at < len(src) && src[at] == ',' {
		return 1
	}
	return 0
}
