// automut prints mutations of Go files, one JSON object per line: file, offsets, replacement, operator.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Op, New string
	From, To, Line int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(op string, a, b token.Pos, n string) {
			enc.Encode(mut{f, op, n, off(a), off(b), fs.Position(a).Line})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.IfStmt:
				emit("never", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				c := text(x.Cond)
				if !strings.Contains(c, "err != nil") {
					emit("always", x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
				}
			case *ast.BinaryExpr:
				sw := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.GTR: ">=", token.LEQ: "<", token.GEQ: ">", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*"}
				if r, ok := sw[x.Op]; ok {
					if x.Op == token.ADD && strings.Contains(text(x), "\"") {
						break
					}
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit("int+", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int-", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) > 0 && len(s) < 60 {
						emit("str", x.Pos(), x.End(), strconv.Quote(s[:len(s)-1]+"Q"))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						emit("delete", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit("delete", s.Pos(), s.End(), "")
						}
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit("low", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
				}
				if x.High != nil {
					emit("high", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					emit("branch", x.Pos(), x.End(), "continue")
				} else if x.Tok == token.CONTINUE && x.Label == nil {
					emit("branch", x.Pos(), x.End(), "break")
				}
			}
			return true
		})
	}
}
