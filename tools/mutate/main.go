package main

// prints mutants of the given file as JSON lines {off,end,new,line,what}
import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	Off, End  int
	New       string
	Line      int
	What, Old string
}

func main() {
	src, _ := os.ReadFile(os.Args[1])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	out := json.NewEncoder(os.Stdout)
	emit := func(a, b token.Pos, n, what string) {
		out.Encode(mut{off(a), off(b), n, fs.Position(a).Line, what, string(src[off(a):off(b)])})
	}
	flip := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SUB: {"+"}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, o := range flip[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
			}
			if x.Op == token.ADD {
				if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.INT {
					emit(x.OpPos, x.OpPos+1, "-", "op")
				}
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x.X.Pos(), x.Y.Pos(), "", "drop left")
				emit(x.X.End(), x.Y.End(), "", "drop right")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(x.Pos(), x.Pos()+1, "", "not")
			}
		case *ast.IfStmt:
			s := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
			if s != "err != nil" && s != "nil != err" {
				emit(x.Cond.Pos(), x.Cond.End(), "("+s+") && false", "if false")
				emit(x.Cond.Pos(), x.Cond.End(), "("+s+") || true", "if true")
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch y := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "delete")
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "_ = 0", "delete")
					}
				case *ast.BranchStmt:
					if y.Tok == token.CONTINUE && y.Label == nil {
						emit(s.Pos(), s.End(), "break", "branch")
					}
					if y.Tok == token.BREAK && y.Label == nil {
						emit(s.Pos(), s.End(), "continue", "branch")
					}
				}
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				switch s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "delete")
				}
			}
			if len(x.List) > 1 {
				emit(x.List[0].Pos(), x.List[1].Pos(), "", "drop case")
				emit(x.List[len(x.List)-2].End(), x.List[len(x.List)-1].End(), "", "drop case")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if n, err := strconv.Atoi(x.Value); err == nil {
					emit(x.Pos(), x.End(), fmt.Sprint(n+1), "int")
				}
			case token.STRING:
				s, _ := strconv.Unquote(x.Value)
				rep := func(a, b string) {
					if strings.Contains(s, a) {
						emit(x.Pos(), x.End(), strconv.Quote(strings.Replace(s, a, b, 1)), "str "+a)
					}
				}
				if len(s) > 0 && len(s) < 4 {
					emit(x.Pos(), x.End(), `""`, "str")
				}
				rep("?", "")
				rep("!=", "==")
				rep("==", "!=")
				rep("&&", "||")
				rep(" < ", " <= ")
				rep(" > ", " >= ")
				rep("true", "false")
				rep("false", "true")
				rep("&", "")
				rep("null", "0")
				rep("nil", "err")
				rep("*", "")
				rep(" AND ", " OR ")
				rep("!", "")
				rep("...", "")
				rep("T", "D")
				rep("int", "uint")
				rep(".0", ".1")
			}
		}
		return true
	})
}
