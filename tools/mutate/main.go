// mutate enumerates small syntactic changes of Go files. It is a development
// tool: the survivors of a sweep show what the checks do not look at.
//
//	mutate FILE...            list the mutants
//	mutate -n K -o OUT FILE   write mutant K of FILE
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	off, end int
	text     string
	what     string
	line     int
}

func main() {
	n := flag.Int("n", -1, "")
	out := flag.String("o", "", "")
	flag.Parse()
	for _, f := range flag.Args() {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		ms := mutants(f, src)
		if *n >= 0 {
			m := ms[*n]
			t := string(src[:m.off]) + m.text + string(src[m.end:])
			if err := os.WriteFile(*out, []byte(t), 0o644); err != nil {
				panic(err)
			}
			return
		}
		for i, m := range ms {
			fmt.Printf("%s\t%d\t%d\t%s\t%q\t%q\n", f, i, m.line, m.what, one(string(src[m.off:m.end])), one(m.text))
		}
	}
}

func one(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

func mutants(f string, src []byte) []mut {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(a, b token.Pos, t, w string) {
		ms = append(ms, mut{off(a), off(b), t, w, fset.Position(a).Line})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	rel := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				add(s.Pos(), s.End(), "", "delete")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "delete")
				}
			case *ast.BranchStmt:
				add(s.Pos(), s.End(), "", "delete")
			case *ast.IfStmt:
				if s.Init == nil && s.Else == nil {
					add(s.Pos(), s.End(), "", "delete")
				}
			case *ast.ForStmt, *ast.RangeStmt:
				add(s.Pos(), s.End(), "", "delete")
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					add(s.Pos(), s.End(), "", "delete")
				}
			}
			if d, ok := s.(*ast.DeferStmt); ok {
				add(d.Pos(), d.Call.Pos(), "", "undefer")
			}
			if g, ok := s.(*ast.GoStmt); ok {
				add(g.Pos(), g.Call.Pos(), "", "ungo")
			}
			if i+1 < len(l) {
				_, r := l[i+1].(*ast.ReturnStmt)
				if !r {
					add(s.Pos(), l[i+1].End(), txt(l[i+1])+"\n"+txt(s), "swap")
				}
			}
			// duplicate
			switch s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt:
				add(s.End(), s.End(), "\n"+txt(s), "duplicate")
			case *ast.AssignStmt:
				if s.(*ast.AssignStmt).Tok == token.ADD_ASSIGN {
					add(s.End(), s.End(), "\n"+txt(s), "duplicate")
				}
			}
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range rel[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, "op")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.Pos(), n.X.Pos(), "", "unnot")
			}
			if n.Op == token.SUB {
				add(n.Pos(), n.X.Pos(), "", "unminus")
			}
		case *ast.AssignStmt:
			switch n.Tok {
			case token.ADD_ASSIGN:
				add(n.TokPos, n.TokPos+2, "=", "asg")
				add(n.TokPos, n.TokPos+2, "-=", "asg")
			case token.SUB_ASSIGN:
				add(n.TokPos, n.TokPos+2, "+=", "asg")
			case token.OR_ASSIGN:
				add(n.TokPos, n.TokPos+2, "=", "asg")
			}
		case *ast.IncDecStmt:
			if n.Tok == token.INC {
				add(n.TokPos, n.TokPos+2, "--", "incdec")
				add(n.TokPos, n.TokPos+2, "+=2", "incdec")
			} else {
				add(n.TokPos, n.TokPos+2, "++", "incdec")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), "const")
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), "const")
					}
					if v > 2 {
						add(n.Pos(), n.End(), fmt.Sprint(v/2), "const")
						add(n.Pos(), n.End(), fmt.Sprint(v*2), "const")
					}
				}
			}
			if n.Kind == token.STRING && len(n.Value) > 3 {
				add(n.Pos(), n.End(), n.Value[:len(n.Value)-2]+n.Value[len(n.Value)-1:], "string")
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "bool")
			}
			if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "bool")
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") && false", "never")
			add(n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") || true", "always")
			if n.Else != nil {
				add(n.Body.End(), n.Else.End(), "", "noelse")
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				add(n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") && false", "never")
			}
			if c, ok := n.Cond.(ast.Expr); ok && c != nil {
				// if instead of for
				if n.Init == nil && n.Post == nil {
					add(n.For, n.For+3, "if", "forif")
				}
			}
		case *ast.ReturnStmt:
			for i, r := range n.Results {
				t := txt(r)
				if t == "nil" || t == "true" || t == "false" {
					continue
				}
				if i == len(n.Results)-1 {
					add(r.Pos(), r.End(), "nil", "retnil")
				}
				add(r.Pos(), r.End(), "0", "ret0")
				add(r.Pos(), r.End(), "("+t+")+1", "ret+1")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				w := map[string][]string{"uint64": {"uint32"}, "int64": {"int32"}, "uint32": {"uint16"}, "int32": {"int16"}, "int": {"int16", "int32"}, "uint16": {"uint8"}}
				for _, t := range w[id.Name] {
					add(n.Pos(), n.End(), id.Name+"("+t+"("+txt(n.Args[0])+"))", "narrow")
				}
			}
			// drop / swap arguments
			if len(n.Args) == 2 {
				add(n.Args[0].Pos(), n.Args[1].End(), txt(n.Args[1])+", "+txt(n.Args[0]), "swapargs")
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				add(n.Low.Pos(), n.Low.End(), "", "nolow")
				add(n.Low.Pos(), n.Low.End(), txt(n.Low)+"+1", "low+1")
			}
			if n.High != nil {
				add(n.High.Pos(), n.High.End(), "", "nohigh")
				add(n.High.Pos(), n.High.End(), txt(n.High)+"-1", "high-1")
			}
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
			if n.List != nil {
				add(n.Pos(), n.End(), "", "delcase")
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i > 0 {
							add(n.List[i-1].End(), e.End(), "", "delcaseval")
						} else {
							add(e.Pos(), n.List[1].Pos(), "", "delcaseval")
						}
					}
				}
				if len(n.Body) > 0 {
					add(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "emptycase")
				}
			} else {
				add(n.Pos(), n.End(), "", "deldefault")
			}
		}
		return true
	})
	return ms
}
