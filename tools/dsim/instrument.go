package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
)

// instrument inserts a preemption point before every statement of a Go file and
// splits read-modify-write assignments, keeping every line where it was.
// It is purely syntactic and independent of what the code looks like.
func instrument(path string) ([]byte, int, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, 0, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, err
	}
	type edit struct {
		at, del int
		ins     string
		seq     int
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	add := func(at int, del int, ins string) { edits = append(edits, edit{at, del, ins, len(edits)}) }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	points := 0
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(s.Pos()), 0, "simrt__.SimYield(); ")
			points++
		}
	}
	var simple func(e ast.Expr) bool
	simple = func(e ast.Expr) bool {
		switch e := e.(type) {
		case *ast.Ident:
			return e.Name != "_"
		case *ast.SelectorExpr:
			return simple(e.X)
		case *ast.StarExpr:
			return simple(e.X)
		case *ast.ParenExpr:
			return simple(e.X)
		case *ast.IndexExpr:
			if _, ok := e.Index.(*ast.BasicLit); ok {
				return simple(e.X)
			}
			return simple(e.X) && simple(e.Index)
		}
		return false
	}
	mentions := func(n ast.Node, lhs string) bool {
		found := false
		ast.Inspect(n, func(m ast.Node) bool {
			if e, ok := m.(ast.Expr); ok && text(e) == lhs {
				found = true
			}
			return !found
		})
		return found
	}
	hasFuncLit := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(m ast.Node) bool {
			if _, ok := m.(*ast.FuncLit); ok {
				found = true
			}
			return !found
		})
		return found
	}
	wrap := func(n ast.Node) {
		add(off(n.Pos()), 0, "simrt__.SimV(")
		add(off(n.End()), 0, ")")
		points++
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, 0, " simrt__.SimYield() ")
				points++
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, 0, " simrt__.SimYield() ")
				points++
			}
		case *ast.IncDecStmt:
			if simple(n.X) {
				op := "+"
				if n.Tok == token.DEC {
					op = "-"
				}
				t := text(n.X)
				add(off(n.TokPos), 2, fmt.Sprintf(" = simrt__.SimV(%s %s 1)", t, op))
				points++
			}
		case *ast.AssignStmt:
			if len(n.Lhs) != 1 || len(n.Rhs) != 1 || !simple(n.Lhs[0]) || hasFuncLit(n.Rhs[0]) {
				return true
			}
			t := text(n.Lhs[0])
			switch n.Tok {
			case token.ASSIGN:
				switch r := n.Rhs[0].(type) {
				case *ast.BinaryExpr:
					switch r.Op {
					case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
						if text(r.X) == t || text(r.Y) == t {
							wrap(r)
						}
					}
				case *ast.CallExpr:
					if id, ok := r.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max" || id.Name == "len" || id.Name == "cap") {
						return true
					}
					if _, ok := n.Lhs[0].(*ast.Ident); ok {
						return true
					}
					for _, a := range r.Args {
						if mentions(a, t) {
							wrap(r)
							break
						}
					}
				}
			case token.ADD_ASSIGN, token.SUB_ASSIGN, token.MUL_ASSIGN, token.QUO_ASSIGN, token.REM_ASSIGN, token.AND_ASSIGN, token.OR_ASSIGN, token.XOR_ASSIGN, token.SHL_ASSIGN, token.SHR_ASSIGN, token.AND_NOT_ASSIGN:
				op := n.Tok.String()
				op = op[:len(op)-1]
				add(off(n.TokPos), len(n.Tok.String()), fmt.Sprintf("= simrt__.SimV(%s %s (", t, op))
				add(off(n.Rhs[0].End()), 0, "))")
				points++
			}
		}
		return true
	})
	if points == 0 {
		return src, 0, nil
	}
	add(off(f.Name.End()), 0, "; import simrt__ \"runtime\"")
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		out.Write(src[last:e.at])
		out.WriteString(e.ins)
		last = e.at + e.del
	}
	out.Write(src[last:])
	return out.Bytes(), points, nil
}
