// mutate lists small syntactic changes of a Go file, or prints the file with one
// of them made. Development tool: tools/muttest.py uses it, no check does.
//
//	mutate FILE          one line per mutant: number, line, description
//	mutate FILE NUMBER   the changed file
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	add := func(p token.Pos, what string, do func()) { ms = append(ms, mutant{p, what, do}) }
	ops := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
		token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GTR},
		token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LSS},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
		token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.AND: {token.OR, token.AND_NOT}, token.OR: {token.AND, token.XOR}, token.AND_NOT: {token.AND},
		token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	asg := map[token.Token]token.Token{
		token.ADD_ASSIGN: token.SUB_ASSIGN, token.SUB_ASSIGN: token.ADD_ASSIGN,
		token.OR_ASSIGN: token.AND_ASSIGN, token.AND_ASSIGN: token.OR_ASSIGN, token.AND_NOT_ASSIGN: token.AND_ASSIGN,
	}
	stmts := func(l []ast.Stmt) {
		for i := range l {
			i := i
			switch x := l[i].(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
			case *ast.BranchStmt:
			case *ast.ReturnStmt:
				if i == len(l)-1 && false {
					continue
				}
			default:
				continue
			}
			add(l[i].Pos(), "statement removed", func() { l[i] = &ast.EmptyStmt{} })
		}
		for i := 0; i+1 < len(l); i++ {
			i := i
			add(l[i].Pos(), "statement swapped with the next", func() { l[i], l[i+1] = l[i+1], l[i] })
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				o, was := o, x.Op
				add(x.OpPos, fmt.Sprintf("%v -> %v", was, o), func() { x.Op = o })
			}
		case *ast.AssignStmt:
			if o, ok := asg[x.Tok]; ok {
				add(x.TokPos, fmt.Sprintf("%v -> %v", x.Tok, o), func() { x.Tok = o })
				if x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN || x.Tok == token.OR_ASSIGN {
					add(x.TokPos, fmt.Sprintf("%v -> =", x.Tok), func() { x.Tok = token.ASSIGN })
				}
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err != nil {
					break
				}
				for _, d := range []int64{v + 1, v - 1} {
					if d < 0 {
						continue
					}
					s := strconv.FormatInt(d, 10)
					add(x.Pos(), x.Value+" -> "+s, func() { x.Value = s })
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				add(x.Pos(), x.Value+" -> \"x\"", func() { x.Value = `"x"` })
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				to := map[string]string{"true": "false", "false": "true"}[x.Name]
				add(x.Pos(), x.Name+" -> "+to, func() { x.Name = to })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), "! dropped", func() { x.Op = token.ADD; x.X = &ast.ParenExpr{X: x.X}; x.Op = token.NOT; x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
		case *ast.IfStmt:
			c := x.Cond
			add(x.Pos(), "condition always true", func() {
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LOR, Y: ast.NewIdent("true")}
			})
			add(x.Pos(), "condition always false", func() {
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LAND, Y: ast.NewIdent("false")}
			})
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				i := i
				if id, ok := r.(*ast.Ident); ok && id.Name != "nil" {
					add(r.Pos(), "returns nil for "+id.Name, func() { x.Results[i] = ast.NewIdent("nil") })
					add(r.Pos(), "returns 0 for "+id.Name, func() { x.Results[i] = ast.NewIdent("0") })
				} else if id, ok := r.(*ast.Ident); ok && id.Name == "nil" && i == len(x.Results)-1 {
					add(r.Pos(), "returns ErrInvalidArgs for nil", func() { x.Results[i] = ast.NewIdent("ErrInvalidArgs") })
				}
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), "break -> continue", func() { x.Tok = token.CONTINUE })
			} else if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), "continue -> break", func() { x.Tok = token.BREAK })
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			for i := range x.List {
				i := i
				if len(x.List) > 1 {
					add(x.List[i].Pos(), "case value removed", func() { x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...) })
				}
			}
		case *ast.CompositeLit:
			for i := range x.Elts {
				i := i
				if _, ok := x.Elts[i].(*ast.KeyValueExpr); ok {
					add(x.Elts[i].Pos(), "entry removed", func() { x.Elts = append(append([]ast.Expr{}, x.Elts[:i]...), x.Elts[i+1:]...) })
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Low.Pos(), "slice start dropped", func() { x.Low = nil })
			}
			if x.High != nil {
				add(x.High.Pos(), "slice end dropped", func() { x.High = nil })
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 1 {
				add(x.Pos(), "append replaced by its first argument", func() { x.Args = x.Args[:1]; x.Ellipsis = 0 })
			}
			if len(x.Args) >= 2 {
				for i := 0; i+1 < len(x.Args); i++ {
					i := i
					add(x.Args[i].Pos(), "arguments swapped", func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
				}
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(m.pos).Line, m.what)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	ms[k].do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Stdout.Write(b.Bytes())
}
