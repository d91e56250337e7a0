// mutate lists small syntactic changes of Go files: mutate FILE prints the number of changes, mutate FILE N writes the file with change N
// to standard output and describes it on standard error. It is used to look for blind spots of the checks; no check uses it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var ms []mut
	add := func(pos token.Pos, what string, do func()) { ms = append(ms, mut{pos, what, do}) }
	fname := ""
	stmts := func(list *[]ast.Stmt) {
		for i, s := range *list {
			i := i
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
				add(s.Pos(), "delete statement", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "delete assignment", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
				}
			case *ast.BranchStmt:
				switch x.Tok {
				case token.CONTINUE:
					add(s.Pos(), "continue to break", func() { x.Tok = token.BREAK })
				case token.BREAK:
					add(s.Pos(), "break to continue", func() { x.Tok = token.CONTINUE })
				}
				add(s.Pos(), "delete "+x.Tok.String(), func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
			case *ast.IfStmt:
				if x.Else == nil {
					add(s.Pos(), "delete if", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
				}
			case *ast.ReturnStmt:
				if len(*list) > 1 && i < len(*list)-1 || true {
					add(s.Pos(), "delete return", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fname = x.Name.Name
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			stmts(&x.List)
		case *ast.CaseClause:
			stmts(&x.Body)
			for i := range x.List {
				i := i
				if len(x.List) > 1 {
					add(x.List[i].Pos(), "drop case value", func() { x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...) })
				}
			}
			if len(x.Body) > 0 {
				add(x.Pos(), "empty case", func() { x.Body = nil })
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), "negate condition", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
			if x.Else != nil {
				add(x.Else.Pos(), "drop else", func() { x.Else = nil })
			}
		case *ast.ForStmt:
			if x.Cond == nil {
				return true
			}
		case *ast.BinaryExpr:
			var tos []token.Token
			switch x.Op {
			case token.EQL:
				tos = []token.Token{token.NEQ}
			case token.NEQ:
				tos = []token.Token{token.EQL}
			case token.LSS:
				tos = []token.Token{token.LEQ, token.GEQ}
			case token.LEQ:
				tos = []token.Token{token.LSS, token.GTR}
			case token.GTR:
				tos = []token.Token{token.GEQ, token.LEQ}
			case token.GEQ:
				tos = []token.Token{token.GTR, token.LSS}
			case token.LAND:
				tos = []token.Token{token.LOR}
				add(x.Pos(), "drop right of &&", func() { x.Y = ast.NewIdent("true") })
				add(x.Pos(), "drop left of &&", func() { x.X = ast.NewIdent("true") })
			case token.LOR:
				tos = []token.Token{token.LAND}
				add(x.Pos(), "drop right of ||", func() { x.Y = ast.NewIdent("false") })
				add(x.Pos(), "drop left of ||", func() { x.X = ast.NewIdent("false") })
			case token.ADD:
				tos = []token.Token{token.SUB}
			case token.SUB:
				tos = []token.Token{token.ADD}
			}
			for _, t := range tos {
				t := t
				add(x.OpPos, x.Op.String()+" to "+t.String(), func() { x.Op = t })
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.Atoi(x.Value); err == nil {
					add(x.Pos(), "constant +1", func() { x.Value = strconv.Itoa(v + 1) })
					if v > 0 {
						add(x.Pos(), "constant -1", func() { x.Value = strconv.Itoa(v - 1) })
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil && len(s) < 60 {
					if s == "" {
						add(x.Pos(), "text \"\" to z", func() { x.Value = `"z"` })
					} else {
						add(x.Pos(), "text "+x.Value+" to \"\"", func() { x.Value = `""` })
						add(x.Pos(), "text "+x.Value+" changed", func() { x.Value = strconv.Quote(s[:len(s)-1] + "Z") })
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), "true to false", func() { x.Name = "false" })
			}
			if x.Name == "false" {
				add(x.Pos(), "false to true", func() { x.Name = "true" })
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				i := i
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" || i > 0 && i == len(x.Results)-1 {
					add(r.Pos(), "return nil", func() { x.Results[i] = ast.NewIdent("nil") })
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				i := i
				add(x.Pos(), "swap arguments", func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
				add(x.Pos(), "drop append", func() { x.Args = x.Args[:1] })
			}
		case *ast.SelectorExpr:
			swap := map[string]string{"MinSize": "MaxSize", "MaxSize": "MinSize", "Min": "Max", "Max": "Min", "Keys": "Items", "Items": "Keys", "Header": "Query", "Query": "Header", "Name": "Type", "Type": "Name", "Unit": "Value", "Value": "Unit",
				"Comment": "Name", "Inputs": "Outputs", "HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix", "Status": "XStatus", "Required": "Path", "Path": "Required", "Symbol": "Comment", "ToLower": "ToUpper", "Capitalize": "Uncapitalize", "Uncapitalize": "Capitalize"}
			if y, ok := swap[x.Sel.Name]; ok {
				add(x.Pos(), x.Sel.Name+" to "+y, func() { x.Sel = ast.NewIdent(y) })
			}
		case *ast.KeyValueExpr:
			_ = fname
		case *ast.CompositeLit:
			for i := range x.Elts {
				i := i
				add(x.Elts[i].Pos(), "drop element", func() { x.Elts = append(append([]ast.Expr{}, x.Elts[:i]...), x.Elts[i+1:]...) })
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		fmt.Println(len(ms))
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	fn := "?"
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= ms[k].pos && ms[k].pos <= fd.End() {
			fn = fd.Name.Name
		}
	}
	p := fset.Position(ms[k].pos)
	fmt.Fprintf(os.Stderr, "%s:%d %s: %s\n", p.Filename, p.Line, fn, ms[k].what)
	ms[k].do()
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Stdout.Write(buf.Bytes())
}
