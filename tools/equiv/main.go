// equiv lists rewritings of Go files that keep the behaviour: equiv FILE prints their number, equiv FILE N writes the file with
// rewriting N, equiv FILE all:SEED:PERCENT applies a random selection of rewritings that do not overlap. It is used to look for
// false alarms of the checks; no check uses it.
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	lo, hi int
	text   string
}
type rw struct {
	what string
	pos  token.Pos
	es   []edit
	lo   int
	hi   int
}

var src []byte
var fset *token.FileSet

func off(p token.Pos) int           { return fset.Position(p).Offset }
func txt(n ast.Node) string         { return string(src[off(n.Pos()):off(n.End())]) }
func between(a, b token.Pos) string { return string(src[off(a):off(b)]) }

// escapes: the statements leave by something other than falling off the end.
func escapes(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.DeferStmt:
			r = true
		}
		return true
	})
	return r
}

func hasBreak(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		if b, ok := m.(*ast.BranchStmt); ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH || b.Tok == token.GOTO) {
			r = true
		}
		return true
	})
	return r
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	}
	return false
}

func pure(e ast.Node) bool {
	p := true
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "len" {
				p = false
			}
		}
		switch n.(type) {
		case *ast.FuncLit, *ast.UnaryExpr, *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr:
			p = false
		}
		return p
	})
	return p
}

func main() {
	fset = token.NewFileSet()
	var err error
	src, err = os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var rs []rw
	tmp := 0
	fresh := func(p string) string { tmp++; return fmt.Sprintf("%s%d", p, tmp) }
	add := func(pos token.Pos, what string, es ...edit) {
		r := rw{what: what, pos: pos, es: es, lo: 1 << 30}
		for _, e := range es {
			if e.lo < r.lo {
				r.lo = e.lo
			}
			if e.hi > r.hi {
				r.hi = e.hi
			}
		}
		rs = append(rs, r)
	}
	rep := func(n ast.Node, s string) edit { return edit{off(n.Pos()), off(n.End()), s} }
	var fn *ast.FuncDecl
	list := func(l []ast.Stmt, end token.Pos) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.IfStmt:
				// if c { ...return } rest  =>  if c {...} else { rest }, at the end of a function
				if x.Else == nil && x.Init == nil && len(x.Body.List) > 0 && fn != nil && end == fn.Body.Rbrace && i+1 < len(l) {
					if _, ok := x.Body.List[len(x.Body.List)-1].(*ast.ReturnStmt); ok {
						if _, ok := l[len(l)-1].(*ast.ReturnStmt); ok {
							add(x.Pos(), "rest into else", edit{off(x.End()), off(x.End()), " else {"}, edit{off(end), off(end), "}\n"})
						}
					}
				}
				if x.Init != nil {
					add(x.Pos(), "split init", edit{off(x.Pos()), off(x.Cond.Pos()), "{\n" + txt(x.Init) + "\nif "}, edit{off(x.End()), off(x.End()), "\n}"})
				}
			case *ast.ReturnStmt:
				for j, r := range x.Results {
					if c, ok := r.(*ast.CallExpr); ok && j == 0 && len(x.Results) <= 2 {
						v := fresh("result")
						if len(x.Results) == 2 {
							add(x.Pos(), "name the result", edit{off(x.Pos()), off(x.Pos()), v + " := " + txt(c) + "\n"}, rep(c, v))
						} else if fn != nil && fn.Type.Results != nil && len(fn.Type.Results.List) == 1 {
							add(x.Pos(), "name the result", edit{off(x.Pos()), off(x.Pos()), v + " := " + txt(c) + "\n"}, rep(c, v))
						}
					}
				}
			case *ast.AssignStmt:
				if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok == token.ADD_ASSIGN && simple(x.Lhs[0]) {
					add(x.Pos(), "+= spelled out", rep(x, txt(x.Lhs[0])+" = "+txt(x.Lhs[0])+" + ("+txt(x.Rhs[0])+")"))
				}
				if len(x.Rhs) == 1 {
					if c, ok := x.Rhs[0].(*ast.CallExpr); ok && len(c.Args) > 0 {
						// hoist the first argument
						a := c.Args[0]
						if !simple(a) && c.Ellipsis == 0 {
							if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "make" && id.Name != "new" {
								v := fresh("arg")
								add(x.Pos(), "name an argument", edit{off(x.Pos()), off(x.Pos()), v + " := " + txt(a) + "\n"}, rep(a, v))
							}
						}
					}
				}
				if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					v := fresh("val")
					add(x.Pos(), "name a value", rep(x, v+" := "+txt(x.Rhs[0])+"\n"+txt(x.Lhs[0])+" := "+v))
				}
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) > 0 {
					a := c.Args[len(c.Args)-1]
					if len(c.Args) == 1 && !simple(a) {
						v := fresh("arg")
						add(x.Pos(), "name an argument", edit{off(x.Pos()), off(x.Pos()), v + " := " + txt(a) + "\n"}, rep(a, v))
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if fn == nil || x.Pos() > fn.End() {
				return false
			}
		case *ast.FuncLit:
			old := fn
			fn = nil
			ast.Inspect(x.Body, func(ast.Node) bool { return true })
			fn = old
		case *ast.FuncDecl:
			fn = x
			if x.Body == nil {
				return false
			}
			// body into a helper
			if x.Name.Name != "init" && x.Type.TypeParams == nil {
				var names []string
				ok := true
				if x.Type.Params != nil {
					for _, p := range x.Type.Params.List {
						if len(p.Names) == 0 {
							ok = false
						}
						for _, m := range p.Names {
							s := m.Name
							if s == "_" {
								ok = false
							}
							if _, v := p.Type.(*ast.Ellipsis); v {
								s += "..."
							}
							names = append(names, s)
						}
					}
				}
				recv := ""
				if x.Recv != nil {
					if len(x.Recv.List[0].Names) == 0 {
						ok = false
					} else {
						recv = x.Recv.List[0].Names[0].Name + "."
					}
				}
				if ok {
					ret := ""
					if x.Type.Results != nil && len(x.Type.Results.List) > 0 {
						ret = "return "
					}
					h := fresh("helper")
					head := between(x.Pos(), x.Body.Lbrace)
					nm := between(x.Name.Pos(), x.Name.End())
					at := off(x.Name.Pos()) - off(x.Pos())
					head2 := head[:at] + h + head[at+len(nm):]
					add(x.Pos(), "body into a helper "+nm, edit{off(x.End()), off(x.End()), "\n\n" + head2 + txt(x.Body)}, edit{off(x.Body.Lbrace), off(x.End()), "{\n" + ret + recv + h + "(" + strings.Join(names, ", ") + ")\n}"})
				}
			}
		case *ast.BlockStmt:
			list(x.List, x.Rbrace)
		case *ast.CaseClause:
			list(x.Body, x.End())
		case *ast.IfStmt:
			if e, ok := x.Else.(*ast.BlockStmt); ok {
				add(x.Pos(), "swap branches", rep(x.Cond, "!("+txt(x.Cond)+")"), rep(x.Body, txt(e)), rep(e, txt(x.Body)))
			}
			if x.Else == nil {
				if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					add(x.Pos(), "nest ifs", rep(b, txt(b.X)), edit{off(x.Body.Lbrace), off(x.Body.Lbrace), "{\nif " + txt(b.Y)}, edit{off(x.Body.Rbrace), off(x.Body.Rbrace), "}\n"})
				}
			}
			if x.Init == nil && !simple(x.Cond) {
				if _, isParentElse := elseOf[x]; !isParentElse {
					v := fresh("cond")
					add(x.Pos(), "name the condition", edit{off(x.Pos()), off(x.Cond.End()), v + " := " + txt(x.Cond) + "\nif " + v})
				}
			}
			// else-if chain into a switch
			if ch, ok := x.Else.(*ast.IfStmt); ok && x.Init == nil && !hasBreak(x) {
				if _, sub := elseOf[x]; !sub {
					s := "switch {\ncase " + txt(x.Cond) + ":\n" + inner(x.Body)
					good := true
					var e ast.Stmt = ch
					for e != nil {
						switch y := e.(type) {
						case *ast.IfStmt:
							if y.Init != nil {
								good = false
							}
							s += "\ncase " + txt(y.Cond) + ":\n" + inner(y.Body)
							e = y.Else
							if y.Else == nil {
								e = nil
							}
						case *ast.BlockStmt:
							s += "\ndefault:\n" + inner(y)
							e = nil
						}
					}
					if good {
						add(x.Pos(), "chain into switch", rep(x, s+"\n}"))
					}
				}
			}
			if y, ok := x.Else.(*ast.IfStmt); ok {
				elseOf[y] = true
			}
		case *ast.BinaryExpr:
			switch x.Op {
			case token.EQL, token.NEQ:
				if pure(x.X) && pure(x.Y) {
					add(x.Pos(), "swap sides", rep(x.X, txt(x.Y)), rep(x.Y, txt(x.X)))
				}
				op := "=="
				if x.Op == token.EQL {
					op = "!="
				}
				add(x.Pos(), "negate", rep(x, "!("+txt(x.X)+" "+op+" "+txt(x.Y)+")"))
				if b, ok := x.Y.(*ast.BasicLit); ok && b.Value == `""` {
					add(x.Pos(), "empty by length", rep(x, "len("+txt(x.X)+") "+x.Op.String()+" 0"))
				}
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if pure(x.X) && pure(x.Y) {
					o := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[x.Op]
					add(x.Pos(), "turn comparison", rep(x, txt(x.Y)+" "+o+" "+txt(x.X)))
				}
			case token.LAND:
				add(x.Pos(), "de Morgan", rep(x, "!(!("+txt(x.X)+") || !("+txt(x.Y)+"))"))
			case token.LOR:
				add(x.Pos(), "de Morgan", rep(x, "!(!("+txt(x.X)+") && !("+txt(x.Y)+"))"))
			case token.ADD:
				if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
					add(x.Pos(), "Sprint instead of +", rep(x, "fmt.Sprintf(\"%s%s\", "+txt(x.X)+", "+txt(x.Y)+")"))
				}
			}
		case *ast.SwitchStmt:
			if x.Tag != nil && x.Init == nil && !hasBreak(x) && len(x.Body.List) > 0 {
				s, def := "", ""
				v := fresh("tag")
				for _, c := range x.Body.List {
					cc := c.(*ast.CaseClause)
					end := x.Body.Rbrace
					_ = end
					b := ""
					if len(cc.Body) > 0 {
						b = between(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
					}
					if cc.List == nil {
						def = b
						if def == "" {
							def = " "
						}
						continue
					}
					var cs []string
					for _, e := range cc.List {
						cs = append(cs, v+" == "+txt(e))
					}
					if s != "" {
						s += " else "
					}
					s += "if " + strings.Join(cs, " || ") + " {\n" + b + "\n}"
				}
				if s != "" {
					if def != "" {
						s += " else {\n" + def + "\n}"
					}
					add(x.Pos(), "switch into ifs", rep(x, v+" := "+txt(x.Tag)+"\n"+s))
				}
			}
		case *ast.RangeStmt:
			if k, ok := x.Key.(*ast.Ident); ok && x.Tok == token.DEFINE {
				if v, ok := x.Value.(*ast.Ident); ok {
					i := k.Name
					if i == "_" {
						i = fresh("i")
					}
					l := fresh("list")
					add(x.Pos(), "range into for", edit{off(x.Pos()), off(x.Body.Lbrace) + 1, l + " := " + txt(x.X) + "\nfor " + i + " := 0; " + i + " < len(" + l + "); " + i + "++ {\n" + v.Name + " := " + l + "[" + i + "]\n"})
				}
			}
			if !escapes(x.Body) {
				add(x.Pos(), "loop body into a function", edit{off(x.Body.Lbrace), off(x.Body.Lbrace) + 1, "{\nfunc() {"}, edit{off(x.Body.Rbrace), off(x.Body.Rbrace), "}()\n"})
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "fmt" && s.Sel.Name == "Errorf" {
					add(x.Pos(), "error from a closure", rep(x, "func() error { return "+txt(x)+" }()"))
				}
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		fmt.Println(len(rs))
		return
	}
	var pick []rw
	if strings.HasPrefix(os.Args[2], "all:") {
		var seed int64
		var pc int
		fmt.Sscanf(os.Args[2], "all:%d:%d", &seed, &pc)
		r := rand.New(rand.NewSource(seed))
		skip := map[string]bool{}
		for _, s := range os.Args[3:] {
			skip[s] = true
		}
		var used [][2]int
		for _, i := range r.Perm(len(rs)) {
			if skip[strconv.Itoa(i)] || r.Intn(100) >= pc {
				continue
			}
			ok := true
			for _, u := range used {
				if rs[i].lo < u[1] && u[0] < rs[i].hi || rs[i].lo == u[1] || rs[i].hi == u[0] {
					ok = false
				}
			}
			if ok {
				used = append(used, [2]int{rs[i].lo, rs[i].hi})
				pick = append(pick, rs[i])
			}
		}
	} else {
		n, _ := strconv.Atoi(os.Args[2])
		pick = []rw{rs[n]}
	}
	var es []edit
	for _, r := range pick {
		fmt.Fprintf(os.Stderr, "%s: %s\n", fset.Position(r.pos), r.what)
		es = append(es, r.es...)
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].lo > es[j].lo || es[i].lo == es[j].lo && es[i].hi > es[j].hi })
	out := string(src)
	for _, e := range es {
		out = out[:e.lo] + e.text + out[e.hi:]
	}
	b, err := format.Source([]byte(out))
	if err != nil {
		fmt.Fprintln(os.Stderr, "does not parse:", err)
		os.Exit(2)
	}
	os.Stdout.Write(b)
}

var elseOf = map[*ast.IfStmt]bool{}

func inner(b *ast.BlockStmt) string { return string(src[off(b.Lbrace)+1 : off(b.Rbrace)]) }
