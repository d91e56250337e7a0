package main

// gengo.go: analysis of the Go code that the generator produces: the text is parsed, type-checked
// against the real standard library (and stubs of the two gorilla packages), built as SSA, and then
// analysed like any other function.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/types"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const muxStub = `package mux
import "net/http"
type Route struct {
	Pattern string
	Handle  http.Handler
	Func    func(http.ResponseWriter, *http.Request)
	Verbs   []string
}
type Router struct {
	NotFoundHandler         http.Handler
	MethodNotAllowedHandler http.Handler
	Routes                  []*Route
}
func NewRouter() *Router { return new(Router) }
func Vars(r *http.Request) map[string]string { return nil }
func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {}
func (r *Router) StrictSlash(b bool) *Router { return r }
func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	x := &Route{Pattern: path, Func: f}
	r.Routes = append(r.Routes, x)
	return x
}
func (r *Router) Handle(path string, h http.Handler) *Route {
	x := &Route{Pattern: path, Handle: h}
	r.Routes = append(r.Routes, x)
	return x
}
func (r *Router) Path(path string) *Route {
	x := &Route{Pattern: path}
	r.Routes = append(r.Routes, x)
	return x
}
func (r *Router) Methods(ms ...string) *Route {
	x := &Route{Verbs: ms}
	r.Routes = append(r.Routes, x)
	return x
}
func (x *Route) Methods(ms ...string) *Route {
	x.Verbs = append(x.Verbs, ms...)
	return x
}
func (x *Route) Path(path string) *Route {
	x.Pattern = path
	return x
}
func (x *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	x.Func = f
	return x
}
func (x *Route) Handler(h http.Handler) *Route {
	x.Handle = h
	return x
}
func (x *Route) Name(n string) *Route { return x }
`

const handlersStub = `package handlers
import ("io"; "net/http")
type CORSOption func() error
func CombinedLoggingHandler(out io.Writer, h http.Handler) http.Handler { return h }
func LoggingHandler(out io.Writer, h http.Handler) http.Handler { return h }
func CORS(opts ...CORSOption) func(http.Handler) http.Handler { return func(h http.Handler) http.Handler { return h } }
func AllowedOrigins(o []string) CORSOption { return nil }
func AllowedHeaders(o []string) CORSOption { return nil }
func AllowedMethods(o []string) CORSOption { return nil }
func AllowCredentials() CORSOption { return nil }
func ExposedHeaders(o []string) CORSOption { return nil }
`

var stubSources = map[string]string{"github.com/gorilla/mux": muxStub, "github.com/gorilla/handlers": handlersStub}

// exportData finds the compiled form of a package that the analysed tree itself does not import.
func (p *Program) exportData(q string) string {
	if f, ok := p.export[q]; ok {
		return f
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}", q)
	cmd.Dir = p.root
	out, err := cmd.Output()
	if err == nil {
		for _, line := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			if k, file, ok := strings.Cut(line, " "); ok && p.export[k] == "" {
				p.export[k] = file
			}
		}
	}
	return p.export[q]
}

type genImporter struct{ p *Program }

func (g genImporter) Import(q string) (*types.Package, error) {
	if tp := g.p.tpkgs[q]; tp != nil {
		return tp, nil
	}
	if src, ok := stubSources[q]; ok {
		f, err := parser.ParseFile(g.p.fset, "stub/"+q+".go", src, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		tp, errs := g.p.addGo(q, []*ast.File{f})
		if len(errs) > 0 {
			return nil, fmt.Errorf("stub %s: %s", q, errs[0])
		}
		return tp, nil
	}
	return g.p.ext.Import(q)
}

// addGo type-checks files as one package and adds it to the SSA program when it has no errors.
func (p *Program) addGo(q string, files []*ast.File) (*types.Package, []string) {
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	var errs []string
	conf := types.Config{Importer: genImporter{p}, GoVersion: "go1.18", Error: func(err error) { errs = append(errs, err.Error()) }}
	tp, _ := conf.Check(q, p.fset, files, info)
	if len(errs) > 0 {
		return tp, errs
	}
	var create func(t *types.Package)
	create = func(t *types.Package) {
		if p.prog.Package(t) != nil {
			return
		}
		p.prog.CreatePackage(t, nil, nil, true)
		for _, i := range t.Imports() {
			create(i)
		}
	}
	for _, i := range tp.Imports() {
		create(i)
	}
	sp := p.prog.CreatePackage(tp, files, info, true)
	sp.Build()
	p.tpkgs[q] = tp
	p.pkgs[q] = sp
	return tp, nil
}

// GenGo is a generated package.
type GenGo struct {
	p     *Program
	tp    *types.Package
	q     string // below the module
	files map[string]*ast.File
	text  map[string]string
}

var genCount int

var goRoot string

// inStd tells whether the standard library has this package.
func (p *Program) inStd(q string) bool {
	if goRoot == "" {
		out, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			return true
		}
		goRoot = strings.TrimSpace(string(out))
	}
	if _, err := os.Stat(filepath.Join(goRoot, "src", "fmt")); err != nil {
		return true
	}
	fi, err := os.Stat(filepath.Join(goRoot, "src", q))
	return err == nil && fi.IsDir()
}

// loadGo loads generated sources; errs is why they do not compile.
func (p *Program) loadGo(text map[string]string) (g *GenGo, errs []string) {
	genCount++
	g = &GenGo{p: p, q: "generated/" + strconv.Itoa(genCount), files: map[string]*ast.File{}, text: text}
	var names []string
	for n := range text {
		names = append(names, n)
	}
	sort.Strings(names)
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(p.fset, g.q+"/"+path.Base(n), text[n], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return g, []string{err.Error()}
		}
		g.files[n] = f
		files = append(files, f)
		for _, i := range f.Imports {
			q, _ := strconv.Unquote(i.Path.Value)
			head, _, _ := strings.Cut(q, "/")
			missing := !strings.Contains(head, ".") && !p.inStd(q)
			if strings.HasPrefix(q, module) && p.tpkgs[q] == nil {
				_, err := os.Stat(filepath.Join(p.root, strings.TrimPrefix(q, module)))
				missing = !strings.HasPrefix(q, module+"/") || err != nil
			}
			if missing {
				return g, []string{p.fset.Position(i.Pos()).String() + ": there is no package " + q}
			}
		}
	}
	g.tp, errs = p.addGo(module+"/"+g.q, files)
	return g, errs
}

func (g *GenGo) obj(name string) types.Object { return g.tp.Scope().Lookup(name) }

// typeText writes a type with the package's own names unqualified.
func (g *GenGo) typeText(t types.Type) string {
	return types.TypeString(t, func(q *types.Package) string {
		if q == g.tp {
			return ""
		}
		return q.Name()
	})
}

// decl describes a declared name: a type's definition with its tags, a constant's value, a function's signature.
func (g *GenGo) decl(name string) string {
	o := g.obj(name)
	switch x := o.(type) {
	case nil:
		return ""
	case *types.TypeName:
		if x.IsAlias() {
			return "= " + g.typeText(types.Unalias(x.Type()))
		}
		return g.typeText(x.Type().Underlying())
	case *types.Const:
		return "const " + g.typeText(x.Type()) + " " + x.Val().ExactString()
	}
	return g.typeText(o.Type())
}

// fields lists "Name type tag" of a struct.
func (g *GenGo) structFields(name string) []string {
	o := g.obj(name)
	if o == nil {
		return nil
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return []string{"not a struct: " + g.decl(name)}
	}
	out := []string{}
	for i := 0; i < s.NumFields(); i++ {
		tag := s.Tag(i)
		j := ""
		for _, part := range strings.Fields(tag) {
			if strings.HasPrefix(part, "json:") {
				j, _ = strconv.Unquote(part[5:])
			}
		}
		out = append(out, s.Field(i).Name()+" "+g.typeText(s.Field(i).Type())+" "+j)
	}
	return out
}

// methods lists "Name signature" of the pointer method set, declared in the package.
func (g *GenGo) methods(name string) map[string]string {
	o := g.obj(name)
	out := map[string]string{}
	if o == nil {
		return out
	}
	n, ok := types.Unalias(o.Type()).(*types.Named)
	if !ok {
		return out
	}
	if it, ok := n.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			out[it.Method(i).Name()] = g.typeText(it.Method(i).Type())
		}
		return out
	}
	for i := 0; i < n.NumMethods(); i++ {
		out[n.Method(i).Name()] = g.typeText(n.Method(i).Type())
	}
	return out
}

// sub analyses functions of the generated package in a fresh abstract state.
func (g *GenGo) sub(o *O, sc *Scenario, f func(b *B)) {
	old := o.b
	b := g.p.NewB(sc)
	b.e.initPackage(b.st, module+"/"+g.q)
	o.b = b
	defer func() {
		o.b = old
		old.e.steps += b.e.steps
		old.e.calls += b.e.calls
		old.e.forks += b.e.forks
		old.e.overflow += b.e.overflow
		for k := range b.e.fnSeen {
			old.e.fnSeen[k] = true
		}
		for k, n := range b.e.unmodelled {
			old.e.unmodelled[k] += n
		}
	}()
	f(b)
}

func (e *Engine) initPackage(st *State, q string) {
	sp := e.P.pkgs[q]
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			st.heap["g:"+g.RelString(nil)] = &Obj{kind: KCell, val: e.zero(t), typ: t}
		}
	}
	f := sp.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	e.initing = true
	defer func() { e.initing = false }()
	for _, r := range e.callBody(st.clone(), f, nil, nil, "init:"+q, "") {
		if r.kind == RReturn {
			st.heap = r.st.heap
		}
	}
}

// ---------------------------------------------------------------- HTTP environment

func (p *Program) extType(pkg, name string) types.Type {
	tp, err := p.ext.Import(pkg)
	if err != nil {
		panic(anchorLost{"package " + pkg})
	}
	return tp.Scope().Lookup(name).Type()
}

// httpCalls models the HTTP library: a request's inputs are arbitrary texts named by where they come from,
// and what is sent is recorded in order.
func httpCalls(status int, more map[string]model) map[string]model {
	m := map[string]model{}
	canon := func(e *Engine, t *Term) *Term {
		if s, ok := t.isStr(); ok {
			return e.T.Str(http.CanonicalHeaderKey(s))
		}
		return t
	}
	// request inputs
	m["(*net/http.Request).ParseForm"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "form", nil, c, func(st *State) *Term {
			st.heap["form:parsed"] = &Obj{kind: KCell, val: e.T.Bool(true), typ: tBool}
			return e.T.Nil()
		}, func(er *Term) *Term { return er })
	}
	m["(net/url.Values).Get"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		if v := e.res(c.st, a[0]); v.op == ONil || v.op == OSym && (v.s == "postform" || v.s == "form" && c.st.heap["form:parsed"] == nil) {
			// nothing is in the form before it is read, and no query parameters in that of the entity
			return one(c, e.T.Str(""))
		}
		return one(c, e.T.pinned(e.T.Call("query", tString, a[1])))
	}
	m["(*net/http.Request).FormValue"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.T.pinned(e.T.Call("query", tString, a[1])))
	}
	m["(*net/url.URL).Query"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.T.mk(OSym, "queryform", nil, c.rt, nil))
	}
	m["github.com/gorilla/mux.Vars"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		id := "vars"
		o := &Obj{kind: KMap, typ: c.rt}
		for _, v := range []string{"one", "id", "a", "b"} {
			o.ents = append(o.ents, Ent{e.T.Str(v), e.T.Call("pathvar", tString, e.T.Str(v)), true})
		}
		c.st.heap[id] = o
		return one(c, e.T.Ptr(id, c.rt))
	}
	m["(net/http.Header).Get"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.T.pinned(e.T.Call("header", tString, canon(e, a[1]))))
	}
	// responses
	m["iface.Header"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.T.mk(OSym, "outheader", nil, c.rt, nil))
	}
	set := func(kind string) model {
		return func(e *Engine, c *callCtx, a []*Term) []Ret {
			e.world(c.st, e.T.mk(OCall, kind, nil, nil, nil, canon(e, a[1]), a[2]))
			return one(c, e.T.Tuple())
		}
	}
	m["(net/http.Header).Set"] = set("sethdr")
	m["(net/http.Header).Add"] = set("sethdr")
	m["iface.WriteHeader"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		e.world(c.st, e.T.mk(OCall, "status", nil, nil, nil, a[1]))
		return one(c, e.T.Tuple())
	}
	m["iface.Write"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		e.world(c.st, e.T.mk(OCall, "stdw", nil, nil, nil, a[1]))
		return one(c, e.T.Tuple(e.length(c.st, a[1]), e.T.Nil()))
	}
	m["net/http.CanonicalHeaderKey"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return one(c, canon(e, a[0])) }
	m["net/http.Error"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		e.world(c.st, e.T.mk(OCall, "status", nil, nil, nil, a[2]))
		e.world(c.st, e.T.mk(OCall, "stdw", nil, nil, nil, a[1]))
		return one(c, e.T.Tuple())
	}
	m["net/url.Parse"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		pt := c.res(0).(*types.Pointer)
		s := under(pt.Elem()).(*types.Struct)
		return e.mayFail(c.st, "url", []*Term{a[0]}, c, func(st *State) *Term {
			v := e.expand(e.zero(pt.Elem()), pt.Elem())
			fs := append([]*Term{}, v.args...)
			for i := range fs {
				if s.Field(i).Name() == "Path" {
					if x, ok := a[0].isStr(); ok {
						u, err := url.Parse(x)
						if err == nil {
							fs[i] = e.T.Str(u.Path)
						}
					} else {
						fs[i] = e.T.pinned(e.T.Call("urlpath", tString, a[0]))
					}
				}
			}
			c.st = st
			return e.T.Tuple(e.newObj(c, "url", e.T.mk(OStruct, "", nil, pt.Elem(), nil, fs...), pt.Elem()), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
	}
	m["log.Fatal"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return []Ret{{st: c.st, kind: RExit, pos: c.pos(), msg: "log.Fatal", fn: c.caller}}
	}
	m["encoding/json.NewDecoder"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		x := a[0]
		if x.op == OIface {
			x = x.args[0]
		}
		return one(c, e.newObj(c, "dec", e.T.mk(OCall, "dec", nil, nil, nil, x), nil))
	}
	m["(*encoding/json.Decoder).Decode"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		v := e.load(c.st, a[0], nil)
		if v.op != OCall || v.s != "dec" {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		if isClosed(c.st, v.args[0]) {
			return one(c, e.T.Err(e.T.Str("read on closed body")))
		}
		return unmarshal("json")(e, c, []*Term{v.args[0], a[1]})
	}
	m["io.ReadAll"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		x := a[0]
		if x.op == OIface {
			x = x.args[0]
		}
		if isClosed(c.st, x) {
			return one(c, e.T.Tuple(e.T.Nil(), e.T.Err(e.T.Str("read on closed body"))))
		}
		return one(c, e.T.Tuple(x, e.T.Nil()))
	}
	m["io/ioutil.ReadAll"] = m["io.ReadAll"]
	for _, n := range []string{"PathEscape", "QueryEscape"} {
		n := n
		m["net/url."+n] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
			if s, ok := a[0].isStr(); ok {
				if n == "PathEscape" {
					return e.T.Str(url.PathEscape(s))
				}
				return e.T.Str(url.QueryEscape(s))
			}
			return e.T.Call(n, tString, a[0])
		})
	}
	m["strings.NewReader"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.newObj(c, "buf", e.T.mk(OCall, "text", nil, nil, nil, a[0]), nil))
	}
	m["bytes.NewReader"] = m["strings.NewReader"]
	// client
	m["net/http.NewRequest"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		pt := c.res(0).(*types.Pointer)
		s := under(pt.Elem()).(*types.Struct)
		return e.mayFail(c.st, "newrequest", []*Term{a[1]}, c, func(st *State) *Term {
			v := e.expand(e.zero(pt.Elem()), pt.Elem())
			fs := append([]*Term{}, v.args...)
			for i := range fs {
				switch s.Field(i).Name() {
				case "Method":
					fs[i] = a[0]
				case "Header":
					fs[i] = e.T.mk(OSym, "outheader", nil, s.Field(i).Type(), nil)
				}
			}
			body := e.T.Nil()
			if a[2].op != ONil {
				body = e.T.Unk("body", nil)
				if a[2].op == OIface && a[2].args[0].op == OPtr {
					body = e.text(st, a[2].args[0])
				}
			}
			e.world(st, e.T.mk(OCall, "request", nil, nil, nil, a[0], a[1], body))
			c.st = st
			return e.T.Tuple(e.newObj(c, "hreq", e.T.mk(OStruct, "", nil, pt.Elem(), nil, fs...), pt.Elem()), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
	}
	m["net/http.NewRequestWithContext"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return m["net/http.NewRequest"](e, c, a[1:]) }
	m["(*net/http.Client).Do"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		pt := c.res(0).(*types.Pointer)
		s := under(pt.Elem()).(*types.Struct)
		return e.mayFail(c.st, "do", nil, c, func(st *State) *Term {
			e.world(st, e.T.mk(OCall, "do", nil, nil, nil))
			v := e.expand(e.zero(pt.Elem()), pt.Elem())
			fs := append([]*Term{}, v.args...)
			for i := range fs {
				switch s.Field(i).Name() {
				case "StatusCode":
					fs[i] = e.T.Int(int64(status))
				case "Header":
					fs[i] = e.T.mk(OSym, "inheader", nil, s.Field(i).Type(), nil)
				case "Body":
					fs[i] = e.T.mk(OSym, "resbody", nil, s.Field(i).Type(), nil)
				}
			}
			c.st = st
			return e.T.Tuple(e.newObj(c, "hres", e.T.mk(OStruct, "", nil, pt.Elem(), nil, fs...), pt.Elem()), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
	}
	m["iface.Close"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		x := a[0]
		if x.op == OIface {
			x = x.args[0]
		}
		if x.op == OSym {
			c.st.heap["closed:"+x.s] = &Obj{kind: KCell, val: e.T.Bool(true), typ: types.Typ[types.Bool]}
		}
		return one(c, e.T.Nil())
	}
	for k, v := range more {
		m[k] = v
	}
	return m
}

// isClosed tells whether a body was closed, after which nothing can be read from it.
func isClosed(st *State, x *Term) bool {
	return x.op == OSym && st.heap["closed:"+x.s] != nil
}

// record lists what was sent, in order.
func (b *B) record(st *State) ([]*Term, bool) {
	o := st.heap["w:out"]
	if o == nil {
		return nil, true
	}
	return b.items(o.val)
}

var _ = constant.MakeString
