package main

// props_gohttp.go: C25, the Go server and client generated from a model's HTTP actions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/http"
	"net/url"
	"sort"
	"strings"
)

func init() {
	register(&Property{id: "C25", dress: true, rule: "The generated Go server and client compile and carry every action's method, path, parameters, status, headers, entity and exceptions over HTTP.", run: runC25})
}

// goParam is a type that a parameter or header can have.
type goParam struct {
	typ   string
	zero  func(b *B) *Term            // the value that counts as not set
	value func(b *B) (v, text *Term)  // a value that is set, and its text in a request
	read  func(b *B, text *Term) Pred // what a server makes of a text
	def   func(b *B) *Term            // a default
	isDef func(b *B) Pred
	fails string // operation that parses the text
	more  []goDef
}

// goDef is a further default, with the value it stands for.
type goDef struct {
	name string
	def  func(b *B) *Term
	is   func(b *B) Pred
}

func goIntDef(n int64) goDef {
	return goDef{fmt.Sprint(n), func(b *B) *Term { d := b.dec(b.e.T.Int(n)); return b.any(d.t, d) }, func(b *B) Pred { return eqPred(b, b.e.T.Int(n)) }}
}

func isConv(v *Term) *Term {
	for v.op == OCall && strings.HasPrefix(v.s, "conv") && len(v.args) == 1 {
		v = v.args[0]
	}
	return v
}

func eqPred(b *B, want *Term) Pred {
	return func(st *State, got *Term) int {
		n := b.same(st, got, want)
		if n != 1 {
			if m := b.same(st, isConv(got), want); m == 1 {
				return 1
			}
		}
		return n
	}
}

func callPred(b *B, name string, text *Term, bits ...string) Pred {
	return func(st *State, got *Term) int {
		v := isConv(got)
		if v.unk() {
			return -1
		}
		fits := v.s == name
		for _, s := range bits { // reading into as many bits as the type has is as good
			fits = fits || v.s == name+s
		}
		return boolInt(v.op == OCall && fits && v.args[0] == text)
	}
}

func goParams() []goParam {
	var ps []goParam
	for _, t := range []string{"String", "Label", "UUID", "Ident"} {
		ps = append(ps, goParam{typ: t, zero: func(b *B) *Term { return b.e.T.Str("") },
			value: func(b *B) (*Term, *Term) { return b.atom("txt"), b.atom("txt") },
			read:  func(b *B, text *Term) Pred { return eqPred(b, text) },
			def:   func(b *B) *Term { return b.str("dflt") }, isDef: func(b *B) Pred { return eqPred(b, b.e.T.Str("dflt")) }})
		if t == "String" || t == "Label" {
			for _, d := range []string{" a b ", `say "hi"`, `a\b`, "100%d", "`x`", "{{x}}", "a\nb", "0", "Mixed Case", "éÉ"} {
				d := d
				p := &ps[len(ps)-1]
				p.more = append(p.more, goDef{fmt.Sprintf("parsed %q", d), func(b *B) *Term { return b.strAny(d) }, func(b *B) Pred { return eqPred(b, b.e.T.Str(d)) }})
				p.more = append(p.more, goDef{fmt.Sprintf("%q", d), func(b *B) *Term { return b.str(d) }, func(b *B) Pred { return eqPred(b, b.e.T.Str(d)) }})
			}
		}
	}
	for _, t := range []string{"Int8", "Int16", "Int32", "Int64", "Small"} {
		bits := map[string][]string{"Int8": {":10:8", ":10:16", ":10:32"}, "Int16": {":10:16", ":10:32"}, "Int32": {":10:32"}, "Small": {":10:16", ":10:32"}}[t]
		ps = append(ps, goParam{typ: t, zero: func(b *B) *Term { return b.e.T.Int(0) },
			value: func(b *B) (*Term, *Term) { return b.e.T.Int(17), b.e.T.Str("17") },
			read:  func(b *B, text *Term) Pred { return callPred(b, "atoi", text, bits...) }, fails: "strconv.Atoi",
			def: func(b *B) *Term { d := b.dec(b.e.T.Int(12)); return b.any(d.t, d) }, isDef: func(b *B) Pred { return eqPred(b, b.e.T.Int(12)) },
			more: append([]goDef{goIntDef(-1), goIntDef(0), goIntDef(127), goIntDef(-128)}, map[string][]goDef{"Int16": {goIntDef(32767), goIntDef(-32768)}, "Small": {goIntDef(32767)}, "Int32": {goIntDef(2147483647), goIntDef(-2147483648)},
				"Int64": {goIntDef(2147483648), goIntDef(9007199254740993), goIntDef(9223372036854775807), goIntDef(-9223372036854775808)}}[t]...)})
	}
	for _, t := range []string{"Float32", "Float64", "Part"} {
		var bits []string
		if t != "Float64" {
			bits = []string{":32"}
		}
		ps = append(ps, goParam{typ: t, zero: func(b *B) *Term { return b.e.constTerm(b.e.T.Int(0).c, types.Typ[types.Float64]) },
			value: func(b *B) (*Term, *Term) {
				v := b.sym("++fl", types.Typ[types.Float64])
				return v, b.e.T.Call("ftoa:g", tString, v)
			},
			read: func(b *B, text *Term) Pred { return callPred(b, "atof", text, bits...) }, fails: "strconv.ParseFloat"})
		for _, d := range []string{"1.5", "0.25", "-2.5", "0.1", "1e21", "12", "1e-7"} {
			x := constant.MakeFromLiteral(strings.TrimPrefix(d, "-"), token.FLOAT, 0)
			if d[0] == '-' {
				x = constant.UnaryOp(token.SUB, x, 0)
			}
			p := &ps[len(ps)-1]
			p.more = append(p.more, goDef{d, func(b *B) *Term { d := b.dec(b.e.constTerm(x, types.Typ[types.Float64])); return b.any(d.t, d) }, func(b *B) Pred {
				return func(st *State, got *Term) int {
					v := isConv(got)
					if !v.isConst() {
						return boolInt(v.isConst()) - boolInt(v.unk())
					}
					f1, _ := constant.Float64Val(v.c)
					f2, _ := constant.Float64Val(x)
					return boolInt(f1 == f2 || t != "Float64" && float32(f1) == float32(f2))
				}
			}})
		}
	}
	for _, t := range []string{"Bool", "Flag"} {
		ps = append(ps, goParam{typ: t, zero: func(b *B) *Term { return b.e.T.Bool(false) },
			value: func(b *B) (*Term, *Term) { return b.e.T.Bool(true), b.e.T.Str("true") },
			read:  func(b *B, text *Term) Pred { return callPred(b, "atob", text) }, fails: "strconv.ParseBool",
			def: func(b *B) *Term { return b.boolAny(true) }, isDef: func(b *B) Pred { return eqPred(b, b.e.T.Bool(true)) },
			more: []goDef{{"false", func(b *B) *Term { return b.boolAny(false) }, func(b *B) Pred { return eqPred(b, b.e.T.Bool(false)) }}}})
	}
	for i := range ps {
		if p := &ps[i]; p.typ == "UUID" || p.typ == "Ident" {
			const u = "1ce437b0-1dd2-11b2-81ef-003ee1be85f9"
			p.more = append(p.more, goDef{"parsed UUID", func(b *B) *Term { return b.strAny(u) }, func(b *B) Pred { return eqPred(b, b.e.T.Str(u)) }})
		}
	}
	ps = append(ps, goParam{typ: "Timestamp", zero: func(b *B) *Term { return b.e.T.Nil() },
		value: func(b *B) (*Term, *Term) {
			return b.newObj("ts", b.stamp(b.timeConst("2019-02-03T22:48:19.043Z")), b.typ("Timestamp")), b.e.T.Str("2019-02-03T22:48:19.043Z")
		},
		read: func(b *B, text *Term) Pred {
			return func(st *State, got *Term) int {
				v := b.timeOf(st, got)
				if v == nil || v.unk() {
					return -1
				}
				return boolInt(hasCall(v, func(x *Term) bool { return x.op == OCall && x.s == "timeparse" && x.args[1] == text }))
			}
		}, fails: "time.Parse",
		def: func(b *B) *Term { return b.str("2019-02-03T22:48:19.043Z") },
		isDef: func(b *B) Pred {
			return func(st *State, got *Term) int {
				return b.instant(st, got, b.timeConst("2019-02-03T22:48:19.043Z"))
			}
		}, more: []goDef{{"parsed", func(b *B) *Term { return b.strAny("2019-02-03T22:48:19.043Z") }, nil},
			{"a value", func(b *B) *Term {
				x := b.obj("Timestamp", F{})
				return b.any(x.t, b.newObj("ts", b.stamp(b.timeConst("2019-02-03T22:48:19.043Z")), b.typ("Timestamp")))
			}, nil}}})
	return ps
}

var goPlaces = []string{"query", "header", "path"}

// place gives the location fields of a parameter and the text a request has there.
func place(p string, f F) F {
	switch p {
	case "query":
		f["Query"] = "q-n"
	case "header":
		f["Header"] = "X-Hd"
	case "path":
		f["Path"] = true
	}
	return f
}

func (b *B) inputText(p, name string) *Term {
	switch p {
	case "query":
		return b.e.T.mk(OCall, "query", nil, tString, nil, b.e.T.Str("q-n"))
	case "header":
		return b.e.T.mk(OCall, "header", nil, tString, nil, b.e.T.Str("X-Hd"))
	}
	return b.e.T.mk(OCall, "pathvar", nil, tString, nil, b.e.T.Str(name))
}

func (b *B) goService(acts ...*Term) *Term {
	others, _ := b.goOthers()
	others = append(others, b.tdef("NotFound", F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}),
		b.tdef("Teapot", F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}),
		b.tdef("Conflict", F{"Type": "Struct", "Fields": b.list(b.field("why", F{"Type": "String"}))}))
	return b.newModel(F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Types": b.list(others...), "Http": b.list(acts...)})
}

// goServer is a generated server in a fresh state, with the routes it registered.
type goServer struct {
	b      *B
	o      *O
	g      *GenGo
	st     *State
	router *Term
}

type implResult func(b *B, c *callCtx) *Term

// serve loads the server and registers its routes; impl is what the implementation does for every action.
func (o *O) serve(g *GenGo, sc *Scenario, acts []string, impl implResult, f func(s *goServer)) {
	o.serveAt("http://host/base/", g, sc, acts, impl, f)
}

func (o *O) serveAt(base string, g *GenGo, sc *Scenario, acts []string, impl implResult, f func(s *goServer)) {
	if sc == nil {
		sc = &Scenario{}
	}
	more := map[string]model{}
	var bb *B
	for _, a := range acts {
		a := a
		more["iface."+a] = func(e *Engine, c *callCtx, args []*Term) []Ret {
			e.world(c.st, e.T.mk(OCall, "impl", nil, nil, nil, e.T.Str(a), e.snapshot(c.st, args[1], 8)))
			return one(c, impl(bb, c))
		}
	}
	sc.calls = httpCalls(0, more)
	if sc.nils == nil {
		sc.nils = map[string]bool{}
	}
	for _, n := range []string{"impl:" + g.q, "w", "form", "inheader", "reqbody", "vars"} {
		sc.nils[n] = false
	}
	if sc.fails == nil {
		sc.fails = map[string]int{}
	}
	for _, n := range []string{"form", "json", "url"} {
		if _, ok := sc.fails[n]; !ok {
			sc.fails[n] = 0
		}
	}
	g.sub(o, sc, func(b *B) {
		bb = b
		b.home = g.q
		b.e.building = true
		im := b.sym("impl:"+g.q, b.typ("Svc"))
		rs := b.call(nil, "", "InitServer", im, b.e.T.Str(base))
		if len(rs) != 1 || rs[0].kind != RReturn {
			o.expect(rs, "registering the routes must succeed", func(r Ret) int { return boolInt(r.kind == RReturn) })
			o.undecided("registering the routes has several outcomes")
			return
		}
		h := rs[0].val
		if h.op == OIface {
			h = h.args[0]
		}
		f(&goServer{b: b, o: o, g: g, st: rs[0].st, router: h})
	})
}

// routes lists "METHOD pattern" and the handlers.
func (s *goServer) routes() (names []string, handlers []*Term, ok bool) {
	rs, known := s.b.items(s.b.get(s.st, s.router, "Routes"))
	if !known {
		return nil, nil, false
	}
	for _, r := range rs {
		pat, ok1 := s.b.get(s.st, r, "Pattern").isStr()
		vs, ok2 := s.b.items(s.b.get(s.st, r, "Verbs"))
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		var ms []string
		for _, v := range vs {
			m, ok := v.isStr()
			if !ok {
				return nil, nil, false
			}
			ms = append(ms, m)
		}
		names = append(names, strings.Join(ms, ",")+" "+pat)
		h := s.b.get(s.st, r, "Func")
		if h.op != OClosure {
			h = s.b.get(s.st, r, "Handle")
			if h.op == OIface {
				h = h.args[0]
			}
		}
		handlers = append(handlers, h)
	}
	return names, handlers, true
}

// request runs a handler on an arbitrary request.
func (s *goServer) request(h *Term) []Ret {
	b := s.b
	if h.op != OClosure {
		s.o.undecided("handler not determined: " + h.Path())
		return nil
	}
	rt := b.e.P.extType("net/http", "Request")
	st := under(rt).(*types.Struct)
	f := F{"Form": b.sym("form", fieldType(st, "Form")), "PostForm": b.sym("postform", fieldType(st, "PostForm")), "Header": b.sym("inheader", fieldType(st, "Header")), "Body": b.sym("reqbody", fieldType(st, "Body"))}
	ut := b.e.P.extType("net/url", "URL")
	b.n++
	b.st = s.st.clone()
	f["URL"] = b.newObj("url", b.svT(ut, F{"Path": b.sym("urlpath", tString)}), ut)
	req := b.newObj("req", b.svT(rt, f), rt)
	w := b.sym("w", b.e.P.extType("net/http", "ResponseWriter"))
	run := b.st.clone()
	delete(run.heap, "w:out")
	delete(run.heap, "form:parsed")
	return b.e.callBody(run, h.fn, []*Term{w, req}, h.args, "h"+fmt.Sprint(b.n), "")
}

func fieldType(s *types.Struct, name string) types.Type {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	panic(anchorLost{"field " + name})
}

// reply is what a handler sent.
type reply struct {
	impl    string
	req     *Term // snapshot of the request given to the implementation
	calls   int
	headers map[string][]*Term
	late    bool // a header was set after the status was sent
	status  []*Term
	body    *Term
	ok      bool
}

func (b *B) reply(st *State) reply {
	r := reply{headers: map[string][]*Term{}, body: b.e.T.Str("")}
	xs, ok := b.record(st)
	r.ok = ok
	for _, x := range xs {
		switch x.s {
		case "impl":
			r.impl, _ = x.args[0].isStr()
			r.req = x.args[1]
			r.calls++
		case "sethdr":
			if n, ok := x.args[0].isStr(); ok {
				r.headers[n] = append(r.headers[n], x.args[1])
			} else {
				r.ok = false
			}
			if len(r.status) > 0 {
				r.late = true
			}
		case "status":
			r.status = append(r.status, x.args[0])
		case "stdw", "unknownwriter":
			r.body = b.e.cat(r.body, x.args[0])
		default:
			r.ok = false
		}
	}
	return r
}

var theNil = &Term{op: ONil}

// entityOf is the value whose JSON the text is; nothing is as good as null.
func entityOf(t *Term) *Term {
	if s, ok := t.isStr(); ok && strings.TrimSpace(s) == "" {
		return theNil
	}
	if t.op == OCat && len(t.args) > 0 {
		for _, x := range t.args[1:] {
			if s, ok := x.isStr(); !ok || strings.TrimSpace(s) != "" {
				return nil
			}
		}
		t = t.args[0]
	}
	if t.op != OCall || !strings.HasPrefix(t.s, "json") || len(t.args) == 0 {
		return nil
	}
	v := t.args[0]
	for v.op == OIface || v.op == OCall && v.s == "&" {
		v = v.args[0]
	}
	return v
}

// snapField reads a field of a snapshot.
func (b *B) snapField(v *Term, name string) *Term {
	for v.op == OIface || v.op == OCall && v.s == "&" {
		v = v.args[0]
	}
	if v.op != OStruct && v.op != OZero {
		return nil
	}
	return b.fieldOf(v, v.t, name)
}

// replies requires every outcome of a handler to be a reply that satisfies pred ("" when it does).
func (o *O) replies(rs []Ret, what string, pred func(r Ret, p reply) string) {
	b := o.b
	o.expect(rs, what, func(r Ret) int {
		if r.kind != RReturn {
			return 0
		}
		p := b.reply(r.st)
		if o.c.debug {
			xs, _ := b.record(r.st)
			for _, x := range xs {
				fmt.Println("      sent", x.Path())
			}
		}
		if !p.ok {
			return -1
		}
		s := pred(r, p)
		if s == "?" {
			return -1
		}
		if s != "" {
			o.fail("golang.Export (generated handler "+r.where(o.c.p)+")", what+": "+s, r.st)
		}
		return 1
	})
}

func (b *B) statusIs(p reply, n int) string {
	if len(p.status) != 1 {
		return fmt.Sprintf("%d statuses are sent", len(p.status))
	}
	v, ok := p.status[0].isInt()
	if !ok {
		return "?"
	}
	if v != int64(n) {
		return fmt.Sprintf("the status is %d, not %d", v, n)
	}
	if p.late {
		return "a header is set after the status was sent, which has no effect"
	}
	ct := p.headers["Content-Type"]
	if len(ct) != 1 {
		return "the content type is not sent"
	}
	if s, ok := ct[0].isStr(); !ok || !strings.HasPrefix(s, "application/json") {
		return "the content type is not JSON"
	}
	return ""
}

func runC25(c *C) {
	goTrips(c)
	tInner := func(b *B) types.Type { return b.typ("Inner") }
	okImpl := func(f func(b *B, c *callCtx) F) implResult {
		return func(b *B, c *callCtx) *Term {
			t := b.typ("GetItResponse")
			old := b.st
			b.st = c.st
			v := b.svT(t, f(b, c))
			p := b.newObj("res", v, t)
			b.st = old
			return b.e.T.Tuple(p, b.e.T.Nil())
		}
	}
	plain := okImpl(func(b *B, c *callCtx) F { return F{} })
	gen := func(b *B, o *O, what string, opts []string, acts ...*Term) *GenGo {
		return o.goCode(b.goExport(b.goService(acts...), opts...), what)
	}
	// routes
	methods := []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}
	for _, m := range methods {
		m := m
		c.check("server route "+m, nil, func(b *B, o *O) {
			id := b.param(F{"Name": "id", "Type": "Label", "Path": true})
			q := b.param(F{"Name": "q", "Type": "Label", "Query": "q"})
			g := gen(b, o, "a server", []string{"server"}, b.action("getIt", F{"Method": m, "Path": "/x/{id}?q={q}", "Inputs": b.list(id, q)}), b.action("getOther", F{"Method": m, "Path": "/y"}))
			if g == nil {
				return
			}
			o.serve(g, nil, []string{"GetIt", "GetOther"}, plain, func(s *goServer) {
				names, hs, ok := s.routes()
				if !ok {
					o.undecided("routes not determined")
					return
				}
				sort.Strings(names)
				if strings.Join(names, "; ") != m+" /base/x/{id}; "+m+" /base/y" {
					o.goFail(g, "InitServer", fmt.Sprintf("the routes must be %s /base/x/{id} and %s /base/y, they are %v", m, m, names))
					return
				}
				names, hs, _ = s.routes()
				for i, h := range hs {
					want := "GetIt"
					if strings.HasSuffix(names[i], "/y") {
						want = "GetOther"
					}
					o.replies(s.request(h), "a request for "+names[i]+" must reach "+want, func(r Ret, p reply) string {
						if p.calls != 1 || p.impl != want {
							return fmt.Sprintf("%d calls, of %q", p.calls, p.impl)
						}
						return ""
					})
				}
				nf := s.b.get(s.st, s.router, "NotFoundHandler")
				if nf.op == OIface {
					nf = nf.args[0]
				}
				o.replies(s.request(nf), "a request for another path must be answered with 404", func(r Ret, p reply) string { return o.b.statusIs(p, 404) })
			})
		})
	}
	for _, base := range []string{"http://host", "http://host/", "http://host/api/v1", "http://host/v1/1", "https://host:4080/base", "http://host/Base/", "http://host/a-b_c.d", "http://host/x/", "/y", ""} {
		base := base
		c.check(fmt.Sprintf("server at %q", base), nil, func(b *B, o *O) {
			g := gen(b, o, "a server", []string{"server"}, b.action("getIt", F{"Method": "GET", "Path": "/x/{id}", "Inputs": b.list(b.param(F{"Name": "id", "Type": "Label", "Path": true}))}))
			if g == nil {
				return
			}
			u, err := url.Parse(base)
			if err != nil {
				return
			}
			want := "GET " + strings.TrimSuffix(u.Path, "/") + "/x/{id}"
			o.serveAt(base, g, nil, []string{"GetIt"}, plain, func(s *goServer) {
				names, _, ok := s.routes()
				if !ok {
					o.undecided("routes not determined")
				} else if len(names) != 1 || names[0] != want {
					o.goFail(g, "InitServer", fmt.Sprintf("the routes must be [%s], they are %v", want, names))
				}
			})
		})
	}
	// inputs
	for _, gp := range goParams() {
		gp := gp
		for _, pl := range goPlaces {
			pl := pl
			defs := []goDef{{name: "false"}}
			if gp.def != nil {
				defs = append(defs, goDef{"true", gp.def, gp.isDef})
			}
			for _, dd := range append(defs, gp.more...) {
				dd, gp := dd, gp
				dflt := dd.def != nil
				gp.def, gp.isDef = dd.def, dd.is
				c.check(fmt.Sprintf("server %s input of type %s, default %s", pl, gp.typ, dd.name), nil, func(b *B, o *O) {
					f := place(pl, F{"Name": "one", "Type": gp.typ})
					if dflt {
						f["Default"] = gp.def(b)
					}
					pathS := "/x"
					if pl == "path" {
						pathS = "/x/{one}"
					}
					body := b.param(F{"Name": "item", "Type": "Inner"})
					g := gen(b, o, "a server with a "+gp.typ+" "+pl+" parameter", []string{"server"}, b.action("getIt", F{"Method": "PUT", "Path": pathS, "Inputs": b.list(b.param(f), body)}))
					if g == nil {
						return
					}
					for _, given := range []bool{true, false} {
						given := given
						sc := &Scenario{fails: map[string]int{}}
						if gp.fails != "" && gp.typ != "Timestamp" {
							sc.fails[gp.fails] = 0
						}
						sc.decoded = func(e *Engine, st *State, kind string, t types.Type) *Term {
							return e.T.mk(OSym, "entity:"+types.TypeString(t, nil), nil, t, nil)
						}
						o.serve(g, sc, []string{"GetIt"}, plain, func(s *goServer) {
							b := s.b
							text := b.inputText(pl, "one")
							if !given {
								b.pin(text.npath(), "")
							} else if gp.typ == "Timestamp" {
								b.pin(text.npath(), "2020-02-29T01:02:03.004Z")
							}
							_, hs, ok := s.routes()
							if !ok || len(hs) != 1 {
								o.undecided("routes not determined")
								return
							}
							what := fmt.Sprintf("the implementation must be given the %s parameter (present %v, default %v)", pl, given, dflt)
							o.replies(s.request(hs[0]), what, func(r Ret, p reply) string {
								if p.calls != 1 {
									return fmt.Sprintf("%d calls of the implementation", p.calls)
								}
								one := b.snapField(p.req, "One")
								if one == nil {
									return "?"
								}
								pred := eqPred(b, gp.zero(b))
								switch {
								case given && gp.typ == "Timestamp":
									pred = func(st *State, got *Term) int {
										return b.instant(st, got, b.timeConst("2020-02-29T01:02:03.004Z"))
									}
								case given:
									pred = gp.read(b, text)
									// an empty text counts as absent
									if n := b.e.isEmpty(r.st, text); n == 1 {
										return ""
									}
								case dflt && gp.typ == "Timestamp":
									pred = func(st *State, got *Term) int {
										return b.instant(st, got, b.timeConst("2019-02-03T22:48:19.043Z"))
									}
								case dflt:
									pred = gp.isDef(b)
								}
								switch pred(r.st, one) {
								case 0:
									return "it is given " + one.Path()
								case -1:
									return "?"
								}
								it := b.snapField(p.req, "Item")
								if it == nil || !strings.Contains(it.Path(), "entity") {
									return "the entity of the request is not given"
								}
								return b.statusIs(p, 200)
							})
						})
					}
				})
			}
		}
	}
	// malformed entities and forms
	c.check("server refuses a malformed request", nil, func(b *B, o *O) {
		body := b.param(F{"Name": "item", "Type": "Inner"})
		q := b.param(F{"Name": "q", "Type": "String", "Query": "q"})
		g := gen(b, o, "a server", []string{"server"}, b.action("getIt", F{"Method": "POST", "Inputs": b.list(q, body)}))
		if g == nil {
			return
		}
		for _, op := range []string{"json", "form"} {
			o.serve(g, &Scenario{fails: map[string]int{op: 1}}, []string{"GetIt"}, plain, func(s *goServer) {
				_, hs, ok := s.routes()
				if !ok || len(hs) != 1 {
					o.undecided("routes not determined")
					return
				}
				o.replies(s.request(hs[0]), "a malformed request must be answered with 400 and not reach the implementation", func(r Ret, p reply) string {
					if p.calls != 0 {
						return "the implementation is called"
					}
					return o.b.statusIs(p, 400)
				})
			})
		}
	})
	// results
	for _, status := range []int{200, 201, 202, 204, 304} {
		status := status
		for _, outs := range []string{"none", "entity", "header", "entity+header"} {
			outs := outs
			c.check(fmt.Sprintf("server result %d with %s", status, outs), nil, func(b *B, o *O) {
				var ps []*Term
				if strings.Contains(outs, "header") {
					ps = append(ps, b.param(F{"Name": "loc", "Type": "Label", "Header": "x-loc"}), b.param(F{"Name": "num", "Type": "Int32", "Header": "X-Num"}), b.param(F{"Name": "mod", "Type": "Timestamp", "Header": "Last-Modified"}), b.param(F{"Name": "at", "Type": "Timestamp", "Header": "X-At"}),
						b.param(F{"Name": "exp", "Type": "Timestamp", "Header": "Expires"}), b.param(F{"Name": "date", "Type": "Timestamp", "Header": "date"}))
				}
				if strings.Contains(outs, "entity") {
					ps = append(ps, b.param(F{"Name": "item", "Type": "Inner"}))
				}
				g := gen(b, o, "a server", []string{"server"}, b.action("getIt", F{"Expected": b.expected(status, ps...)}))
				if g == nil {
					return
				}
				for _, zone := range []string{"2019-02-03T22:48:19.043Z", "2019-02-04T00:48:19.043+02:00", "2019-02-03T17:18:19.043-05:30", ""} {
					zone := zone
					set := zone != ""
					impl := okImpl(func(b *B, c *callCtx) F {
						f := F{}
						if set {
							if strings.Contains(outs, "header") {
								f["Loc"] = b.atom("loc")
								f["Num"] = b.e.T.Int(9)
								ts := b.newObj("ts", b.stamp(b.timeConst(zone)), b.typ("Timestamp"))
								f["Mod"], f["At"], f["Exp"], f["Date"] = ts, ts, ts, ts
							}
							if strings.Contains(outs, "entity") {
								f["Item"] = b.newObj("it", b.svT(tInner(b), F{"X": b.atom("text")}), tInner(b))
							}
						}
						return f
					})
					o.serve(g, nil, []string{"GetIt"}, impl, func(s *goServer) {
						b := s.b
						_, hs, ok := s.routes()
						if !ok || len(hs) != 1 {
							o.undecided("routes not determined")
							return
						}
						o.replies(s.request(hs[0]), fmt.Sprintf("the result (set %v) must be sent as declared", set), func(r Ret, p reply) string {
							if e := b.statusIs(p, status); e != "" {
								return e
							}
							want := map[string]*Term{}
							if strings.Contains(outs, "header") {
								if set {
									want["X-Loc"], want["X-Num"] = b.atom("loc"), b.e.T.Str("9")
									for _, n := range []string{"Last-Modified", "Expires", "Date"} {
										want[n] = b.e.T.Str("Sun, 03 Feb 2019 22:48:19 GMT")
									}
									want["X-At"] = b.e.T.Str("2019-02-03T22:48:19.043Z")
								}
								for _, n := range []string{"Last-Modified", "X-At", "Expires", "Date"} {
									if vs := p.headers[n]; !set && len(vs) > 0 {
										return "the header " + n + " has no value, and " + vs[0].Path() + " is sent"
									}
								}
							}
							for n, v := range want {
								vs := p.headers[n]
								if len(vs) != 1 {
									return fmt.Sprintf("the header %s is sent %d times", n, len(vs))
								}
								switch b.same(r.st, vs[0], v) {
								case 0:
									return "the header " + n + " is " + vs[0].Path() + ", not " + v.Path()
								case -1:
									return "?"
								}
							}
							for n := range p.headers {
								if set && n != "Content-Type" && want[n] == nil {
									return "an undeclared header is sent: " + n
								}
							}
							if status == 204 || status == 304 {
								return ""
							}
							e := entityOf(p.body)
							if e == nil {
								return "?"
							}
							if strings.Contains(outs, "entity") && set {
								x := b.snapField(e, "X")
								if x == nil || x != b.atom("text") {
									return "the entity is " + e.Path()
								}
							} else if e.op != ONil {
								return "an entity is sent: " + e.Path()
							}
							return ""
						})
					})
				}
			})
		}
	}
	// exceptions
	for i, kind := range []string{"NotFound", "Conflict", "undeclared", "text", "NotFound", "Conflict", "NotFound", "Conflict", "NotFound", "Conflict"} {
		kind := kind
		sts := [][2]int{{404, 409}, {404, 409}, {302, 304}, {201, 503}, {400, 599}}[i/2]
		c.check(fmt.Sprintf("server exception %s (%d or %d)", kind, sts[0], sts[1]), nil, func(b *B, o *O) {
			excs := b.list(b.obj("HttpExceptionSpec", F{"Status": sts[0], "Type": "NotFound"}), b.obj("HttpExceptionSpec", F{"Status": sts[1], "Type": "Conflict"}))
			g := gen(b, o, "a server", []string{"server"}, b.action("getIt", F{"Exceptions": excs, "Expected": b.expected(200, b.param(F{"Name": "item", "Type": "Inner"}), b.param(F{"Name": "loc", "Type": "Label", "Header": "X-Loc"}))}),
				b.action("other", F{"Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": 418, "Type": "Teapot"}))}))
			if g == nil {
				return
			}
			impl := func(b *B, c *callCtx) *Term {
				e := b.e
				old := b.st
				b.st = c.st
				defer func() { b.st = old }()
				t := "NotFound"
				f := F{"Msg": b.atom("msg")}
				switch kind {
				case "text":
					return e.T.Tuple(e.T.Nil(), e.T.Err(e.T.Str("boom")))
				case "Conflict":
					t, f = "Conflict", F{"Why": b.atom("msg")}
				case "undeclared":
					t, f = "Teapot", F{"Msg": b.atom("msg")}
				}
				x := b.obj(t, f)
				return e.T.Tuple(e.T.Nil(), b.any(x.t, x))
			}
			o.serve(g, nil, []string{"GetIt", "Other"}, impl, func(s *goServer) {
				b := s.b
				names, hs, ok := s.routes()
				if !ok {
					o.undecided("routes not determined")
					return
				}
				_ = names
				want := map[string]int{"NotFound": sts[0], "Conflict": sts[1]}[kind]
				if want == 0 {
					want = 500
				}
				o.replies(s.request(hs[0]), "the error "+kind+" must be answered with its status and value", func(r Ret, p reply) string {
					if e := b.statusIs(p, want); e != "" {
						return e
					}
					e := entityOf(p.body)
					if e == nil {
						return "?"
					}
					if want != 500 {
						if !strings.Contains(e.Path(), "@msg") {
							return "the entity is " + e.Path()
						}
						if g.typeText(e.t) != kind {
							return "the entity is a " + g.typeText(e.t)
						}
					}
					return ""
				})
			})
		})
	}
	// client
	ct := func(b *B) *Term { return b.obj("SvcClient", F{"Target": "http://host/base"}) }
	clientCalls, sentBy := goClientCalls, goSentBy
	c.check("client construction", nil, func(b *B, o *O) {
		g := gen(b, o, "a client", []string{"client"}, b.action("getIt", F{}))
		if g == nil {
			return
		}
		g.sub(o, clientCalls(200, nil), func(b *B) {
			b.home = g.q
			for _, t := range []string{"http://t", "https://Host.example:4080/Base/v1", "http://10.0.0.1/%7Ex", ""} {
				rs := b.call(nil, "", "NewClient", b.e.T.Str(t))
				o.accept(rs, "every target")
				o.matches(rs, "the client must keep its target", D{F{"Target": t}})
			}
		})
	})
	type clientCase struct {
		name   string
		f      F
		req    func(b *B) F
		url    func(b *B) []*Term
		hdr    func(b *B) map[string]*Term
		body   bool
		method string
	}
	runClient := func(name, method, pathS string, ins func(b *B) []*Term, req func(b *B) F, url func(b *B) *Term, hdr func(b *B) map[string]*Term, body func(b *B, s *Term) string) {
		c.check(name, nil, func(b *B, o *O) {
			g := gen(b, o, "a client", []string{"client"}, b.action("getIt", F{"Method": method, "Path": pathS, "Inputs": b.list(ins(b)...)}))
			if g == nil {
				return
			}
			g.sub(o, clientCalls(200, nil), func(b *B) {
				b.home = g.q
				b.e.building = true
				rs := b.call(nil, "", "SvcClient.GetIt", ct(b), b.obj("GetItRequest", req(b)))
				o.accept(rs, "the request")
				o.expect(rs, "the request must be sent as declared", func(r Ret) int {
					x := sentBy(b, r.st)
					if o.c.debug {
						ys, _ := b.record(r.st)
						for _, y := range ys {
							fmt.Println("      sent", y.Path())
						}
					}
					if !x.ok {
						return -1
					}
					bad := func(s string) int {
						o.fail("golang.Export (generated client "+r.where(o.c.p)+")", name+": "+s, r.st)
						return 1
					}
					if x.n != 1 || x.do != 1 {
						return bad(fmt.Sprintf("%d requests are built and %d are sent", x.n, x.do))
					}
					if n, w := b.match(r.st, x.method, method, "the method"); n == 0 {
						return bad(w)
					} else if n < 0 {
						return -1
					}
					want := url(b)
					switch b.same(r.st, x.url, want) {
					case 0:
						return bad("the URL is " + x.url.Path() + ", not " + want.Path())
					case -1:
						return -1
					}
					wh := hdr(b)
					for n, v := range wh {
						if x.headers[n] == nil {
							return bad("the header " + n + " is not sent")
						}
						switch b.same(r.st, x.headers[n], v) {
						case 0:
							return bad("the header " + n + " is " + x.headers[n].Path() + ", not " + v.Path())
						case -1:
							return -1
						}
					}
					for n := range x.headers {
						if wh[n] == nil && n != "Content-Type" && n != "Accept" {
							return bad("the header " + n + " is sent")
						}
					}
					if e := body(b, x.body); e == "?" {
						return -1
					} else if e != "" {
						return bad(e)
					} else if x.body.op != ONil {
						if h := x.headers["Content-Type"]; h == nil {
							return bad("the content type is not sent")
						} else if s, ok := h.isStr(); !ok || !strings.HasPrefix(s, "application/json") {
							return bad("the content type is not JSON")
						}
					}
					return 1
				})
			})
		})
	}
	noBody := func(b *B, s *Term) string {
		if s.op != ONil {
			return "an entity is sent: " + s.Path()
		}
		return ""
	}
	none := func(b *B) map[string]*Term { return nil }
	target := "http://host/base"
	for _, gp := range goParams() {
		gp := gp
		for _, pl := range goPlaces {
			pl := pl
			for _, set := range []bool{true, false} {
				set := set
				if pl == "path" && !set {
					continue
				}
				pathS := "/x"
				if pl == "path" {
					pathS = "/x/{one}/y"
				}
				runClient(fmt.Sprintf("client %s input of type %s, set %v", pl, gp.typ, set), "GET", pathS,
					func(b *B) []*Term { return []*Term{b.param(place(pl, F{"Name": "one", "Type": gp.typ}))} },
					func(b *B) F {
						v := gp.zero(b)
						if set {
							v, _ = gp.value(b)
						}
						return F{"One": v}
					},
					func(b *B) *Term {
						_, text := gp.value(b)
						esc := func(n string) *Term {
							r := b.e.sc.calls["net/url."+n](b.e, &callCtx{st: b.st, rt: tString}, []*Term{text})
							return r[0].val
						}
						switch {
						case pl == "path":
							return b.e.cat(b.e.T.Str(target+"/x/"), esc("PathEscape"), b.e.T.Str("/y"))
						case pl == "query" && set:
							return b.e.cat(b.e.T.Str(target+"/x?q-n="), esc("QueryEscape"))
						}
						return b.e.T.Str(target + "/x")
					},
					func(b *B) map[string]*Term {
						if pl == "header" && set {
							_, text := gp.value(b)
							return map[string]*Term{http.CanonicalHeaderKey("X-Hd"): text}
						}
						return nil
					}, noBody)
			}
		}
	}
	// several parameters
	runClient("client with several parameters", "GET", "/x/{a}/{b}?p={c}&q={d}", func(b *B) []*Term {
		return []*Term{b.param(F{"Name": "a", "Type": "Label", "Path": true}), b.param(F{"Name": "b", "Type": "Int32", "Path": true}), b.param(F{"Name": "c", "Type": "String", "Query": "p"}), b.param(F{"Name": "d", "Type": "Int64", "Query": "q"})}
	}, func(b *B) F {
		return F{"A": b.e.T.Str("u/v w"), "B": b.e.T.Int(0), "C": b.e.T.Str("a&b=c d"), "D": b.e.T.Int(-5)}
	}, func(b *B) *Term { return b.e.T.Str(target + "/x/u%2Fv%20w/0?p=a%26b%3Dc+d&q=-5") }, none, noBody)
	for _, m := range methods {
		m := m
		runClient("client method "+m, m, "/x", func(b *B) []*Term { return nil }, func(b *B) F { return F{} }, func(b *B) *Term { return b.e.T.Str(target + "/x") }, none, noBody)
	}
	for _, m := range []string{"PUT", "POST", "PATCH"} {
		m := m
		runClient("client entity "+m, m, "/x", func(b *B) []*Term { return []*Term{b.param(F{"Name": "item", "Type": "Inner"})} },
			func(b *B) F { return F{"Item": b.obj("Inner", F{"X": b.atom("text")})} },
			func(b *B) *Term { return b.e.T.Str(target + "/x") }, none, func(b *B, s *Term) string {
				if s.op == ONil {
					return "the entity is not sent"
				}
				e := entityOf(s)
				if e == nil {
					return "?"
				}
				if x := b.snapField(e, "X"); x != b.atom("text") {
					return "the entity is " + e.Path()
				}
				return ""
			})
	}
	// answers
	for _, st := range []int{200, 201, 404, 409, 500, 302, 204, 304, 400, 599} {
		st := st
		exp, exc := 201, [2]int{404, 409}
		switch st {
		case 204, 599:
			exp, exc = 204, [2]int{304, 599}
		case 304, 400:
			exp, exc = 304, [2]int{400, 204}
		}
		for _, outs := range []string{"none", "entity", "header", "entity+header"} {
			outs := outs
			for _, bad := range []int{0, 1} {
				bad := bad
				c.check(fmt.Sprintf("client answer %d with %s, malformed %d", st, outs, bad), nil, func(b *B, o *O) {
					var ps []*Term
					if strings.Contains(outs, "header") {
						ps = append(ps, b.param(F{"Name": "loc", "Type": "Label", "Header": "x-loc"}), b.param(F{"Name": "num", "Type": "Int32", "Header": "X-Num"}), b.param(F{"Name": "mod", "Type": "Timestamp", "Header": "Last-Modified"}), b.param(F{"Name": "at", "Type": "Timestamp", "Header": "X-At"}),
							b.param(F{"Name": "big", "Type": "Int64", "Header": "X-Big"}), b.param(F{"Name": "little", "Type": "Int64", "Header": "X-Little"}), b.param(F{"Name": "id", "Type": "UUID", "Header": "X-Id"}))
					}
					if strings.Contains(outs, "entity") {
						ps = append(ps, b.param(F{"Name": "item", "Type": "Inner"}))
					}
					excs := b.list(b.obj("HttpExceptionSpec", F{"Status": exc[0], "Type": "NotFound"}), b.obj("HttpExceptionSpec", F{"Status": exc[1], "Type": "Conflict"}))
					g := gen(b, o, "a client", []string{"client"}, b.action("getIt", F{"Expected": b.expected(exp, ps...), "Exceptions": excs}))
					if g == nil {
						return
					}
					sc := &Scenario{fails: map[string]int{"json": bad}}
					sc.decoded = func(e *Engine, st *State, kind string, t types.Type) *Term {
						return e.T.mk(OSym, "decoded:"+types.TypeString(t, nil), nil, t, nil)
					}
					g.sub(o, clientCalls(st, sc), func(b *B) {
						b.home = g.q
						b.pin(`header("Last-Modified")`, "Sun, 03 Feb 2019 22:48:19 GMT")
						b.pin(`header("X-At")`, "2019-02-03T22:48:19.043Z")
						b.pin(`header("X-Big")`, "9007199254740993")
						b.pin(`header("X-Little")`, "-9223372036854775808")
						sc.fails["strconv.Atoi"] = 0
						rs := b.call(nil, "", "SvcClient.GetIt", ct(b), b.obj("GetItRequest", F{}))
						decodes := st == exp && strings.Contains(outs, "entity") || st == exc[0] || st == exc[1]
						switch {
						case st == exp && !(bad == 1 && decodes):
							want := F{}
							if strings.Contains(outs, "entity") {
								want["Item"] = Pred(func(s *State, got *Term) int {
									if got.unk() {
										return -1
									}
									return boolInt(got.op == OSym && strings.HasPrefix(got.s, "decoded:"))
								})
							}
							if strings.Contains(outs, "header") {
								want["Loc"] = b.e.T.Call("header", tString, b.e.T.Str("X-Loc"))
								want["Num"] = callPred(b, "atoi", b.e.T.Call("header", tString, b.e.T.Str("X-Num")), ":10:32")
								want["Big"], want["Little"] = b.e.T.Int(9007199254740993), b.e.T.Int(-9223372036854775808)
								want["Id"] = b.e.T.Call("header", tString, b.e.T.Str("X-Id"))
								want["Mod"] = Pred(func(s *State, got *Term) int {
									return b.instant(s, got, b.timeConst("2019-02-03T22:48:19Z"))
								})
								want["At"] = Pred(func(s *State, got *Term) int {
									return b.instant(s, got, b.timeConst("2019-02-03T22:48:19.043Z"))
								})
							}
							o.matches(rs, "the answer must be the response", D{want})
						case (st == exc[0] || st == exc[1]) && bad == 0:
							o.expect(rs, "the answer must be the exception", func(r Ret) int {
								e := errOf(r)
								if r.kind != RReturn {
									return 0
								}
								if e.unk() {
									return -1
								}
								name := map[int]string{exc[0]: "*NotFound", exc[1]: "*Conflict"}[st]
								if e.op != OIface || g.typeText(e.t) != name {
									return 0
								}
								return boolInt(e.args[0].op == OSym && strings.HasPrefix(e.args[0].s, "decoded:"))
							})
						default:
							o.reject(rs, "the answer")
							if st != exc[0] && st != exc[1] {
								break
							}
							o.expect(rs, "an exception that cannot be read must be an error of its own", func(r Ret) int {
								e := errOf(r)
								if r.kind != RReturn || e.unk() {
									return boolInt(r.kind != RReturn) - 1
								}
								if e.op == OIface && (g.typeText(e.t) == "*NotFound" || g.typeText(e.t) == "*Conflict") {
									return 0
								}
								return 1
							})
						}
					})
				})
			}
		}
	}
	for _, op := range []string{"newrequest", "do"} {
		op := op
		c.check("client reports a failing "+op, nil, func(b *B, o *O) {
			g := gen(b, o, "a client", []string{"client"}, b.action("getIt", F{}))
			if g == nil {
				return
			}
			g.sub(o, clientCalls(200, &Scenario{fails: map[string]int{op: 1}}), func(b *B) {
				b.home = g.q
				o.reject(b.call(nil, "", "SvcClient.GetIt", ct(b), b.obj("GetItRequest", F{})), "a request that could not be sent")
			})
		})
	}
	// everything together, for every method and number of actions
	for n := 0; n <= 3; n++ {
		n := n
		c.check(fmt.Sprintf("model, server and client of %d actions", n), nil, func(b *B, o *O) {
			var acts []*Term
			for i := 0; i < n; i++ {
				var ins, outs []*Term
				if i > 0 {
					ins = append(ins, b.param(F{"Name": "id", "Type": "Label", "Path": true}), b.param(F{"Name": "item", "Type": "Inner"}))
					outs = append(outs, b.param(F{"Name": "item", "Type": "Inner"}))
				}
				p := "/x"
				if i > 0 {
					p = "/x/{id}"
				}
				acts = append(acts, b.action(b.atom(fmt.Sprint("act", i)), F{"Method": []string{"GET", "PUT", "POST"}[i], "Path": p, "Inputs": b.list(ins...), "Expected": b.expected(200, outs...),
					"Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": 404, "Type": "NotFound"}))}))
			}
			g := gen(b, o, "a service", []string{"server", "client"}, acts...)
			if g == nil {
				return
			}
			ms := g.methods("SvcClient")
			for i := 0; i < n; i++ {
				a := fmt.Sprint("Act", i)
				want := "func(req *" + a + "Request) (*" + a + "Response, error)"
				if ms[a] != want {
					o.goFail(g, "SvcClient", "the client must have "+a+" "+want+", not "+ms[a])
				}
			}
			if it, ok := g.obj("Svc").Type().Underlying().(*types.Interface); ok && !types.Implements(types.NewPointer(g.obj("SvcClient").Type()), it) {
				o.goFail(g, "SvcClient", "the client must implement the service interface")
			}
		})
	}
}

// instant compares a Timestamp with an instant; none at all is not it.
func (b *B) instant(st *State, got, want *Term) int {
	for got.op == OIface || got.op == OCall && got.s == "&" {
		got = got.args[0]
	}
	if got.op == ONil {
		return 0
	}
	return b.same(st, b.timeOf(st, got), want)
}

func goClientCalls(status int, sc *Scenario) *Scenario {
	if sc == nil {
		sc = &Scenario{}
	}
	sc.calls = httpCalls(status, nil)
	if sc.fails == nil {
		sc.fails = map[string]int{}
	}
	for _, n := range []string{"newrequest", "do", "json"} {
		if _, ok := sc.fails[n]; !ok {
			sc.fails[n] = 0
		}
	}
	sc.nils = map[string]bool{"resbody": false, "inheader": false, "outheader": false}
	return sc
}

type sent struct {
	method, url, body *Term
	headers           map[string]*Term
	n, do             int
	ok                bool
}

func goSentBy(b *B, st *State) sent {
	x := sent{headers: map[string]*Term{}}
	xs, ok := b.record(st)
	x.ok = ok
	for _, y := range xs {
		switch y.s {
		case "request":
			x.method, x.url, x.body = y.args[0], y.args[1], y.args[2]
			x.n++
		case "sethdr":
			if n, ok := y.args[0].isStr(); ok {
				x.headers[n] = y.args[1]
			} else {
				x.ok = false
			}
			if x.do > 0 {
				x.ok = false
			}
		case "do":
			x.do++
		default:
			x.ok = false
		}
	}
	return x
}
