package main

// props_gotrip.go: round trips of one action with arbitrary names and statuses through the generated Go server and client.

import (
	"fmt"
	"go/types"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
)

// goText is the text of the value that stands for input or output number n, and the value it has in a field of this type.
func (b *B) goText(typ string, n int) (string, *Term) {
	switch typ {
	case "Int8", "Int16", "Int32", "Int64", "Small":
		return strconv.Itoa(11 + n), b.e.T.Int(int64(11 + n))
	case "Bool", "Flag":
		return "true", b.e.T.Bool(true)
	}
	s := fmt.Sprintf("v %d/&", n)
	return s, b.e.T.Str(s)
}

func (o *O) goTrip(b *B, t jtrip) {
	text := func(s string) any {
		if t.lit {
			return s
		}
		return b.atom(s)
	}
	params := func(l []jio) []*Term {
		var r []*Term
		for _, i := range l {
			f := F{"Name": text(i.name), "Type": i.typ, "Required": !i.opt}
			k, n, _ := strings.Cut(i.where, ":")
			switch k {
			case "path":
				f["Path"] = true
			case "query":
				f["Query"] = text(n)
			case "header":
				f["Header"] = text(n)
			}
			r = append(r, b.param(f))
		}
		return r
	}
	a := jact{name: t.name, method: t.method, path: t.path, status: t.status, excs: t.excs, generic: true, lit: t.lit, known: t.known, ins: func(b *B) []*Term { return params(t.ins) }, outs: func(b *B) []*Term { return params(t.outs) }}
	other := jact{name: "zzz", method: "GET", path: "/zzz", excs: t.excs}
	b0 := b
	o.goEach(b.goExport(b.goService(a.term(b), other.term(b)), "server", "client"), "the action", func(g *GenGo, num func(*Term) string) {
		code := func(n int) int {
			if t.known[n] {
				return n
			}
			k, _ := strconv.Atoi(num(b0.code(n)))
			return k
		}
		status := t.status
		if status == 0 {
			status = 200
		}
		status = code(status)
		act := strings.ToUpper(t.name[:1]) + t.name[1:]
		up := func(n string) string { return strings.ToUpper(n[:1]) + n[1:] }
		path, _, _ := strings.Cut(t.path, "?")
		// vars are the texts of a request
		vars := func(s *Scenario, calls map[string]model) {
			calls["github.com/gorilla/mux.Vars"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
				ob := &Obj{kind: KMap, typ: c.rt}
				for n, i := range t.ins {
					if i.where == "path" {
						text, _ := b.goText(i.typ, n)
						ob.ents = append(ob.ents, Ent{e.T.Str(i.name), e.T.Str(text), true})
					}
				}
				c.st.heap["vars"] = ob
				return one(c, e.T.Ptr("vars", c.rt))
			}
		}
		serve := func(impl implResult, f func(s *goServer, h *Term)) {
			sc := &Scenario{}
			sc.decoded = func(e *Engine, st *State, kind string, t types.Type) *Term {
				return e.T.mk(OSym, "decoded:"+types.TypeString(t, nil), nil, t, nil)
			}
			o.serve(g, sc, []string{act, "Zzz"}, impl, func(s *goServer) {
				vars(sc, sc.calls)
				for n, i := range t.ins {
					k, w, _ := strings.Cut(i.where, ":")
					text, _ := b.goText(i.typ, n)
					switch k {
					case "query":
						s.b.pin(s.b.e.T.mk(OCall, "query", nil, tString, nil, s.b.e.T.Str(w)).npath(), text)
					case "header":
						s.b.pin(s.b.e.T.mk(OCall, "header", nil, tString, nil, s.b.e.T.Str(http.CanonicalHeaderKey(w))).npath(), text)
					}
				}
				names, hs, ok := s.routes()
				if !ok {
					o.undecided("routes not determined")
					return
				}
				for i, n := range names {
					if n == t.method+" /base"+path {
						f(s, hs[i])
						return
					}
				}
				o.goFail(g, "InitServer", fmt.Sprintf("there must be a route %s /base%s, there are %v", t.method, path, names))
			})
		}
		serve(func(b *B, c *callCtx) *Term {
			rt := b.typ(act + "Response")
			old := b.st
			b.st = c.st
			f := F{}
			for n, i := range t.outs {
				if strings.HasPrefix(i.where, "header") {
					_, v := b.goText(i.typ, n)
					f[up(i.name)] = v
				} else if i.typ == "Inner" {
					f[up(i.name)] = b.newObj("it", b.svT(b.typ("Inner"), F{"X": b.atom("text")}), b.typ("Inner"))
				} else {
					_, v := b.goText(i.typ, n)
					f[up(i.name)] = v
				}
			}
			p := b.newObj("res", b.svT(rt, f), rt)
			b.st = old
			return b.e.T.Tuple(p, b.e.T.Nil())
		}, func(s *goServer, h *Term) {
			b := s.b
			o.replies(s.request(h), "the request must be answered with the result", func(r Ret, p reply) string {
				if p.calls != 1 || p.impl != act {
					return fmt.Sprintf("the implementation %s is called %d times", p.impl, p.calls)
				}
				for n, i := range t.ins {
					got := b.snapField(p.req, up(i.name))
					if got == nil {
						return "the request has no field " + up(i.name)
					}
					if i.where == "body" {
						if got.unk() {
							return "?"
						}
						if !strings.Contains(got.Path(), "decoded:") {
							return "the entity of the request is not given: " + got.Path()
						}
						continue
					}
					_, want := b.goText(i.typ, n)
					switch b.same(r.st, isConv(got), want) {
					case 0:
						return "the input " + i.name + " is " + got.Path() + ", not " + want.Path()
					case -1:
						return "?"
					}
				}
				if e := b.statusIs(p, status); e != "" {
					return e
				}
				want := map[string]string{}
				ent := ""
				for n, i := range t.outs {
					if _, w, ok := strings.Cut(i.where, ":"); ok {
						want[http.CanonicalHeaderKey(w)], _ = b.goText(i.typ, n)
					} else {
						ent = i.typ
					}
				}
				for w, text := range want {
					vs := p.headers[w]
					if len(vs) != 1 {
						return fmt.Sprintf("the header %s is sent %d times", w, len(vs))
					}
					if s, ok := vs[0].isStr(); !ok {
						return "?"
					} else if s != text {
						return fmt.Sprintf("the header %s is %q, not %q", w, s, text)
					}
				}
				for w := range p.headers {
					if _, ok := want[w]; !ok && w != "Content-Type" {
						return "an undeclared header is sent: " + w
					}
				}
				if status == 204 || status == 304 {
					return ""
				}
				e := entityOf(p.body)
				if e == nil {
					return "?"
				}
				switch ent {
				case "":
					if e.op != ONil {
						return "an entity is sent: " + e.Path()
					}
				case "Inner":
					if x := b.snapField(e, "X"); x == nil || x != b.atom("text") {
						return "the entity is " + e.Path()
					}
				default:
					for n, i := range t.outs {
						if _, v := b.goText(i.typ, n); i.where == "body" && b.same(r.st, e, v) == 0 {
							return "the entity is " + e.Path()
						}
					}
				}
				return ""
			})
		})
		var ks []int
		for k := range t.excs {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			typ, k := t.excs[k], code(k)
			serve(func(b *B, c *callCtx) *Term {
				old := b.st
				b.st = c.st
				defer func() { b.st = old }()
				x := b.obj(typ, F{})
				return b.e.T.Tuple(b.e.T.Nil(), b.any(x.t, x))
			}, func(s *goServer, h *Term) {
				o.replies(s.request(h), "the exception "+typ+" must be answered with its status and value", func(r Ret, p reply) string {
					if e := s.b.statusIs(p, k); e != "" {
						return e
					}
					if k == 204 || k == 304 {
						return ""
					}
					e := entityOf(p.body)
					if e == nil {
						return "?"
					}
					if g.typeText(e.t) != typ {
						return "the entity is a " + g.typeText(e.t)
					}
					return ""
				})
			})
		}
		// the client
		answer := func(st int, f func(b *B, rs []Ret)) {
			sc := &Scenario{}
			sc.decoded = func(e *Engine, st *State, kind string, t types.Type) *Term {
				return e.T.mk(OSym, "decoded:"+types.TypeString(t, nil), nil, t, nil)
			}
			g.sub(o, goClientCalls(st, sc), func(b *B) {
				b.home = g.q
				b.e.building = true
				rq := F{}
				for n, i := range t.ins {
					_, v := b.goText(i.typ, n)
					if i.where == "body" {
						v = b.obj("Inner", F{"X": b.atom("text")})
					}
					rq[up(i.name)] = v
				}
				for n, i := range t.outs {
					if _, w, ok := strings.Cut(i.where, ":"); ok {
						text, _ := b.goText(i.typ, n)
						b.pin(b.e.T.mk(OCall, "header", nil, tString, nil, b.e.T.Str(http.CanonicalHeaderKey(w))).npath(), text)
					}
				}
				f(b, b.call(nil, "", "SvcClient."+act, b.obj("SvcClient", F{"Target": "http://host/base"}), b.obj(act+"Request", rq)))
			})
		}
		answer(status, func(b *B, rs []Ret) {
			o.expect(rs, "the request must be sent as declared", func(r Ret) int {
				bad := func(s string) int {
					o.fail("golang.Export (generated client "+r.where(o.c.p)+")", "the request must be sent as declared: "+s, r.st)
					return 1
				}
				x := goSentBy(b, r.st)
				if !x.ok || r.kind != RReturn {
					return boolInt(r.kind == RReturn) - 1
				}
				if x.n != 1 || x.do != 1 {
					return bad(fmt.Sprintf("%d requests are built and %d are sent", x.n, x.do))
				}
				method, ok1 := x.method.isStr()
				at, ok2 := x.url.isStr()
				if !ok1 || !ok2 {
					return -1
				}
				if method != t.method {
					return bad("the method is " + method)
				}
				wantP, query, head := path, url.Values{}, map[string]string{}
				ent := false
				for n, i := range t.ins {
					text, _ := b.goText(i.typ, n)
					k, w, _ := strings.Cut(i.where, ":")
					switch k {
					case "path":
						wantP = strings.ReplaceAll(wantP, "{"+i.name+"}", url.PathEscape(text))
					case "query":
						query.Set(w, text)
					case "header":
						head[http.CanonicalHeaderKey(w)] = text
					default:
						ent = true
					}
				}
				gotP, gotQ, _ := strings.Cut(at, "?")
				if gotP != "http://host/base"+wantP {
					return bad("the address is " + at + ", its path must be " + wantP)
				}
				q, err := url.ParseQuery(gotQ)
				if err != nil || q.Encode() != query.Encode() {
					return bad("the address is " + at + ", its query must be " + query.Encode())
				}
				for w, text := range head {
					if x.headers[w] == nil {
						return bad("the header " + w + " is not sent")
					}
					if s, ok := x.headers[w].isStr(); !ok {
						return -1
					} else if s != text {
						return bad(fmt.Sprintf("the header %s is %q, not %q", w, s, text))
					}
				}
				for w := range x.headers {
					if _, ok := head[w]; !ok && w != "Content-Type" && w != "Accept" {
						return bad("the header " + w + " is sent")
					}
				}
				if !ent {
					if x.body.op != ONil {
						return bad("an entity is sent: " + x.body.Path())
					}
					return 1
				}
				if x.body.op == ONil {
					return bad("the entity is not sent")
				}
				e := entityOf(x.body)
				if e == nil {
					return -1
				}
				if v := b.snapField(e, "X"); v != b.atom("text") {
					return bad("the entity is " + e.Path())
				}
				if h := x.headers["Content-Type"]; h == nil {
					return bad("the content type is not sent")
				} else if s, ok := h.isStr(); !ok || !strings.HasPrefix(s, "application/json") {
					return bad("the content type is not JSON")
				}
				return 1
			})
			want := F{}
			for n, i := range t.outs {
				if i.where == "body" {
					want[up(i.name)] = Pred(func(s *State, got *Term) int {
						if got.unk() {
							return -1
						}
						return boolInt(got.op == OSym && strings.HasPrefix(got.s, "decoded:"))
					})
				} else {
					_, v := b.goText(i.typ, n)
					want[up(i.name)] = Pred(func(s *State, got *Term) int { return b.same(s, isConv(got), v) })
				}
			}
			if len(want) == 0 {
				o.accept(rs, "the answer")
				return
			}
			o.matches(rs, "the answer must be the response", D{want})
		})
		for _, k := range ks {
			typ := t.excs[k]
			answer(code(k), func(b *B, rs []Ret) {
				o.expect(rs, fmt.Sprintf("the answer %d must be the exception %s", k, typ), func(r Ret) int {
					e := errOf(r)
					if r.kind != RReturn {
						return 0
					}
					if e.unk() {
						return -1
					}
					if e.op != OIface || g.typeText(e.t) != "*"+typ {
						return 0
					}
					return boolInt(e.args[0].op == OSym && strings.HasPrefix(e.args[0].s, "decoded:"))
				})
			})
		}
	})
}

func goTrips(c *C) {
	trip := func(what string, t jtrip) { c.check(what, nil, func(b *B, o *O) { o.goTrip(b, t) }) }
	item := []jio{{name: "item", typ: "Inner", where: "body"}}
	for i, n := range []string{"URL", "aName", "x_1", "a", "A", "theName2", "Id"} {
		act := []string{"GetIt", "getURL", "act2", "Get_it"}[i%4]
		trip("names like "+n, jtrip{name: act, method: "PUT", path: "/x/{" + n + "}",
			ins:  []jio{{name: n, typ: "String", where: "path"}, {name: n + "Q", typ: "Int32", where: "query:" + n, opt: true}, {name: n + "H", typ: "Bool", where: "header:X-" + n, opt: true}, {name: n + "B", typ: "Inner", where: "body"}},
			outs: []jio{{name: n, typ: "Inner", where: "body"}, {name: n + "H", typ: "String", where: "header:" + n}}})
		trip("body named "+n, jtrip{name: act, method: "POST", path: "/x",
			ins: []jio{{name: n, typ: "Inner", where: "body"}}, outs: []jio{{name: n + "H", typ: "String", where: "header:" + n}, {name: n, typ: "Inner", where: "body"}}})
	}
	for i, p := range []string{"/", "/x/", "/x", "/x/y/z", "/a.b/c-d/e_f", "/x/{one}/", "/x/{one}/{two}", "/{one}", "/{one}.json", "/{one}:act", "/x/?q={q}", "/?q={q}", "/x?q={q}&r={r}", "/{one}/{one2}?q={q}", "/%7Ex"} {
		var ins []jio
		for _, n := range []string{"one", "two", "one2"} {
			if strings.Contains(p, "{"+n+"}") {
				ins = append(ins, jio{name: n, typ: []string{"String", "Label", "Int64"}[i%3], where: "path"})
			}
		}
		for _, n := range []string{"q", "r"} {
			if strings.Contains(p, "{"+n+"}") {
				ins = append(ins, jio{name: n, typ: "String", where: "query:" + n, opt: true})
			}
		}
		trip("path "+p, jtrip{name: "act", method: []string{"GET", "DELETE", "PUT"}[i%3], path: p, ins: ins, outs: item})
	}
	for i, h := range headerTexts {
		name := nameTexts[i%len(nameTexts)]
		if h == "Content-Type" {
			// the generated server describes its own entity with it
			continue
		}
		trip("the header "+h, jtrip{name: "act", method: []string{"GET", "POST", "PUT", "DELETE"}[i%4], path: "/x", ins: []jio{{name: name, typ: "String", where: "header:" + h, opt: i%2 == 0}}, outs: append([]jio{{name: name, typ: "String", where: "header:" + h}}, item...), lit: true})
		trip("the header "+h+" without entity", jtrip{name: "act", method: []string{"GET", "POST", "PUT", "DELETE"}[i%4], path: "/x", status: []int{201, 204}[i%2], ins: []jio{{name: name, typ: "Int32", where: "header:" + h, opt: i%2 == 1}}, outs: []jio{{name: name, typ: "String", where: "header:" + h}}, lit: true})
	}
	for i, q := range queryTexts {
		trip("the query "+q, jtrip{name: "act", method: []string{"GET", "DELETE"}[i%2], path: "/x?" + q + "={two}", ins: []jio{{name: "one", typ: "String", where: "query:first", opt: i%2 == 0}, {name: "two", typ: "String", where: "query:" + q, opt: true}}, outs: item, lit: true})
		trip("an input named "+q, jtrip{name: "act", method: []string{"PUT", "POST"}[i%2], path: "/x/{" + q + "}", ins: []jio{{name: q, typ: "String", where: "path"}, {name: "thing", typ: "Inner", where: "body"}}, outs: item, lit: true})
	}
	for i, h := range []string{"etag", "ETag", "X-A", "x-a-b", "X_Y", "WWW-Authenticate", "Last-Modified", "X-2"} {
		trip("header "+h, jtrip{name: "act", method: "GET", path: "/x", ins: []jio{{name: "one", typ: "String", where: "header:" + h, opt: i%2 == 0}}, outs: append([]jio{{name: "two", typ: "String", where: "header:" + h}}, item...)})
	}
	for i, q := range []string{"q", "Q", "q_n", "q-n", "q.n", "qName", "q2", "one", "two"} {
		trip("query "+q, jtrip{name: "act", method: "GET", path: "/x?" + q + "={two}", ins: []jio{{name: "one", typ: "String", where: "query:first", opt: i%2 == 0}, {name: "two", typ: "String", where: "query:" + q, opt: true}}, outs: item})
	}
	hs := []jio{{name: "hd", typ: "String", where: "header:Hd"}, {name: "heTwo", typ: "Int32", where: "header:He", opt: true}}
	for n, outs := range [][]jio{nil, item, hs[:1], hs, append(append([]jio{}, item...), hs...), append(append([]jio{}, hs...), item...), {{name: "text", typ: "String", where: "body"}}, {{name: "count", typ: "Int64", where: "body"}}} {
		for _, m := range []string{"GET", "DELETE", "POST"} {
			trip(fmt.Sprintf("any status of a %s, results %d", m, n), jtrip{name: "act", method: m, path: "/x", status: 203, outs: outs})
		}
	}
	ts := []string{"NotFound", "Conflict", "Teapot", "Inner"}
	for n := 1; n <= 4; n++ {
		for _, outs := range [][]jio{nil, item} {
			for any := 0; any < n; any++ {
				e, known := map[int]string{}, map[int]bool{}
				for k := 0; k < n; k++ {
					st := []int{404, 409, 418, 303}[k]
					e[st] = ts[k]
					known[st] = k != any && k != (any+1)%n
				}
				if n < 3 {
					known = nil
					if any > 0 {
						continue
					}
				}
				trip(fmt.Sprintf("any status of %d of %d exceptions, %d results", any, n, len(outs)), jtrip{name: "act", method: "GET", path: "/x", outs: outs, excs: e, known: known})
			}
		}
	}
	// order of inputs and outputs
	in := []jio{{name: "id", typ: "Label", where: "path"}, {name: "q", typ: "Int32", where: "query:qq"}, {name: "hd", typ: "String", where: "header:X-Hd"}, {name: "thing", typ: "Inner", where: "body"}}
	for i := range in {
		for j := range in {
			for k := range in {
				if i == j || j == k || i == k {
					continue
				}
				l := 6 - i - j - k
				trip(fmt.Sprintf("inputs in the order %d %d %d %d", i, j, k, l), jtrip{name: "act", method: []string{"PUT", "POST", "PATCH"}[(i+j)%3], path: "/x/{id}", ins: []jio{in[i], in[j], in[k], in[l]}, outs: item})
			}
		}
	}
	for _, m := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		trip("no body of a "+m, jtrip{name: "act", method: m, path: "/x/{id}", ins: in[:3], outs: item})
		trip("only a query of a "+m, jtrip{name: "act", method: m, path: "/x", ins: in[1:2], outs: item})
		trip("only a header of a "+m, jtrip{name: "act", method: m, path: "/x", ins: in[2:3], outs: item})
	}
}
