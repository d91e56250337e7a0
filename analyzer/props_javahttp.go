package main

// props_javahttp.go: C27 (generated Java server and client).

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Property{id: "C27", rule: "The Java server and client generated from a model compile, and every request and answer carries exactly the inputs, results and exceptions of its action.", run: runC27})
}

var javaParams = []string{"String", "Label", "Again", "Int8", "Int16", "Int32", "Int64", "Small", "Float32", "Float64", "Part", "Bool", "Flag", "Timestamp", "When", "UUID", "Ident", "Decimal", "Money", "Color"}

type jact struct {
	name, method, path string
	ins                func(b *B) []*Term
	status             int
	outs               func(b *B) []*Term
	excs               map[int]string
	generic            bool         // arbitrary statuses, names in the path
	lit                bool         // the path is this very text all the same
	known              map[int]bool // but these statuses
}

func (a jact) term(b *B) *Term {
	f := F{"Method": a.method, "Path": a.path}
	if a.ins != nil {
		f["Inputs"] = b.list(a.ins(b)...)
	}
	var outs []*Term
	if a.outs != nil {
		outs = a.outs(b)
	}
	st := a.status
	if st == 0 {
		st = 200
	}
	code := func(n int) interface{} {
		if a.generic && !a.known[n] {
			return b.code(n)
		}
		return n
	}
	if a.generic && !a.lit {
		f["Path"] = b.pathOf(a.path)
	}
	f["Expected"] = b.expected(code(st), outs...)
	var ks []int
	for k := range a.excs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var ex []*Term
	for _, k := range ks {
		ex = append(ex, b.obj("HttpExceptionSpec", F{"Status": code(k), "Type": a.excs[k]}))
	}
	if len(ex) > 0 {
		f["Exceptions"] = b.list(ex...)
	}
	return b.action(b.atom(a.name), f)
}

// pathOf is a path with arbitrary names where it has {name}.
func (b *B) pathOf(p string) *Term {
	var ps []*Term
	for p != "" {
		i := strings.IndexByte(p, '{')
		if i < 0 {
			break
		}
		j := i + strings.IndexByte(p[i:], '}')
		ps = append(ps, b.e.T.Str(p[:i+1]), b.atom(p[i+1:j]))
		p = p[j:]
	}
	return b.e.cat(append(ps, b.e.T.Str(p))...)
}

func (b *B) javaService(base string, acts ...jact) *Term {
	others := append(b.javaOthers(), b.tdef("NotFound", F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}),
		b.tdef("Teapot", F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}),
		b.tdef("Conflict", F{"Type": "Struct", "Fields": b.list(b.field("why", F{"Type": "String"}))}),
		b.tdef("Listing", F{"Type": "Array", "Items": "Inner"}))
	var ts []*Term
	for _, a := range acts {
		ts = append(ts, a.term(b))
	}
	f := F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Types": b.list(others...), "Http": b.list(ts...)}
	if base != "" {
		f["Base"] = base
	}
	return b.newModel(f)
}

var javaModes = []string{"", "immutable=false", "service-exception", "immutable=false service-exception"}

// jserver runs one method of the generated resources: impl says what the implementation does with the request.
type jserver struct {
	o    *O
	g    *GenJava
	res  *JN
	impl func(req JV) (JV, JV)
	got  []JV
}

func (o *O) javaServer(g *GenJava) *jserver {
	res := o.javaClass(g, "SvcResources", "")
	if res == nil {
		return nil
	}
	return &jserver{o: o, g: g, res: res}
}

func (s *jserver) method(name string) *JN {
	ms := s.res.methods(name)
	if len(ms) != 1 {
		s.o.javaFail("SvcResources", fmt.Sprintf("there must be one method %s, there are %d", name, len(ms)))
		return nil
	}
	return ms[0]
}

// run gives the response, or what is thrown.
func (s *jserver) run(name string, args ...JV) (JV, JV) {
	m := s.method(name)
	if m == nil {
		jfail("no method")
	}
	if len(args) != len(m.Params) {
		jfail("%s has %d parameters", name, len(m.Params))
	}
	this := &JObj{class: s.res, fields: map[string]JV{}}
	for _, f := range s.res.fields() {
		if f.anno("Inject") != "" && f.Type == "Svc" {
			this.fields[f.Name] = JSym{"impl"}
		}
	}
	s.g.call = func(recv JV, n string, as []JV) (JV, JV) {
		if recv == JV(JSym{"impl"}) {
			if n != name || len(as) != 1 {
				s.o.javaFail("SvcResources."+name, "the implementation must be called as "+name+"(req), not "+n)
			}
			s.got = append(s.got, as[0])
			return s.impl(as[0])
		}
		if n == "writeValueAsString" {
			return JSym{"json(" + show(as[0]) + ")"}, nil
		}
		return nil, nil
	}
	return s.g.try(func() JV { return s.g.run(s.res, this, m, args) })
}

// jreply is an HTTP answer.
type jreply struct {
	status  JV
	headers map[string]string
	entity  JV
	ok      bool
}

// reply reads an answer from what a resource returns or throws.
func reply1(v, thrown JV) jreply {
	r := jreply{headers: map[string]string{}, entity: JNull{}}
	if thrown != nil {
		c, ok := thrown.(*JCall)
		if !ok || c.recv != nil || !strings.HasSuffix(c.name, "WebApplicationException") || len(c.args) != 1 {
			return r
		}
		if n, ok := c.args[0].(int64); ok {
			r.status, r.ok = n, true
			return r
		}
		v = c.args[0]
	}
	base, cs := chain(v)
	if cl, ok := base.(JClass); !ok || !strings.HasSuffix(cl.name, "Response") || len(cs) < 2 || cs[len(cs)-1].name != "build" {
		return r
	}
	for _, c := range cs[:len(cs)-1] {
		switch {
		case c.name == "status" && len(c.args) == 1:
			r.status = c.args[0]
		case c.name == "ok":
			r.status = int64(200)
			if len(c.args) > 0 {
				r.entity = c.args[0]
			}
		case c.name == "serverError":
			r.status = int64(500)
		case c.name == "noContent":
			r.status = int64(204)
		case c.name == "header" && len(c.args) == 2:
			if n, ok := c.args[0].(string); ok {
				r.headers[n] = show(c.args[1])
			}
		case c.name == "entity" && len(c.args) == 1:
			r.entity = c.args[0]
		case c.name == "type":
		default:
			return r
		}
	}
	_, r.ok = r.status.(int64)
	return r
}

func (s *jserver) want(name string, v, thrown JV, status int, entity string, headers map[string]string) {
	where := "SvcResources." + name
	r := reply1(v, thrown)
	if !r.ok {
		if thrown != nil && !strings.Contains(show(thrown), "WebApplicationException") {
			s.o.javaFail(where, "the answer must have a status, instead "+show(thrown)+" is thrown")
			return
		}
		jfail("answer not understood: %s %s", show(v), show(thrown))
	}
	if r.status != JV(int64(status)) {
		s.o.javaFail(where, fmt.Sprintf("the status must be %d, it is %s", status, show(r.status)))
	}
	if got := show(r.entity); entity != "*" && got != entity {
		s.o.javaFail(where, fmt.Sprintf("the body must be %s, it is %s", entity, got))
	}
	if headers != nil && fmt.Sprint(r.headers) != fmt.Sprint(headers) {
		s.o.javaFail(where, fmt.Sprintf("the headers must be %v, they are %v", headers, r.headers))
	}
}

// javaResponse makes a response object with the given fields.
func javaResponse(g *GenJava, name string, fields map[string]JV) JV {
	c := g.classes[name]
	if c == nil {
		jfail("no class %s", name)
	}
	ob := &JObj{class: c, fields: map[string]JV{}}
	for _, f := range c.fields() {
		ob.fields[f.Name] = JNull{}
	}
	for k, v := range fields {
		ob.fields[k] = v
	}
	return ob
}

// jclient runs one method of the generated client against an answer.
type jclient struct {
	o      *O
	g      *GenJava
	cl     *JN
	status int
	sent   []JV // the final calls that send a request
	opened int
}

func (o *O) javaClient(g *GenJava) *jclient {
	cl := o.javaClass(g, "SvcClient", "")
	if cl == nil {
		return nil
	}
	return &jclient{o: o, g: g, cl: cl}
}

var sends = map[string]bool{"get": true, "put": true, "post": true, "delete": true, "head": true, "options": true, "method": true}

func (c *jclient) run(name string, req JV, absent map[string]bool) (JV, JV) {
	ms := c.cl.methods(name)
	if len(ms) != 1 || len(ms[0].Params) != 1 {
		c.o.javaFail("SvcClient", "the client must have the method "+name)
		jfail("no method")
	}
	this := &JObj{class: c.cl, fields: map[string]JV{}}
	c.g.call = func(recv JV, n string, as []JV) (JV, JV) {
		if _, ok := recv.(*JCall); ok && sends[n] {
			c.sent = append(c.sent, &JCall{recv: recv, name: n, args: as})
			return JSym{"answer"}, nil
		}
		if recv == JV(JSym{"answer"}) {
			switch n {
			case "getStatus":
				return int64(c.status), nil
			case "getHeaderString":
				if len(as) == 1 {
					if s, ok := as[0].(string); ok {
						if absent[s] {
							return JNull{}, nil
						}
						return JSym{"hdr(" + s + ")"}, nil
					}
				}
			case "readEntity":
				t := show(as[0])
				if k, ok := as[0].(*JCall); ok && k.anon != nil {
					t = strings.TrimSuffix(strings.TrimPrefix(k.name, "new GenericType<"), ">") + ".class"
				}
				t = strings.ReplaceAll(t, " ", "")
				for _, p := range [][2]string{{"Byte", "byte"}, {"Short", "short"}, {"Integer", "int"}, {"Long", "long"}, {"Float", "float"}, {"Double", "double"}, {"Boolean", "boolean"}} {
					if t == p[0]+".class" {
						t = p[1] + ".class"
					}
				}
				return JSym{"entity(" + t + "):" + strings.TrimSuffix(t, ".class")}, nil
			}
		}
		if n == "readValue" && len(as) == 1 {
			return JSym{"fromjson(" + show(as[0]) + ")"}, nil
		}
		return nil, nil
	}
	v, t := c.g.try(func() JV {
		ctor := c.g.pick(c.cl.methods("<init>"), []JV{JSym{"conf:ClientConfig"}})
		if ctor == nil {
			jfail("no constructor")
		}
		c.g.run(c.cl, this, ctor, []JV{JSym{"conf:ClientConfig"}})
		return c.g.run(c.cl, this, ms[0], []JV{req})
	})
	return v, t
}

// jrequest is a request as the client sends it.
type jrequest struct {
	method, path           string
	query, header, resolve map[string]string
	entity                 string
	accept                 string
}

// jaxPath appends to a path as JAX-RS does, with one slash between the parts.
func jaxPath(p, s string) string {
	switch {
	case p == "" || s == "":
		return p + s
	case strings.HasSuffix(p, "/") && strings.HasPrefix(s, "/"):
		return p + s[1:]
	case strings.HasSuffix(p, "/") || strings.HasPrefix(s, "/"):
		return p + s
	}
	return p + "/" + s
}

func (c *jclient) request() jrequest {
	r := jrequest{query: map[string]string{}, header: map[string]string{}, resolve: map[string]string{}}
	if len(c.sent) != 1 {
		jfail("%d requests are sent", len(c.sent))
	}
	_, cs := chain(c.sent[0])
	state := 0
	for _, k := range cs {
		str := ""
		if len(k.args) > 0 {
			str, _ = k.args[0].(string)
		}
		switch {
		case k.name == "newClient":
		case k.name == "target" && state == 0:
			if show(k.args[0]) != "conf:ClientConfig.getTarget()" {
				if x, ok := k.args[0].(*JCall); !ok || !strings.Contains(show(x), "getTarget()") {
					jfail("target %s", show(k.args[0]))
				}
			}
			state = 1
		case k.name == "path" && state == 1:
			r.path = jaxPath(r.path, str)
		case k.name == "resolveTemplate" && state == 1 && len(k.args) >= 2:
			r.resolve[str] = show(k.args[1])
			if len(k.args) > 2 && show(k.args[2]) != "true" {
				r.resolve[str] += " with slashes that end the path element"
			}
		case k.name == "queryParam" && state == 1 && len(k.args) == 2:
			r.query[str] = show(k.args[1])
		case k.name == "request" && state == 1:
			state = 2
			r.accept = str
		case k.name == "accept":
			r.accept = str
		case k.name == "header" && state == 2 && len(k.args) == 2:
			r.header[str] = show(k.args[1])
		case sends[k.name] && state == 2:
			r.method = strings.ToUpper(k.name)
			args := k.args
			if k.name == "method" {
				r.method = str
				args = args[1:]
			}
			if len(args) == 1 {
				e, ok := args[0].(*JCall)
				if !ok || len(e.args) == 0 {
					jfail("entity %s", show(args[0]))
				}
				switch {
				case e.name == "json":
					r.entity = show(e.args[0])
				case e.name == "entity" && len(e.args) == 2 && (e.args[1] == JV("application/json") || strings.HasSuffix(show(e.args[1]), "APPLICATION_JSON_TYPE")):
					r.entity = show(e.args[0])
				default:
					jfail("entity %s", show(args[0]))
				}
			}
		default:
			jfail("request step %s", k.name)
		}
	}
	return r
}

func javaIn(b *B, name, typ, where string, req bool, more F) *Term {
	f := F{"Name": b.atom(name), "Type": typ, "Required": req}
	for k, v := range more {
		f[k] = v
	}
	return b.param(place(where, f))
}

// jio is one input or output of an action in a round trip: where is "path", "body", "query:NAME" or "header:NAME".
type jio struct {
	name, typ, where string
	opt              bool
}

type jtrip struct {
	name, method, path, base string
	ins, outs                []jio
	status                   int
	excs                     map[int]string
	known                    map[int]bool
	opts                     []string
	lit                      bool // the names are these very texts, not any texts
}

// javaTrip compares the generated server and client of one action, with arbitrary names and statuses, with what the action declares.
func (o *O) javaTrip(b *B, t jtrip) {
	text := func(s string) any {
		if t.lit {
			return s
		}
		return b.atom(s)
	}
	params := func(l []jio) []*Term {
		var r []*Term
		for _, i := range l {
			f := F{"Name": text(i.name), "Type": i.typ, "Required": !i.opt}
			k, n, _ := strings.Cut(i.where, ":")
			switch k {
			case "path":
				f["Path"] = true
			case "query":
				f["Query"] = text(n)
			case "header":
				f["Header"] = text(n)
			}
			r = append(r, b.param(f))
		}
		return r
	}
	imm, se := true, false
	for _, x := range t.opts {
		imm = imm && x != "immutable=false"
		se = se || x == "service-exception"
	}
	a := jact{name: t.name, method: t.method, path: t.path, status: t.status, excs: t.excs, generic: true, lit: t.lit, known: t.known, ins: func(b *B) []*Term { return params(t.ins) }, outs: func(b *B) []*Term { return params(t.outs) }}
	other := jact{name: "zzz", method: "GET", path: "/zzz", excs: t.excs}
	o.javaEach(b.javaExport(b.javaService(t.base, a, other), append(append([]string{}, t.opts...), "server", "client")...), "the action", func(g *GenJava, num func(*Term) string) {
		code := func(n int) int {
			if t.known[n] {
				return n
			}
			k, _ := strconv.Atoi(num(b.code(n)))
			return k
		}
		s, cl := o.javaServer(g), o.javaClient(g)
		if s == nil || cl == nil {
			return
		}
		act := strings.ToLower(t.name[:1]) + t.name[1:]
		pre := strings.ToUpper(t.name[:1]) + t.name[1:]
		m := s.method(act)
		if m == nil {
			return
		}
		path, _, _ := strings.Cut(t.path, "?")
		if got := m.anno("Path"); got != fmt.Sprintf("@Path(%q)", path) {
			o.javaFail("SvcResources."+act, "the path must be "+path+", it is annotated "+got)
		}
		if m.anno(t.method) == "" {
			o.javaFail("SvcResources."+act, "the method must be "+t.method)
		}
		req := jrequest{method: t.method, path: jaxPath(t.base, path), query: map[string]string{}, header: map[string]string{}, resolve: map[string]string{}, accept: "application/json"}
		wantIn := map[string]string{}
		var want, got, fields []string
		var args []JV
		vals := map[string]JV{}
		for n, i := range t.ins {
			v := JSym{fmt.Sprint("in", n)}
			args = append(args, v)
			vals[i.name] = v
			wantIn[i.name] = v.text
			fields = append(fields, i.name)
			k, w, _ := strings.Cut(i.where, ":")
			switch k {
			case "path":
				want = append(want, fmt.Sprintf("@PathParam(%q)", i.name))
				req.resolve[i.name] = v.text
			case "query":
				want = append(want, fmt.Sprintf("@QueryParam(%q)", w))
				req.query[w] = v.text
			case "header":
				want = append(want, fmt.Sprintf("@HeaderParam(%q)", w))
				req.header[w] = v.text
			default:
				want = append(want, "")
				req.entity = v.text
			}
		}
		for _, p := range m.Params {
			var k []string
			for _, x := range p.Annos {
				k = append(k, x.annoText())
			}
			got = append(got, strings.Join(k, " "))
		}
		if len(got) != len(want) || strings.Join(got, "; ") != strings.Join(want, "; ") {
			o.javaFail("SvcResources."+act, fmt.Sprintf("the inputs must be %v, they are %v", want, got))
			return
		}
		object := func(class string, fs map[string]string) string {
			var ks []string
			for k := range fs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			var l []string
			for _, k := range ks {
				l = append(l, k+": "+fs[k])
			}
			return class + "{" + strings.Join(l, ", ") + "}"
		}
		outs := map[string]JV{}
		heads := map[string]string{}
		ent := "null"
		res := map[string]string{}
		for n, i := range t.outs {
			v := JSym{fmt.Sprint("out", n)}
			outs[i.name] = v
			_, w, _ := strings.Cut(i.where, ":")
			jt := javaType(i.typ, true)
			if w != "" {
				heads[w] = v.text
				res[i.name] = "hdr(" + w + ")"
			} else {
				ent = v.text
				res[i.name] = "entity(" + jt + ".class):" + jt
				if jt == "String" {
					ent = "json(" + v.text + ")"
					res[i.name] = "fromjson(" + res[i.name] + ")"
				}
			}
		}
		status := t.status
		if status == 0 {
			status = 200
		}
		status = code(status)
		o.javaEval(g, "SvcResources."+act, func() {
			s.impl = func(rq JV) (JV, JV) { return javaResponse(g, pre+"Response", outs), nil }
			v, th := s.run(act, args...)
			s.want(act, v, th, status, ent, heads)
			if len(s.got) != 1 || show(s.got[0]) != object(pre+"Request", wantIn) {
				o.javaFail("SvcResources."+act, fmt.Sprintf("the implementation must get %s, it gets %s", object(pre+"Request", wantIn), show(JArr(s.got))))
			}
		})
		o.javaEval(g, "SvcClient."+act, func() {
			cl.status = status
			v, th := cl.run(act, javaResponse(g, pre+"Request", vals), nil)
			r := cl.request()
			if req.entity == "" {
				if r.entity == `""` {
					r.entity = ""
				} else if t.method == "PUT" {
					o.javaFail("SvcClient."+act, "a PUT must have an entity")
				}
			}
			if fmt.Sprint(r) != fmt.Sprint(req) {
				o.javaFail("SvcClient."+act, fmt.Sprintf("the request must be %v, it is %v", req, r))
			}
			if len(t.outs) == 0 {
				if th != nil || show(v) != "null" && show(v) != pre+"Response{}" {
					o.javaFail("SvcClient."+act, fmt.Sprintf("there must be no result, it is %s %s", show(v), show(th)))
				}
			} else if th != nil || show(v) != object(pre+"Response", res) {
				o.javaFail("SvcClient."+act, fmt.Sprintf("the result must be %s, it is %s %s", object(pre+"Response", res), show(v), show(th)))
			}
		})
		var ks []int
		for k := range t.excs {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			k, typ := code(k), t.excs[k]
			o.javaEval(g, "SvcResources."+act, func() {
				e := javaResponse(g, typ, nil)
				thrown := e
				if se {
					thrown = javaResponse(g, "ServiceException", map[string]JV{"entity": e})
				}
				s.impl = func(rq JV) (JV, JV) { return nil, thrown }
				v, th := s.run(act, args...)
				body := show(e)
				if k == 204 || k == 304 {
					body = "*" // such an answer has no body on the wire
				}
				s.want(act, v, th, k, body, nil)
			})
			o.javaEval(g, "SvcClient."+act, func() {
				cl.status = k
				cl.sent = nil
				v, th := cl.run(act, javaResponse(g, pre+"Request", vals), nil)
				if th == nil {
					o.javaFail("SvcClient."+act, fmt.Sprintf("the status %d must be an exception, the result is %s", k, show(v)))
					return
				}
				got := show(th)
				if x, ok := th.(*JObj); ok && se && x.class.Name == "ServiceException" {
					got = show(x.fields["entity"])
				}
				if want := "entity(" + typ + ".class):" + typ; got != want {
					o.javaFail("SvcClient."+act, fmt.Sprintf("the status %d must be the exception %s, it is %s", k, typ, got))
				}
			})
		}
	})
}

// javaNum is a default value with this number.
func javaNum(text string) func(b *B) *Term {
	return func(b *B) *Term {
		k := token.INT
		if strings.Contains(text, ".") {
			k = token.FLOAT
		}
		n := constant.MakeFromLiteral(strings.TrimPrefix(text, "-"), k, 0)
		if strings.HasPrefix(text, "-") {
			n = constant.UnaryOp(token.SUB, n, 0)
		}
		d := b.dec(b.e.T.Const(n, nil))
		return b.any(d.t, d)
	}
}

// names that occur in real services, for obligations about these very texts
var headerTexts = []string{"Location", "location", "ETag", "Etag", "Last-Modified", "Expires", "Date", "Content-Type", "Content-Length", "Content-Location", "Cache-Control", "Authorization", "WWW-Authenticate", "Retry-After", "Accept", "Host", "Cookie", "Set-Cookie", "If-Match", "If-None-Match", "If-Modified-Since", "X-Request-Id", "x-custom", "Link", "Allow", "Vary", "Status"}
var queryTexts = []string{"id", "type", "format", "filter", "limit", "skip", "page", "sort", "order", "fields", "user_id", "maxResults", "q", "Q", "name", "path", "query", "header", "value", "status"}
var nameTexts = []string{"one", "status", "code", "location", "message", "value", "etag", "modified", "type", "id", "body", "content", "req", "res", "err", "e", "th", "entity", "se", "response", "target", "inv", "client", "config"}

func javaTrips(c *C) {
	trip := func(what string, t jtrip) {
		c.check(what+" "+fmt.Sprint(t.opts), nil, func(b *B, o *O) { o.javaTrip(b, t) })
	}
	mode := func(i int) []string { return strings.Fields(javaModes[i%len(javaModes)]) }
	item := []jio{{name: "item", typ: "Inner", where: "body"}}
	for i, n := range []string{"URL", "aName", "x_1", "a", "A", "theName2", "Id"} {
		for j := 0; j < 2; j++ {
			trip("names like "+n, jtrip{name: []string{"GetIt", "getURL", "act2", "Get_it"}[(i+j)%4], method: "PUT", path: "/x/{" + n + "}", opts: mode(i + j),
				ins:  []jio{{name: n, typ: "String", where: "path"}, {name: n + "Q", typ: "Int32", where: "query:" + n, opt: true}, {name: n + "H", typ: "Bool", where: "header:X-" + n, opt: true}, {name: n + "B", typ: "Inner", where: "body"}},
				outs: []jio{{name: n, typ: "Inner", where: "body"}, {name: n + "H", typ: "String", where: "header:" + n}}})
			trip("body named "+n, jtrip{name: []string{"GetIt", "getURL", "act2", "Get_it"}[(i+j)%4], method: "POST", path: "/x", opts: mode(i + j),
				ins: []jio{{name: n, typ: "Inner", where: "body"}}, outs: []jio{{name: n + "H", typ: "String", where: "header:" + n}, {name: n, typ: "Inner", where: "body"}}})
		}
	}
	for i, p := range []string{"/", "/x/", "/x", "/x/y/z", "/a.b/c-d/e_f", "/x/{one}/", "/x/{one}/{two}", "/{one}", "/{one}.json", "/{one}:act", "/x/?q={q}", "/?q={q}", "/x?q={q}&r={r}", "/{one}/{one2}?q={q}", "/%7Ex"} {
		var ins []jio
		for _, n := range []string{"one", "two", "one2"} {
			if strings.Contains(p, "{"+n+"}") {
				ins = append(ins, jio{name: n, typ: "String", where: "path"})
			}
		}
		for _, n := range []string{"q", "r"} {
			if strings.Contains(p, "{"+n+"}") {
				ins = append(ins, jio{name: n, typ: "String", where: "query:" + n, opt: true})
			}
		}
		base := []string{"", "/api", "/api/v1", "/", "/v1", "/v2", "/my-service/rest", "/API", "/1.0"}[i%9]
		trip("path "+p, jtrip{name: "act", method: []string{"GET", "DELETE", "PUT"}[i%3], path: p, base: base, ins: ins, outs: item, opts: mode(i)})
	}
	for i, h := range headerTexts {
		name := nameTexts[i%len(nameTexts)]
		trip("the header "+h, jtrip{name: "act", method: []string{"GET", "POST", "PUT", "DELETE"}[i%4], path: "/x", ins: []jio{{name: name, typ: "String", where: "header:" + h, opt: i%2 == 0}}, outs: append([]jio{{name: name, typ: "String", where: "header:" + h}}, item...), opts: mode(i), lit: true})
		trip("the header "+h+" without entity", jtrip{name: "act", method: []string{"GET", "POST", "PUT", "DELETE"}[i%4], path: "/x", status: []int{201, 204}[i%2], ins: []jio{{name: name, typ: "String", where: "header:" + h, opt: i%2 == 1}}, outs: []jio{{name: name, typ: "String", where: "header:" + h}}, opts: mode(i + 1), lit: true})
	}
	for i, n := range []string{"req", "res", "e", "th", "se", "entity", "status"} {
		for k := 0; k < 2; k++ {
			trip("inputs named "+n+" and "+n+"_", jtrip{name: "act", method: "GET", path: "/x", ins: []jio{{name: n, typ: "String", where: "query:a", opt: true}, {name: n + "_", typ: "String", where: "query:b", opt: true}}, outs: item, excs: map[int]string{404: "NotFound"}, opts: mode(i%2*k + 2*k), lit: true})
		}
	}
	for i, n := range []string{"req", "target", "inv", "response"} {
		trip("results named "+n+" and "+n+"_", jtrip{name: "act", method: "GET", path: "/x", outs: append([]jio{{name: n, typ: "String", where: "header:A"}, {name: n + "_", typ: "String", where: "header:B"}}, item...), excs: map[int]string{404: "NotFound"}, opts: mode(i), lit: true})
	}
	for i, q := range queryTexts {
		trip("the query "+q, jtrip{name: "act", method: []string{"GET", "DELETE"}[i%2], path: "/x?" + q + "={two}", ins: []jio{{name: "one", typ: "String", where: "query:first", opt: i%2 == 0}, {name: "two", typ: "String", where: "query:" + q, opt: true}}, outs: item, opts: mode(i), lit: true})
	}
	for i, h := range []string{"etag", "ETag", "X-A", "x-a-b", "X_Y", "WWW-Authenticate", "Last-Modified", "X-2"} {
		trip("header "+h, jtrip{name: "act", method: "GET", path: "/x", ins: []jio{{name: "one", typ: "String", where: "header:" + h, opt: i%2 == 0}}, outs: append([]jio{{name: "two", typ: "String", where: "header:" + h}}, item...), opts: mode(i)})
	}
	for i, q := range []string{"q", "Q", "q_n", "q-n", "q.n", "qName", "q2", "one", "two"} {
		trip("query "+q, jtrip{name: "act", method: "GET", path: "/x?" + q + "={two}", ins: []jio{{name: "one", typ: "String", where: "query:first", opt: i%2 == 0}, {name: "two", typ: "String", where: "query:" + q, opt: true}}, outs: item, opts: mode(i)})
	}
	for i := range javaModes {
		hs := []jio{{name: "hd", typ: "String", where: "header:Hd"}, {name: "heTwo", typ: "String", where: "header:He", opt: true}}
		for n, outs := range [][]jio{nil, item, hs[:1], hs, append(append([]jio{}, item...), hs...), append(append([]jio{}, hs...), item...), {{name: "text", typ: "String", where: "body"}}, {{name: "count", typ: "Int64", where: "body"}}} {
			for _, m := range []string{"GET", "DELETE", "POST"} {
				trip(fmt.Sprintf("any status of a %s, results %d", m, n), jtrip{name: "act", method: m, path: "/x", status: 203, outs: outs, opts: mode(i)})
			}
		}
		ts := []string{"NotFound", "Conflict", "Teapot", "Inner"}
		for n := 1; n <= 4; n++ {
			for _, outs := range [][]jio{nil, item} {
				for any := 0; any < n; any++ {
					e, known := map[int]string{}, map[int]bool{}
					for k := 0; k < n; k++ {
						st := []int{404, 409, 418, 303}[k]
						e[st] = ts[k]
						known[st] = k != any && k != (any+1)%n
					}
					if n < 3 {
						known = nil
						if any > 0 {
							continue
						}
					}
					trip(fmt.Sprintf("any status of %d of %d exceptions, %d results", any, n, len(outs)), jtrip{name: "act", method: "GET", path: "/x", outs: outs, excs: e, known: known, opts: mode(i)})
				}
			}
		}
	}
	for i, m := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		for _, opt := range []bool{true, false} {
			if m == "PUT" || m == "POST" || m == "PATCH" {
				trip(fmt.Sprintf("body of a %s, optional %v", m, opt), jtrip{name: "act", method: m, path: "/x/{id}", ins: []jio{{name: "id", typ: "String", where: "path"}, {name: "thing", typ: "Inner", where: "body", opt: opt}}, opts: mode(i)})
			}
			trip(fmt.Sprintf("no body of a %s, optional %v", m, opt), jtrip{name: "act", method: m, path: "/x/{id}", ins: []jio{{name: "id", typ: "String", where: "path"}, {name: "hd", typ: "Inner", where: "header:X-Hd", opt: opt}, {name: "q", typ: "Inner", where: "query:q", opt: opt}}, outs: item, opts: mode(i + 1)})
		}
	}
}

func runC27(c *C) {
	c.dress = true
	javaTrips(c)
	c.dress = false
	modes := func(rule string, f func(b *B, o *O, opts []string, imm, se bool)) {
		for _, mode := range javaModes {
			mode := mode
			c.check(rule+" ["+mode+"]", nil, func(b *B, o *O) {
				f(b, o, strings.Fields(mode), !strings.Contains(mode, "immutable=false"), strings.Contains(mode, "service-exception"))
			})
		}
	}
	// routes
	for _, base := range []string{"", "/api/v1", "/v1"} {
		base := base
		for n := 0; n <= 3; n++ {
			n := n
			c.check(fmt.Sprintf("server routes, %d actions, base %q", n, base), nil, func(b *B, o *O) {
				all := []jact{{name: "getIt", method: "GET", path: "/x/{id}/y?q={qn}", ins: func(b *B) []*Term { return []*Term{javaIn(b, "id", "String", "path", true, nil)} }},
					{name: "putIt", method: "PUT", path: "/x/{id}", ins: func(b *B) []*Term {
						return []*Term{javaIn(b, "id", "String", "path", true, nil), javaIn(b, "body", "Inner", "", true, nil)}
					}}, {name: "drop", method: "DELETE", path: "/z", status: 204}}
				g := o.javaCode(b.javaExport(b.javaService(base, all[:n]...), "server"), "a server")
				if g == nil {
					return
				}
				s := o.javaServer(g)
				if s == nil {
					return
				}
				root := base
				if root == "" {
					root = "/"
				}
				if got := s.res.anno("Path"); got != fmt.Sprintf("@Path(%q)", root) {
					o.javaFail("SvcResources", "the root must be "+root+", it is annotated "+got)
				}
				routes := 0
				for _, m := range s.res.Members {
					if m.K == "METHOD" && m.anno("Path") != "" {
						routes++
					}
				}
				if routes != n {
					o.javaFail("SvcResources", fmt.Sprintf("there must be %d routes, there are %d", n, routes))
				}
				for _, a := range all[:n] {
					m := s.method(a.name)
					if m == nil {
						return
					}
					p, _, _ := strings.Cut(a.path, "?")
					if got := m.anno("Path"); got != fmt.Sprintf("@Path(%q)", p) {
						o.javaFail("SvcResources."+a.name, "the path must be "+p+", it is annotated "+got)
					}
					var verbs []string
					for _, v := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
						if m.anno(v) != "" {
							verbs = append(verbs, v)
						}
					}
					if strings.Join(verbs, " ") != a.method {
						o.javaFail("SvcResources."+a.name, fmt.Sprintf("the method must be %s, it is %v", a.method, verbs))
					}
					if m.anno("Produces") != "@Produces(MediaType.APPLICATION_JSON)" && m.anno("Produces") != `@Produces("application/json")` {
						o.javaFail("SvcResources."+a.name, "the answer must be JSON")
					}
				}
			})
		}
	}
	for _, method := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		for _, body := range []bool{true, false} {
			method, body := method, body
			if body && method != "PUT" && method != "POST" && method != "PATCH" {
				continue
			}
			modes(fmt.Sprintf("method %s, body %v", method, body), func(b *B, o *O, opts []string, imm, se bool) {
				a := jact{name: "act", method: method, path: "/x", ins: func(b *B) []*Term {
					ps := []*Term{javaIn(b, "id", "String", "query", false, nil)}
					if body {
						ps = append(ps, javaIn(b, "payload", "Inner", "", true, nil))
					}
					return ps
				}, outs: func(b *B) []*Term { return []*Term{b.param(F{"Name": b.atom("item"), "Type": "Inner"})} }}
				g := o.javaCode(b.javaExport(b.javaService("", a), append(opts, "server", "client")...), "a "+method+" action")
				if g == nil {
					return
				}
				if s := o.javaServer(g); s != nil {
					if m := s.method("act"); m != nil && m.anno(method) == "" {
						o.javaFail("SvcResources.act", "the method must be "+method)
					}
				}
				cl := o.javaClient(g)
				if cl == nil {
					return
				}
				o.javaEval(g, "SvcClient.act", func() {
					cl.status = 200
					f := map[string]JV{"id": JSym{"idval"}}
					want := jrequest{method: method, path: "/x", query: map[string]string{"q-n": "idval"}, accept: "application/json", header: map[string]string{}, resolve: map[string]string{}}
					if body {
						f["payload"] = JSym{"bodyval"}
						want.entity = "bodyval"
					}
					cl.run("act", javaResponse(g, "ActRequest", f), nil)
					got := cl.request()
					if !body && got.entity == `""` && (method == "PUT" || method == "POST" || method == "PATCH") {
						got.entity = ""
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						o.javaFail("SvcClient.act", fmt.Sprintf("the request must be %v, it is %v", want, got))
					}
				})
			})
		}
	}
	// inputs
	for _, t := range javaParams {
		for _, pl := range goPlaces {
			for _, req := range []bool{true, false} {
				t, pl, req := t, pl, req
				c.check(fmt.Sprintf("%s input in the %s, required %v", t, pl, req), nil, func(b *B, o *O) {
					mode := javaModes[(len(t)+len(pl))%len(javaModes)]
					a := jact{name: "act", method: "PUT", path: "/x/{one}/{two}", ins: func(b *B) []*Term {
						return []*Term{javaIn(b, "one", t, pl, req, nil), b.param(F{"Name": b.atom("two"), "Type": "String", "Path": true, "Required": true}), javaIn(b, "payload", "Inner", "", true, nil)}
					}}
					g := o.javaCode(b.javaExport(b.javaService("", a), append(strings.Fields(mode), "server", "client")...), "a "+t+" input")
					if g == nil {
						return
					}
					s, cl := o.javaServer(g), o.javaClient(g)
					if s == nil || cl == nil {
						return
					}
					m := s.method("act")
					if m == nil {
						return
					}
					an := map[string]string{"query": `@QueryParam("q-n")`, "header": `@HeaderParam("X-Hd")`, "path": `@PathParam("one")`}[pl]
					var places []string
					var args []JV
					for i, p := range m.Params {
						var k []string
						for _, x := range p.Annos {
							k = append(k, x.annoText())
						}
						places = append(places, strings.Join(k, " ")+" "+p.Name)
						args = append(args, JSym{"in" + fmt.Sprint(i)})
					}
					want := []string{an + " one", `@PathParam("two") two`, " payload"}
					if strings.Join(places, "; ") != strings.Join(want, "; ") {
						o.javaFail("SvcResources.act", fmt.Sprintf("the inputs must be %v, they are %v", want, places))
						return
					}
					if !sameType(m.Params[0].Type, javaType(t, false)) && !sameType(m.Params[0].Type, javaType(t, true)) {
						o.javaFail("SvcResources.act", "the input must be a "+javaType(t, false)+", it is a "+m.Params[0].Type)
					}
					o.javaEval(g, "SvcResources.act", func() {
						s.impl = func(rq JV) (JV, JV) { return javaResponse(g, "ActResponse", nil), nil }
						v, th := s.run("act", args...)
						s.want("act", v, th, 200, "null", map[string]string{})
						if len(s.got) != 1 || show(s.got[0]) != "ActRequest{one: in0, payload: in2, two: in1}" {
							o.javaFail("SvcResources.act", fmt.Sprintf("the implementation must get every input under its name, it gets %s", show(JArr(s.got))))
						}
					})
					o.javaEval(g, "SvcClient.act", func() {
						cl.status = 200
						cl.run("act", javaResponse(g, "ActRequest", map[string]JV{"one": JSym{"v1"}, "two": JSym{"v2"}, "payload": JSym{"v3"}}), nil)
						want := jrequest{method: "PUT", path: "/x/{one}/{two}", query: map[string]string{}, header: map[string]string{}, resolve: map[string]string{"two": "v2"}, entity: "v3", accept: "application/json"}
						switch pl {
						case "query":
							want.query["q-n"] = "v1"
						case "header":
							want.header["X-Hd"] = "v1"
						case "path":
							want.resolve["one"] = "v1"
						}
						if got := cl.request(); fmt.Sprint(got) != fmt.Sprint(want) {
							o.javaFail("SvcClient.act", fmt.Sprintf("the request must be %v, it is %v", want, got))
						}
					})
				})
			}
		}
	}
	// defaults
	for _, k := range []struct {
		typ, want string
		val       func(b *B) *Term
	}{{"String", "dflt", func(b *B) *Term { return b.str("dflt") }}, {"String", `a"b`, func(b *B) *Term { return b.str(`a"b`) }},
		{"String", "dflt", func(b *B) *Term { p := b.strp("dflt"); return b.any(p.t, p) }},
		{"Int32", "12", func(b *B) *Term { d := b.dec(b.e.T.Int(12)); return b.any(d.t, d) }}, {"Float64", "12", func(b *B) *Term { d := b.dec(b.e.T.Int(12)); return b.any(d.t, d) }},
		{"String", "", func(b *B) *Term { p := b.strp(""); return b.any(p.t, p) }}, {"String", "a\\b\n", func(b *B) *Term { p := b.strp("a\\b\n"); return b.any(p.t, p) }}, {"String", "a, b", func(b *B) *Term { p := b.strp("a, b"); return b.any(p.t, p) }},
		{"Int32", "0", javaNum("0")}, {"Int32", "-5", javaNum("-5")}, {"Int64", "9007199254740993", javaNum("9007199254740993")}, {"Decimal", "123456789012345678901234567890", javaNum("123456789012345678901234567890")},
		{"Float64", "10000000", javaNum("10000000")}, {"Decimal", "0.1", javaNum("0.1")}, {"Float64", "0.1", javaNum("0.1")}, {"Float32", "0.000001", javaNum("0.000001")}, {"Float64", "123456789012", javaNum("123456789012")}, {"Int64", "1000000000000", javaNum("1000000000000")}, {"Float64", "1.5", javaNum("1.5")}, {"Float32", "-0.25", javaNum("-0.25")}, {"Decimal", "12.5", javaNum("12.5")},
		{"Timestamp", "2019-02-03T22:48:19.043Z", func(b *B) *Term { return b.strAny("2019-02-03T22:48:19.043Z") }}, {"UUID", "1ce437b0-1dd2-11b2-81ef-003ee1be85f9", func(b *B) *Term { return b.strAny("1ce437b0-1dd2-11b2-81ef-003ee1be85f9") }},
		{"Bool", "true", func(b *B) *Term { return b.boolAny(true) }}, {"Bool", "false", func(b *B) *Term { return b.boolAny(false) }}, {"Label", "dflt", func(b *B) *Term { return b.str("dflt") }}} {
		for _, pl := range []string{"query", "header"} {
			k, pl := k, pl
			c.check(fmt.Sprintf("default %s of a %s in the %s", k.want, k.typ, pl), nil, func(b *B, o *O) {
				a := jact{name: "act", method: "GET", path: "/x", ins: func(b *B) []*Term {
					return []*Term{javaIn(b, "one", k.typ, pl, false, F{"Default": k.val(b)}), javaIn(b, "two", "String", map[string]string{"query": "header", "header": "query"}[pl], false, nil)}
				}}
				g := o.javaCode(b.javaExport(b.javaService("", a), "server"), "a default")
				if g == nil {
					return
				}
				if s := o.javaServer(g); s != nil {
					if m := s.method("act"); m != nil {
						if got := m.Params[0].anno("DefaultValue"); got != fmt.Sprintf("@DefaultValue(%q)", k.want) {
							o.javaFail("SvcResources.act", "the default must be "+k.want+", it is annotated "+got)
						}
						if got := m.Params[1].anno("DefaultValue"); got != "" {
							o.javaFail("SvcResources.act", "an input without default must have none, it is annotated "+got)
						}
					}
				}
			})
		}
	}
	// results
	for _, t := range append([]string{"Inner", "Names", "Listing", "Index", "Either", "Price", "Any"}, javaParams...) {
		for _, hdr := range []bool{true, false} {
			t, hdr := t, hdr
			modes(fmt.Sprintf("result of type %s, with headers %v", t, hdr), func(b *B, o *O, opts []string, imm, se bool) {
				a := jact{name: "act", method: "GET", path: "/x", status: 203, outs: func(b *B) []*Term {
					outs := []*Term{b.param(F{"Name": b.atom("item"), "Type": t, "Required": true})}
					if hdr {
						outs = append(outs, b.param(F{"Name": b.atom("etag"), "Type": "String", "Header": "E-Tag"}), b.param(F{"Name": b.atom("mod"), "Type": "Timestamp", "Header": "Mod"}))
					}
					return outs
				}}
				g := o.javaCode(b.javaExport(b.javaService("", a), append(opts, "server", "client")...), "a "+t+" result")
				if g == nil {
					return
				}
				s, cl := o.javaServer(g), o.javaClient(g)
				if s == nil || cl == nil {
					return
				}
				vals := map[string]JV{"item": JSym{"itemval"}}
				hs := map[string]string{}
				if hdr {
					vals["etag"], vals["mod"] = JSym{"etagval"}, JSym{"modval"}
					hs["E-Tag"], hs["Mod"] = "etagval", "modval"
				}
				jt := javaType(t, true)
				if t == "Listing" {
					jt = "List<Inner>"
				}
				o.javaEval(g, "SvcResources.act", func() {
					s.impl = func(rq JV) (JV, JV) { return javaResponse(g, "ActResponse", vals), nil }
					v, th := s.run("act")
					ent := "itemval"
					if jt == "String" {
						ent = "json(itemval)"
					}
					s.want("act", v, th, 203, ent, hs)
				})
				o.javaEval(g, "SvcClient.act", func() {
					cl.status = 203
					v, th := cl.run("act", javaResponse(g, "ActRequest", nil), nil)
					ent := "entity(" + jt + ".class):" + jt
					if jt == "String" {
						ent = "fromjson(" + ent + ")"
					}
					want := "ActResponse{item: " + ent + "}"
					if hdr {
						want = "ActResponse{etag: hdr(E-Tag), item: " + ent + ", mod: Instant.parse(hdr(Mod))}"
					}
					if th != nil || show(v) != want {
						o.javaFail("SvcClient.act", fmt.Sprintf("the result must be %s, it is %s %s", want, show(v), show(th)))
					}
				})
			})
		}
	}
	for _, t := range javaParams {
		for _, req := range []bool{true, false} {
			t, req := t, req
			c.check(fmt.Sprintf("result header of type %s, required %v", t, req), nil, func(b *B, o *O) {
				mode := javaModes[len(t)%len(javaModes)]
				a := jact{name: "act", method: "GET", path: "/x", status: 204, outs: func(b *B) []*Term {
					return []*Term{b.param(F{"Name": b.atom("hd"), "Type": t, "Required": req, "Header": "Hd"})}
				}}
				g := o.javaCode(b.javaExport(b.javaService("", a), append(strings.Fields(mode), "server", "client")...), "a "+t+" header")
				if g == nil {
					return
				}
				s, cl := o.javaServer(g), o.javaClient(g)
				if s == nil || cl == nil {
					return
				}
				o.javaEval(g, "SvcResources.act", func() {
					s.impl = func(rq JV) (JV, JV) { return javaResponse(g, "ActResponse", map[string]JV{"hd": JSym{"hdval"}}), nil }
					v, th := s.run("act")
					s.want("act", v, th, 204, "null", map[string]string{"Hd": "hdval"})
				})
				o.javaEval(g, "SvcClient.act", func() {
					cl.status = 204
					if t == "Color" {
						// an enum is read from its text, which the evaluation does not follow for unknown texts
						return
					}
					v, th := cl.run("act", javaResponse(g, "ActRequest", nil), nil)
					ok := map[string]bool{}
					h := "hdr(Hd)"
					box, prim := javaType(t, false), javaType(t, true)
					switch box {
					case "String":
						ok[h] = true
					case "Instant":
						ok["Instant.parse("+h+")"] = true
					case "UUID":
						ok["UUID.fromString("+h+")"] = true
					case "BigDecimal":
						ok["new BigDecimal("+h+")"] = true
					default:
						ok[box+".valueOf("+h+")"] = true
						ok[box+".parse"+strings.ToUpper(prim[:1])+prim[1:]+"("+h+")"] = true
					}
					ob, is := v.(*JObj)
					if th != nil || !is || !ok[show(ob.fields["hd"])] {
						o.javaFail("SvcClient.act", fmt.Sprintf("the header must be read as a %s, the result is %s %s", box, show(v), show(th)))
					}
					if !req {
						cl.sent = nil
						v, th = cl.run("act", javaResponse(g, "ActRequest", nil), map[string]bool{"Hd": true})
						if th != nil || show(v) != "ActResponse{hd: null}" {
							o.javaFail("SvcClient.act", fmt.Sprintf("an absent header must be null, the result is %s %s", show(v), show(th)))
						}
					}
				})
			})
		}
	}
	// exceptions
	for _, outs := range []bool{true, false} {
		outs := outs
		for n := 0; n <= 3; n++ {
			n := n
			modes(fmt.Sprintf("%d exceptions, with result %v", n, outs), func(b *B, o *O, opts []string, imm, se bool) {
				all := map[int]string{404: "NotFound", 409: "Conflict", 418: "Teapot"}
				ex := map[int]string{}
				for i, k := range []int{404, 409, 418} {
					if i < n {
						ex[k] = all[k]
					}
				}
				a := jact{name: "act", method: "GET", path: "/x", status: 201, excs: ex}
				other := jact{name: "another", method: "GET", path: "/y", excs: all}
				if outs {
					a.outs = func(b *B) []*Term { return []*Term{b.param(F{"Name": b.atom("item"), "Type": "Inner"})} }
				}
				g := o.javaCode(b.javaExport(b.javaService("", a, other), append(opts, "server", "client")...), "exceptions")
				if g == nil {
					return
				}
				s, cl := o.javaServer(g), o.javaClient(g)
				if s == nil || cl == nil {
					return
				}
				for _, k := range []int{404, 409, 418} {
					t := all[k]
					o.javaEval(g, "SvcResources.act", func() {
						e := javaResponse(g, t, map[string]JV{})
						thrown := e
						if se {
							thrown = javaResponse(g, "ServiceException", map[string]JV{"entity": e})
						}
						s.impl = func(rq JV) (JV, JV) { return nil, thrown }
						v, th := s.run("act")
						if ex[k] == "" {
							if se {
								s.want("act", v, th, 500, "*", nil)
							} else {
								s.want("act", v, th, 500, "null", nil)
							}
							return
						}
						s.want("act", v, th, k, show(e), nil)
						r := reply1(v, th)
						if r.entity != e {
							o.javaFail("SvcResources.act", "the body must be the exception, it is "+show(r.entity))
						}
					})
					o.javaEval(g, "SvcClient.act", func() {
						cl.status = k
						cl.sent = nil
						v, th := cl.run("act", javaResponse(g, "ActRequest", nil), nil)
						if th == nil {
							o.javaFail("SvcClient.act", fmt.Sprintf("the status %d must be an exception, the result is %s", k, show(v)))
							return
						}
						want := "entity(" + t + ".class):" + t
						got := show(th)
						if x, ok := th.(*JObj); ok && se && x.class.Name == "ServiceException" {
							got = show(x.fields["entity"])
						}
						if ex[k] == "" {
							if !strings.HasPrefix(got, "new RuntimeException(") && !strings.Contains(got, "Exception") || strings.Contains(got, "entity(") {
								o.javaFail("SvcClient.act", "an undeclared status must be a general failure, it is "+got)
							}
						} else if got != want {
							o.javaFail("SvcClient.act", fmt.Sprintf("the status %d must be the exception %s, it is %s", k, t, got))
						}
					})
				}
				o.javaEval(g, "SvcResources.act", func() {
					s.impl = func(rq JV) (JV, JV) { return nil, JSym{"boom:RuntimeException"} }
					v, th := s.run("act")
					s.want("act", v, th, 500, "null", nil)
				})
				o.javaEval(g, "SvcClient.act", func() {
					for _, st := range []int{200, 500, 302} {
						cl.status = st
						cl.sent = nil
						v, th := cl.run("act", javaResponse(g, "ActRequest", nil), nil)
						if th == nil {
							o.javaFail("SvcClient.act", fmt.Sprintf("the status %d must be a failure, the result is %s", st, show(v)))
						}
					}
				})
			})
		}
	}
	// the example implementation
	modes("example implementation", func(b *B, o *O, opts []string, imm, se bool) {
		acts := []jact{{name: "getIt", method: "GET", path: "/x", outs: func(b *B) []*Term { return []*Term{b.param(F{"Name": b.atom("item"), "Type": "Timestamp"})} }}, {name: "drop", method: "DELETE", path: "/x"}}
		g := o.javaCode(b.javaExport(b.javaService("", acts...), append(opts, "server", "example-implementation")...), "an example implementation")
		if g == nil {
			return
		}
		im := o.javaClass(g, "SvcController", "")
		mn := o.javaClass(g, "Main", "")
		if im == nil || mn == nil {
			return
		}
		if strings.Join(im.Impl, " ") != "Svc" {
			o.javaFail("SvcController", "the example must implement the service")
		}
		if !strings.Contains(g.text[strings.TrimPrefix(g.unit[mn].Name, "/")], "bind(SvcController.class).to(Svc.class)") {
			o.javaFail("Main", "the server must run the implementation")
		}
		if ms := mn.methods("main"); len(ms) != 1 || !ms[0].mod("static") || !ms[0].mod("public") {
			o.javaFail("Main", "the launcher must have a main method")
		}
	})
	for _, op := range []string{"os.MkdirAll", "os.Create", "write"} {
		for _, what := range []string{"server", "client"} {
			op, what := op, what
			c.check("failing "+op+" is reported by the "+what, &Scenario{fails: map[string]int{op: 1}}, func(b *B, o *O) {
				m := b.javaService("", jact{name: "act", method: "GET", path: "/x"})
				o.reject(b.javaExport(m, "model=false", what), "a failure of the file system")
			})
		}
	}
	// where the code goes
	for _, k := range [][3]string{{"server", "", "out/src/main/java/pkg/server/SvcResources.java"}, {"server", "server-package=q.r", "out/src/main/java/q/r/SvcResources.java"},
		{"client", "", "out/src/main/java/pkg/client/SvcClient.java"}, {"client", "client-package=q.r", "out/src/main/java/q/r/SvcClient.java"}} {
		k := k
		c.check("place of the "+k[0]+" "+k[1], nil, func(b *B, o *O) {
			opts := []string{k[0]}
			if k[1] != "" {
				opts = append(opts, k[1])
			}
			g := o.javaCode(b.javaExport(b.javaService("", jact{name: "act", method: "GET", path: "/x"}), opts...), "a "+k[0])
			if g == nil {
				return
			}
			if g.text[k[2]] == "" {
				o.javaFail(k[0], "the code must be written to "+k[2])
			}
		})
	}
}
