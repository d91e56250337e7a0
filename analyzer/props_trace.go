package main

// props_trace.go: C28 (HTTP traces of examples).

import (
	"fmt"
	"go/constant"
	"go/token"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

func init() {
	register(&Property{id: "C28", dress: true, rule: "The HTTP trace of an action's examples is the request and the answer that its declaration gives for the example's values.", run: runC28})
}

func (b *B) example(target, name string, val *Term) *Term {
	return b.obj("ExampleDef", F{"Target": target, "Name": name, "Example": val})
}

// traceText gives the text with JSON values in brackets and lengths computed from it.
func (b *B) traceText(t *Term) (string, bool) {
	switch {
	case t.op == OCat:
		var sb strings.Builder
		for _, x := range t.args {
			s, ok := b.traceText(x)
			if !ok {
				return sb.String(), false
			}
			sb.WriteString(s)
		}
		return sb.String(), true
	case t.op == OCall && (t.s == "jsonindent" || t.s == "json") && len(t.args) == 1:
		return "⟦" + t.args[0].Path() + "⟧", true
	case t.op == OCall && t.s == "time.Format" && len(t.args) == 2:
		l, _ := t.args[1].isStr()
		if l == http.TimeFormat && t.args[0].op == OCall && t.args[0].s == "time.UTC" {
			return "DATE", true
		}
		return "BADDATE", true
	case t.op == OCall && t.s == "itoa" && len(t.args) == 1:
		if n, ok := b.traceLen(t.args[0]); ok {
			return strconv.Itoa(n), true
		}
	}
	return renderTerm(t)
}

func (b *B) traceLen(t *Term) (int, bool) {
	if n, ok := t.isInt(); ok {
		return int(n), true
	}
	if t.op == OCall && t.s == "len" && len(t.args) == 1 {
		if r := t.args[0]; r.op == OCall && r.s == "runes" {
			s, ok := b.traceText(r.args[0])
			return utf8.RuneCountInString(s), ok
		}
		s, ok := b.traceText(t.args[0])
		return len(s), ok
	}
	if t.op == OCall && t.s == "runecount" && len(t.args) == 1 {
		s, ok := b.traceText(t.args[0])
		return utf8.RuneCountInString(s), ok
	}
	if t.op == OBin && t.s == "+" {
		n := 0
		for _, x := range t.args {
			k, ok := b.traceLen(x)
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	}
	return 0, false
}

// message is an HTTP request or answer.
type message struct {
	start   string
	headers []string
	body    string
}

func (m message) String() string {
	hs := append([]string{}, m.headers...)
	sort.Strings(hs)
	return m.start + " {" + strings.Join(hs, "; ") + "} " + m.body
}

type trace struct {
	about    string
	req, res message
}

func (t trace) String() string {
	return "[" + t.about + "] request " + t.req.String() + ", answer " + t.res.String()
}

// traces reads the printed text.
func traces(s string) ([]trace, error) {
	var out []trace
	var cur *message
	state := 0
	for _, l := range strings.Split(s, "\n") {
		switch {
		case strings.HasPrefix(l, "#") && strings.HasSuffix(l, "Request:"):
			if len(out) == 0 {
				return nil, fmt.Errorf("a request without a name")
			}
			cur, state = &out[len(out)-1].req, 1
		case strings.HasPrefix(l, "#") && strings.HasSuffix(l, "Response:"):
			if len(out) == 0 {
				return nil, fmt.Errorf("an answer without a request")
			}
			cur, state = &out[len(out)-1].res, 1
		case strings.HasPrefix(l, "#"):
			if a := strings.TrimSpace(l[1:]); a != "" {
				out = append(out, trace{about: a})
			}
			state = 0
		case state == 0:
			if strings.TrimSpace(l) != "" {
				return nil, fmt.Errorf("unexpected text %q", l)
			}
		case state == 1:
			cur.start, state = l, 2
		case state == 2 && l == "":
			state = 3
		case state == 2:
			cur.headers = append(cur.headers, l)
		case state == 3:
			cur.body += l + "\n"
		}
	}
	return out, nil
}

// traced requires the printed text to be exactly these traces.
func (o *O) traced(rs []Ret, what string, want ...trace) { o.tracedOr(rs, what, want, want) }

// tracedOr requires the printed text to be exactly the one or the other of these traces.
func (o *O) tracedOr(rs []Ret, what string, want, alt []trace) {
	b := o.b
	o.expect(rs, what+" must be accepted", func(r Ret) int {
		if r.kind != RReturn {
			return 0
		}
		if n := b.accepts(r); n != 1 {
			return n
		}
		text := ""
		if w := r.st.heap["w:out"]; w != nil {
			xs, ok := b.items(w.val)
			if !ok {
				return -1
			}
			for _, x := range xs {
				if x.op != OCall || x.s != "stdout" {
					o.fail(r.where(o.c.p), what+": something else is done: "+x.Path(), r.st)
					return 1
				}
				s, ok := b.traceText(b.e.res(r.st, x.args[0]))
				if !ok {
					return -1
				}
				text += s
			}
		}
		got, err := traces(text)
		if err != nil {
			o.fail(r.where(o.c.p), fmt.Sprintf("%s: %v", what, err), r.st)
			return 1
		}
		var gs, ws []string
		for _, t := range got {
			for _, m := range []*message{&t.req, &t.res} {
				bodyText := strings.TrimRight(m.body, "\n")
				// the text of a message ends with a newline of its own
				for i, h := range m.headers {
					if n, ok := strings.CutPrefix(h, "Content-Length: "); ok {
						k, err := strconv.Atoi(n)
						if err != nil || k < len(bodyText) || k > len(bodyText)+1 || k > 0 && bodyText == "" {
							o.fail(r.where(o.c.p), fmt.Sprintf("%s: the length is %s, the body has %d bytes", what, n, len(bodyText)), r.st)
							return 1
						}
						m.headers[i] = "Content-Length"
					}
				}
				m.body = bodyText
				m.start = target(m.start)
			}
			gs = append(gs, t.String())
		}
		for _, t := range alt {
			t.req.start = target(t.req.start)
			ws = append(ws, t.String())
		}
		if strings.Join(gs, "\n") != strings.Join(ws, "\n") {
			ws = nil
			for _, t := range want {
				t.req.start = target(t.req.start)
				ws = append(ws, t.String())
			}
		}
		if len(gs) != len(ws) {
			o.fail(r.where(o.c.p), fmt.Sprintf("%s: there must be %d traces, there are %d: %s", what, len(ws), len(gs), strings.Join(gs, "\n")), r.st)
			return 1
		}
		for i := range gs {
			if gs[i] != ws[i] {
				o.fail(r.where(o.c.p), fmt.Sprintf("%s: the trace must be %s\n    it is %s", what, ws[i], gs[i]), r.st)
				return 1
			}
		}
		return 1
	})
}

// target gives a request line with its address decoded and encoded again, part by part: how it is encoded does not matter.
func target(line string) string {
	w := strings.Split(line, " ")
	if len(w) != 3 {
		return line
	}
	p, q, has := strings.Cut(w[1], "?")
	segs := strings.Split(p, "/")
	for i, s := range segs {
		if d, err := url.PathUnescape(s); err == nil && !strings.Contains(s, "#") {
			segs[i] = url.QueryEscape(d)
		}
	}
	w[1] = strings.Join(segs, "/")
	if has {
		items := strings.Split(q, "&")
		for i, s := range items {
			k, v, _ := strings.Cut(s, "=")
			d, err := url.QueryUnescape(v)
			if err == nil && !strings.ContainsAny(v, "#=") {
				items[i] = k + "=" + url.QueryEscape(d)
			}
		}
		w[1] += "?" + strings.Join(items, "&")
	}
	return strings.Join(w, " ")
}

// decimalConst is the number of the text.
func (b *B) decimalConst(s string) *Term {
	t := strings.TrimPrefix(s, "-")
	k := token.INT
	if strings.Contains(t, ".") {
		k = token.FLOAT
	}
	v := constant.MakeFromLiteral(t, k, 0)
	if t != s {
		v = constant.UnaryOp(token.SUB, v, 0)
	}
	if k == token.INT {
		if _, ok := constant.Int64Val(v); ok {
			return b.e.T.Const(v, tI64)
		}
	}
	return b.e.T.Const(v, tF64)
}

func runC28(c *C) {
	type val struct {
		name, typ, text string
		v               func(b *B) *Term
	}
	strp := func(s string) func(b *B) *Term {
		return func(b *B) *Term { p := b.strp(s); return b.any(p.t, p) }
	}
	vals := []val{{"text", "String", "abc", strp("abc")}, {"plain text", "String", "abc", func(b *B) *Term { return b.str("abc") }},
		{"number", "Int32", "12", func(b *B) *Term { d := b.dec(b.e.T.Int(12)); return b.any(d.t, d) }},
		{"true", "Bool", "true", func(b *B) *Term { return b.boolAny(true) }}, {"false", "Bool", "false", func(b *B) *Term { return b.boolAny(false) }}}
	for _, s := range []string{"a b", "a&b=c", "x/y", "50%", "é", "a?b", "abc=", "=", "#1", "{x}", "a+b", "%20", ";", "a:b@c", "\"q\""} {
		vals = append(vals, val{fmt.Sprintf("text %q", s), "String", s, strp(s)})
	}
	for _, n := range []string{"0", "1000000", "-5", "0.1", "-0.0000001", "123456789012345678901234567890", "3.141592653589793238462643383279", "100000000000000000000000", "16777217", "2.5"} {
		n := n
		vals = append(vals, val{"number " + n, "Decimal", n, func(b *B) *Term { d := b.dec(b.decimalConst(n)); return b.any(d.t, d) }})
	}
	vals = append(vals, val{"the empty text", "String", "", strp("")}, val{"plain empty text", "String", "", func(b *B) *Term { return b.str("") }})
	vals = append(vals, val{"plain text a&b", "String", "a&b", func(b *B) *Term { return b.str("a&b") }})
	key := func(b *B, k string) *Term { return b.e.T.Str(k) }
	inner := func(b *B, n int64) *Term { return b.mapAny(key(b, "x"), b.any(tInt, b.e.T.Int(n))) }
	js := func(n int) string { return fmt.Sprintf(`⟦&(map(entry("x",%d)))⟧`, n) }
	accept := "Accept: application/json"
	resh := []string{"Content-Type: application/json; charset=utf-8", "Date: DATE", "Content-Length"}
	about := func(name, act string) string { return name + " (action=" + act + ")" }
	run := func(b *B, acts []*Term, exs ...*Term) []Ret {
		m := b.newModel(F{"Name": "svc", "Http": b.list(acts...), "Examples": b.list(exs...), "Types": b.list(b.others()...)})
		return b.call(nil, "httptrace", "Export", m, b.config())
	}
	// one input
	for _, v := range vals {
		for _, pl := range []string{"path", "query", "header"} {
			for _, present := range []bool{true, false} {
				for _, hasBody := range []bool{true, false} {
					v, pl, present, hasBody := v, pl, present, hasBody
					if pl == "path" && !present || pl != "header" && v.text == "" {
						continue
					}
					c.check(fmt.Sprintf("%s in the %s, present %v, with body %v", v.name, pl, present, hasBody), nil, func(b *B, o *O) {
						in := F{"Name": "one", "Type": v.typ}
						path, wantPath := "/x", "/x"
						hs := []string{accept}
						switch pl {
						case "path":
							in["Path"] = true
							path, wantPath = "/x/{one}/y", "/x/"+url.PathEscape(v.text)+"/y"
						case "query":
							in["Query"] = "q-n"
							path = "/x?q-n={one}"
							if present {
								wantPath = "/x?q-n=" + url.QueryEscape(v.text)
							}
						case "header":
							in["Header"] = "X-Hd"
							if present {
								hs = append(hs, "X-Hd: "+v.text)
							}
						}
						ins := []*Term{b.param(in)}
						var kv []*Term
						if present {
							kv = append(kv, key(b, "one"), v.v(b))
						}
						body := ""
						if hasBody {
							ins = append(ins, b.param(F{"Name": "payload", "Type": "Inner"}))
							kv = append(kv, key(b, "payload"), inner(b, 7))
							body = js(7)
						}
						act := b.action("putIt", F{"Method": "PUT", "Path": path, "Inputs": b.list(ins...), "Expected": b.expected(204)})
						o.traced(run(b, []*Term{act}, b.example("PutItRequest", "ex1", b.mapAny(kv...)), b.example("PutItResponse", "ex1", b.mapAny())), "a request",
							trace{about("ex1", "putIt"), message{"PUT " + wantPath + " HTTP/1.1", hs, body}, message{"HTTP/1.1 204 No Content", resh, ""}})
					})
				}
			}
		}
		// result headers
		for _, present := range []bool{true, false} {
			for _, body := range []bool{true, false} {
				v, present, body := v, present, body
				c.check(fmt.Sprintf("%s in a result header, present %v, with body %v", v.name, present, body), nil, func(b *B, o *O) {
					outs := []*Term{b.param(F{"Name": "hd", "Type": v.typ, "Header": "X-Out"}), b.param(F{"Name": "item", "Type": "Inner"})}
					var kv []*Term
					hs := append([]string{}, resh...)
					if present {
						kv = append(kv, key(b, "hd"), v.v(b))
						hs = append(hs, "X-Out: "+v.text)
					}
					text := ""
					if body {
						kv = append(kv, key(b, "item"), inner(b, 8))
						text = js(8)
					}
					act := b.action("getIt", F{"Method": "GET", "Path": "/x", "Expected": b.expected(203, outs...)})
					o.traced(run(b, []*Term{act}, b.example("GetItRequest", "ex1", b.mapAny()), b.example("GetItResponse", "ex1", b.mapAny(kv...))), "an answer",
						trace{about("ex1", "getIt"), message{"GET /x HTTP/1.1", []string{accept}, ""}, message{"HTTP/1.1 203 Non-Authoritative Information", hs, text}})
				})
			}
		}
	}
	// several queries, each present or not
	for mask := 0; mask < 8; mask++ {
		mask := mask
		c.check(fmt.Sprintf("three queries, present %03b", mask), nil, func(b *B, o *O) {
			var ins, kv []*Term
			var qs []string
			for i, n := range []string{"aa", "bb", "cc"} {
				ins = append(ins, b.param(F{"Name": n, "Type": "String", "Query": "q" + n}))
				if mask&(1<<i) != 0 {
					kv = append(kv, key(b, n), strp("v"+n)(b))
					qs = append(qs, "q"+n+"=v"+n)
				}
			}
			want := "/x"
			if len(qs) > 0 {
				want += "?" + strings.Join(qs, "&")
			}
			act := b.action("getIt", F{"Method": "GET", "Path": "/x?qaa={aa}&qbb={bb}&qcc={cc}", "Inputs": b.list(ins...), "Expected": b.expected(200)})
			o.traced(run(b, []*Term{act}, b.example("GetItRequest", "ex1", b.mapAny(kv...))), "queries",
				trace{about("ex1", "getIt"), message{"GET " + want + " HTTP/1.1", []string{accept}, ""}, message{}})
		})
	}
	c.check("values that look like inputs", nil, func(b *B, o *O) {
		act := b.action("getIt", F{"Method": "GET", "Path": "/{aa}/x/{bb}?q={cc}", "Inputs": b.list(b.param(F{"Name": "aa", "Type": "String", "Path": true}), b.param(F{"Name": "bb", "Type": "String", "Path": true}), b.param(F{"Name": "cc", "Type": "String", "Query": "q"})), "Expected": b.expected(200)})
		o.traced(run(b, []*Term{act}, b.example("GetItRequest", "ex1", b.mapAny(key(b, "aa"), strp("{bb}")(b), key(b, "bb"), strp("{cc}")(b), key(b, "cc"), strp("{aa}")(b)))), "paths",
			trace{about("ex1", "getIt"), message{"GET /%7Bbb%7D/x/%7Bcc%7D?q=%7Baa%7D HTTP/1.1", []string{accept}, ""}, message{}})
	})
	for _, base := range []string{"/v1", "/a/b"} {
		base := base
		c.check("a model with the base path "+base, nil, func(b *B, o *O) {
			act := b.action("getIt", F{"Method": "GET", "Path": "/x/{aa}?q={bb}", "Inputs": b.list(b.param(F{"Name": "aa", "Type": "String", "Path": true}), b.param(F{"Name": "bb", "Type": "String", "Query": "q"})), "Expected": b.expected(200)})
			m := b.newModel(F{"Name": "svc", "Base": base, "Http": b.list(act), "Types": b.list(b.others()...), "Examples": b.list(b.example("GetItRequest", "ex1", b.mapAny(key(b, "aa"), strp("one")(b), key(b, "bb"), strp("two")(b))))})
			o.traced(b.call(nil, "httptrace", "Export", m, b.config()), "a request under the base path",
				trace{about("ex1", "getIt"), message{"GET " + base + "/x/one?q=two HTTP/1.1", []string{accept}, ""}, message{}})
		})
	}
	c.check("several path inputs", nil, func(b *B, o *O) {
		act := b.action("getIt", F{"Method": "GET", "Path": "/{aa}/x/{bb}/{aa}", "Inputs": b.list(b.param(F{"Name": "bb", "Type": "String", "Path": true}), b.param(F{"Name": "aa", "Type": "String", "Path": true})), "Expected": b.expected(200)})
		o.traced(run(b, []*Term{act}, b.example("GetItRequest", "ex1", b.mapAny(key(b, "aa"), strp("one")(b), key(b, "bb"), strp("two")(b)))), "paths",
			trace{about("ex1", "getIt"), message{"GET /one/x/two/one HTTP/1.1", []string{accept}, ""}, message{}})
	})
	// pairing
	get := func(b *B, name, path string, excs ...*Term) *Term {
		return b.action(name, F{"Method": "GET", "Path": path, "Expected": b.expected(200, b.param(F{"Name": "item", "Type": "Inner"})), "Exceptions": b.list(excs...),
			"Inputs": b.list(b.param(F{"Name": "hd", "Type": "String", "Header": "H"}))})
	}
	req := func(b *B, target, name, v string) *Term {
		return b.example(target, name, b.mapAny(key(b, "hd"), strp(v)(b)))
	}
	res := func(b *B, target, name string, n int64) *Term {
		return b.example(target, name, b.mapAny(key(b, "item"), inner(b, n)))
	}
	rq := func(path, h string) message {
		return message{"GET " + path + " HTTP/1.1", []string{accept, "H: " + h}, ""}
	}
	ok := func(n int) message { return message{"HTTP/1.1 200 OK", resh, js(n)} }
	for order := 0; order <= 2; order++ {
		sc := &Scenario{mapOrder: order}
		c.check(fmt.Sprintf("examples come in order and are paired by name, map order %d", order), sc, func(b *B, o *O) {
			o.traced(run(b, []*Term{get(b, "getIt", "/x"), get(b, "other", "/y")},
				res(b, "GetItResponse", "ex2", 2), req(b, "GetItRequest", "ex1", "h1"), req(b, "OtherRequest", "ex1", "h4"), res(b, "GetItResponse", "ex1", 1), req(b, "GetItRequest", "ex2", "h2"),
				req(b, "GetItRequest", "ex3", "h3"), res(b, "OtherResponse", "ex1", 4), res(b, "OtherResponse", "ex3", 5)), "examples",
				trace{about("ex1", "getIt"), rq("/x", "h1"), ok(1)}, trace{about("ex2", "getIt"), rq("/x", "h2"), ok(2)}, trace{about("ex3", "getIt"), rq("/x", "h3"), message{}},
				trace{about("ex1", "other"), rq("/y", "h4"), ok(4)})
		})
	}
	// names that occur in real services
	for _, h := range headerTexts {
		if h == "Accept" || h == "Content-Type" || h == "Content-Length" || h == "Date" {
			// these describe the message itself
			continue
		}
		h := h
		c.check("the header "+h, nil, func(b *B, o *O) {
			act := b.action("putIt", F{"Method": "PUT", "Path": "/x", "Inputs": b.list(b.param(F{"Name": "one", "Type": "String", "Header": h}), b.param(F{"Name": "payload", "Type": "Inner"})),
				"Expected": b.expected(201, b.param(F{"Name": "two", "Type": "String", "Header": h}), b.param(F{"Name": "item", "Type": "Inner"}))})
			o.traced(run(b, []*Term{act}, b.example("PutItRequest", "ex1", b.mapAny(key(b, "one"), strp("v w")(b), key(b, "payload"), inner(b, 7))), b.example("PutItResponse", "ex1", b.mapAny(key(b, "two"), strp("x y")(b), key(b, "item"), inner(b, 8)))), "a header",
				trace{about("ex1", "putIt"), message{"PUT /x HTTP/1.1", []string{accept, h + ": v w"}, js(7)}, message{"HTTP/1.1 201 Created", append([]string{h + ": x y"}, resh...), js(8)}})
		})
	}
	for _, h := range []string{"Accept-Language", "Accept-Encoding", "X-Accept", "x-accept"} {
		h := h
		c.check("the request header "+h, nil, func(b *B, o *O) {
			act := b.action("getIt", F{"Method": "GET", "Path": "/x", "Inputs": b.list(b.param(F{"Name": "one", "Type": "String", "Header": h})), "Expected": b.expected(200)})
			o.traced(run(b, []*Term{act}, b.example("GetItRequest", "ex1", b.mapAny(key(b, "one"), strp("de")(b)))), "a header",
				trace{about("ex1", "getIt"), message{"GET /x HTTP/1.1", []string{accept, h + ": de"}, ""}, message{}})
		})
	}
	for n := 1; n <= 3; n++ {
		n := n
		c.check(fmt.Sprintf("many queries, 1 of %d present", n), nil, func(b *B, o *O) {
			var ins, kv []*Term
			var path, want []string
			for i, q := range append([]string{"_start", "x-y", "a.b", "p_1"}, queryTexts...) {
				nm := fmt.Sprint("in", i, "x")
				ins = append(ins, b.param(F{"Name": nm, "Type": "String", "Query": q}))
				path = append(path, q+"={"+nm+"}")
				if i%n == 0 {
					kv = append(kv, key(b, nm), strp(fmt.Sprint("v", i))(b))
					want = append(want, q+"="+fmt.Sprint("v", i))
				}
			}
			act := b.action("getIt", F{"Method": "GET", "Path": "/x?" + strings.Join(path, "&"), "Inputs": b.list(ins...), "Expected": b.expected(200)})
			o.traced(run(b, []*Term{act}, b.example("GetItRequest", "ex1", b.mapAny(kv...))), "queries",
				trace{about("ex1", "getIt"), message{"GET /x?" + strings.Join(want, "&") + " HTTP/1.1", []string{accept}, ""}, message{}})
		})
	}
	for _, m := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		for _, st := range []int{200, 201, 202, 204, 206} {
			m, st := m, st
			if m == "HEAD" {
				// whether an answer without body shows one is not decided here
				continue
			}
			c.check(fmt.Sprintf("a %s with the status %d", m, st), nil, func(b *B, o *O) {
				var ins, kv []*Term
				body := ""
				ins = append(ins, b.param(F{"Name": "id", "Type": "String", "Path": true}))
				kv = append(kv, key(b, "id"), strp("me")(b))
				if m == "PUT" || m == "POST" || m == "PATCH" {
					ins = append(ins, b.param(F{"Name": "payload", "Type": "Inner"}))
					kv = append(kv, key(b, "payload"), inner(b, 7))
					body = js(7)
				}
				act := b.action("doIt", F{"Method": m, "Path": "/x/{id}", "Inputs": b.list(ins...), "Expected": b.expected(st, b.param(F{"Name": "hd", "Type": "String", "Header": "X-Out"}), b.param(F{"Name": "item", "Type": "Inner"}))})
				text := js(8)
				if st == 204 {
					text = ""
				}
				o.traced(run(b, []*Term{act}, b.example("DoItRequest", "ex1", b.mapAny(kv...)), b.example("DoItResponse", "ex1", b.mapAny(key(b, "hd"), strp("v")(b), key(b, "item"), inner(b, 8)))), "an answer",
					trace{about("ex1", "doIt"), message{m + " /x/me HTTP/1.1", []string{accept}, body}, message{fmt.Sprintf("HTTP/1.1 %d %s", st, http.StatusText(st)), append([]string{"X-Out: v"}, resh...), text}})
			})
		}
	}
	c.check("an action without examples has no trace", nil, func(b *B, o *O) {
		o.traced(run(b, []*Term{get(b, "getIt", "/x"), get(b, "other", "/y")}, req(b, "OtherRequest", "ex1", "h4"), res(b, "GetItResponse", "ex1", 1)), "examples",
			trace{about("ex1", "other"), rq("/y", "h4"), message{}})
	})
	exc := func(b *B, st int, t string) *Term {
		return b.obj("HttpExceptionSpec", F{"Status": st, "Type": t})
	}
	c.check("examples of exceptions", nil, func(b *B, o *O) {
		a := get(b, "getIt", "/x", exc(b, 404, "NotFound"), exc(b, 409, "Conflict"))
		o.traced(run(b, []*Term{a, get(b, "other", "/y", exc(b, 410, "NotFound"))}, req(b, "GetItRequest", "ex1", "h1"), b.example("Conflict", "ex1", inner(b, 1)), req(b, "GetItRequest", "ex2", "h2"), b.example("NotFound", "ex2", inner(b, 2)),
			req(b, "GetItRequest", "ex3", "h3"), b.example("Teapot", "ex3", inner(b, 3)), req(b, "OtherRequest", "ex4", "h4"), b.example("NotFound", "ex4", inner(b, 4)), b.example("Conflict", "ex4", inner(b, 5))), "exceptions",
			trace{about("ex1", "getIt"), rq("/x", "h1"), message{"HTTP/1.1 409 Conflict", resh, js(1)}}, trace{about("ex2", "getIt"), rq("/x", "h2"), message{"HTTP/1.1 404 Not Found", resh, js(2)}},
			trace{about("ex3", "getIt"), rq("/x", "h3"), message{}}, trace{about("ex4", "other"), rq("/y", "h4"), message{"HTTP/1.1 410 Gone", resh, js(4)}})
	})
	for i := 0; i < 2; i++ {
		i := i
		c.check(fmt.Sprintf("an answer and an exception of the same name, exception first %v", i == 0), nil, func(b *B, o *O) {
			a := get(b, "getIt", "/x", exc(b, 404, "NotFound"))
			exs := []*Term{b.example("NotFound", "ex1", inner(b, 2)), req(b, "GetItRequest", "ex1", "h1"), res(b, "GetItResponse", "ex1", 1)}
			if i == 1 {
				exs[0], exs[2] = exs[2], exs[0]
			}
			o.tracedOr(run(b, []*Term{a}, exs...), "one of the answers", []trace{{about("ex1", "getIt"), rq("/x", "h1"), message{"HTTP/1.1 404 Not Found", resh, js(2)}}}, []trace{{about("ex1", "getIt"), rq("/x", "h1"), ok(1)}})
		})
	}
	c.check("an exception of an action without declared outcome", nil, func(b *B, o *O) {
		a := b.action("getIt", F{"Method": "GET", "Path": "/x", "Exceptions": b.list(exc(b, 404, "NotFound"))})
		o.traced(run(b, []*Term{a}, b.example("GetItRequest", "ex1", b.mapAny()), b.example("NotFound", "ex1", inner(b, 1))), "an exception",
			trace{about("ex1", "getIt"), message{"GET /x HTTP/1.1", []string{accept}, ""}, message{"HTTP/1.1 404 Not Found", resh, js(1)}})
	})
	c.check("an exception that is no object", nil, func(b *B, o *O) {
		a := get(b, "getIt", "/x", exc(b, 404, "NotFound"))
		o.traced(run(b, []*Term{a}, req(b, "GetItRequest", "ex1", "h1"), b.example("NotFound", "ex1", b.str("gone"))), "an exception",
			trace{about("ex1", "getIt"), rq("/x", "h1"), message{"HTTP/1.1 404 Not Found", resh, `⟦&("gone")⟧`}})
	})
	c.check("a status without content has no body", nil, func(b *B, o *O) {
		a := b.action("getIt", F{"Method": "GET", "Path": "/x", "Expected": b.expected(204, b.param(F{"Name": "item", "Type": "Inner"}))})
		o.traced(run(b, []*Term{a}, b.example("GetItRequest", "ex1", b.mapAny()), res(b, "GetItResponse", "ex1", 1)), "no content",
			trace{about("ex1", "getIt"), message{"GET /x HTTP/1.1", []string{accept}, ""}, message{"HTTP/1.1 204 No Content", resh, ""}})
	})
	for _, status := range httpStatuses() {
		status := status
		n, err := strconv.Atoi(status)
		if err != nil {
			continue
		}
		line := "HTTP/1.1 " + status + " " + http.StatusText(n)
		c.check("status "+status, nil, func(b *B, o *O) {
			if n >= 400 {
				a := get(b, "getIt", "/x", exc(b, n, "Failed"))
				o.traced(run(b, []*Term{a}, req(b, "GetItRequest", "ex1", "h1"), b.example("Failed", "ex1", inner(b, 1))), "an exception",
					trace{about("ex1", "getIt"), rq("/x", "h1"), message{line, resh, js(1)}})
				return
			}
			text := js(1)
			if n == 204 {
				text = ""
			}
			a := b.action("getIt", F{"Method": "GET", "Path": "/x", "Expected": b.expected(n, b.param(F{"Name": "item", "Type": "Inner"}))})
			o.traced(run(b, []*Term{a}, b.example("GetItRequest", "ex1", b.mapAny()), res(b, "GetItResponse", "ex1", 1)), "an answer",
				trace{about("ex1", "getIt"), message{"GET /x HTTP/1.1", []string{accept}, ""}, message{line, resh, text}})
		})
	}
	for mask := 0; mask < 4; mask++ {
		mask := mask
		c.check(fmt.Sprintf("fixed parts of a path, query present %v, fixed first %v", mask&1 != 0, mask&2 != 0), nil, func(b *B, o *O) {
			path, want := "/x/do.it?q={one}&v=2&flag", "/x/do.it?q=abc&v=2&flag"
			if mask&2 != 0 {
				path, want = "/x/do.it?v=2&flag&q={one}", "/x/do.it?v=2&flag&q=abc"
			}
			var kv []*Term
			if mask&1 != 0 {
				kv = append(kv, key(b, "one"), strp("abc")(b))
			} else {
				want = "/x/do.it?v=2&flag"
			}
			act := b.action("getIt", F{"Method": "GET", "Path": path, "Inputs": b.list(b.param(F{"Name": "one", "Type": "String", "Query": "q"})), "Expected": b.expected(200)})
			o.traced(run(b, []*Term{act}, b.example("GetItRequest", "ex1", b.mapAny(kv...))), "a request",
				trace{about("ex1", "getIt"), message{"GET " + want + " HTTP/1.1", []string{accept}, ""}, message{}})
		})
	}
	c.check("examples without names", nil, func(b *B, o *O) {
		o.traced(run(b, []*Term{get(b, "getIt", "/x")}, req(b, "GetItRequest", "", "h1"), res(b, "GetItResponse", "", 2)), "examples",
			trace{strings.TrimSpace(about("", "getIt")), rq("/x", "h1"), ok(2)})
	})
	for _, t := range []string{"GetItRequest", "GetItResponse"} {
		t := t
		c.check("an example of "+t+" that is no object is reported", nil, func(b *B, o *O) {
			exs := []*Term{b.example(t, "ex1", b.str("abc"))}
			if t == "GetItResponse" {
				exs = append(exs, req(b, "GetItRequest", "ex1", "h1"))
			}
			o.reject(run(b, []*Term{get(b, "getIt", "/x")}, exs...), "an example that is no object")
		})
	}
}
