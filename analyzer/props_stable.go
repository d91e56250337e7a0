package main

// props_stable.go: C29 (the result of a translation depends only on its input) and C30 (a translation leaves its input as it was).

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Property{id: "C29", rule: "What a translation produces does not depend on the order in which maps are visited, nor on translations done before.", run: runC29})
	register(&Property{id: "C30", rule: "A translation leaves the model it is given as it was.", run: runC30})
}

// canon describes a value with everything it refers to, map entries in the order of their keys.
func (b *B) canon(st *State, t *Term) string {
	var sb strings.Builder
	path := map[string]bool{}
	n := 0
	var put func(t *Term)
	entries := func(xs []string) {
		sort.Strings(xs)
		sb.WriteString("map{" + strings.Join(xs, ", ") + "}")
	}
	str := func(f func()) string {
		save := sb
		sb = strings.Builder{}
		f()
		s := sb.String()
		sb = save
		return s
	}
	put = func(t *Term) {
		if n++; n > 2000000 {
			panic(budgetExceeded{"result too large to compare"})
		}
		if t == nil {
			sb.WriteString("-")
			return
		}
		t = b.e.res(st, t)
		switch {
		case t.op == OConst:
			sb.WriteString(t.Path())
		case t.op == OPtr:
			o := b.e.obj(st, t)
			if o == nil || path[t.s] {
				if path[t.s] {
					sb.WriteString("(up)")
				} else {
					sb.WriteString(t.Path())
				}
				return
			}
			path[t.s] = true
			if o.kind == KMap {
				var xs []string
				for _, en := range o.ents {
					en := en
					xs = append(xs, str(func() {
						put(en.k)
						if !en.must {
							sb.WriteString("?")
						}
						sb.WriteString(": ")
						put(en.v)
					}))
				}
				if o.val != nil {
					xs = append(xs, str(func() { put(o.val) }))
				}
				entries(xs)
			} else {
				sb.WriteString("&")
				put(o.val)
			}
			delete(path, t.s)
		case t.op == OCall && t.s == "map":
			var xs []string
			for _, a := range t.args {
				a := a
				xs = append(xs, str(func() { put(a) }))
			}
			entries(xs)
		case len(t.args) == 0:
			sb.WriteString(t.Path())
		default:
			sb.WriteString(strconv.Itoa(int(t.op)) + t.s)
			if t.c != nil {
				sb.WriteString("#" + t.c.ExactString())
			}
			if t.op == OIface && t.t != nil {
				sb.WriteString("<" + t.t.String() + ">")
			}
			sb.WriteString("(")
			for i, a := range t.args {
				if i > 0 {
					sb.WriteString(", ")
				}
				put(a)
			}
			sb.WriteString(")")
		}
	}
	put(t)
	return sb.String()
}

// produced describes everything a call did: what it returned or how it ended, the files, what it printed.
func (b *B) produced(o *O, r Ret, only func(r Ret) *Term) (string, bool) {
	switch r.kind {
	case RPanic:
		return "panic: " + r.msg, true
	case RExit:
		return "exit", true
	}
	var parts []string
	v := r.val
	if only != nil {
		v = only(r)
	}
	parts = append(parts, b.canon(r.st, v))
	if w := r.st.heap["w:out"]; w != nil {
		fs := b.fileState(r.st)
		if fs.unknown {
			return "", false
		}
		var fl []string
		for p, t := range fs.content {
			fl = append(fl, "file "+b.canon(r.st, p)+": "+b.canon(r.st, t))
		}
		sort.Strings(fl)
		parts = append(parts, fl...)
		xs, _ := b.items(w.val)
		for _, x := range xs {
			if x.op == OCall && x.s == "stdout" {
				parts = append(parts, "out "+b.canon(r.st, x))
			}
		}
	}
	return strings.Join(parts, "\n"), true
}

type translation struct {
	name string
	run  func(b *B, st *State, in *Term) []Ret
	in   func(b *B, other bool) *Term // the input: a model, or a document
}

// richModel has several of everything that is kept in a map: annotations, members of example values, types, statuses.
func (b *B) richModel(kind string, other bool) *Term {
	p := ""
	if other {
		p = "Q"
	}
	an := func() *Term { return b.annos("x_b", "two", "x_a", "one", "x_c", "three") }
	ts := []*Term{
		b.tdef(p+"Color", F{"Type": "Enum", "Annotations": an(), "Elements": b.list(b.obj("EnumElementDef", F{"Symbol": "red", "Annotations": an()}), b.obj("EnumElementDef", F{"Symbol": "blue", "Comment": "sky"}))}),
		b.tdef(p+"Label", F{"Type": "String", "Pattern": "^a*$", "MaxSize": b.i64(9), "Comment": "a label"}),
		b.tdef(p+"Inner", F{"Type": "Struct", "Annotations": an(), "Comment": "inner", "Fields": b.list(b.field("x", F{"Type": "String", "Required": true, "Annotations": an()}), b.field("c", F{"Type": p + "Color"}), b.field("n", F{"Type": "Int32", "Min": b.dec(b.e.T.Int(1))}))}),
		b.tdef(p+"Names", F{"Type": "Array", "Items": p + "Inner", "MinSize": b.i64(1)}),
		b.tdef(p+"Gone", F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}),
		b.tdef(p+"Refused", F{"Type": "Struct", "Fields": b.list(b.field("why", F{"Type": "String"}), b.field("when", F{"Type": "Timestamp"}), b.field("id", F{"Type": "UUID"}))}),
	}
	if kind != "graphql" {
		ts = append(ts, b.tdef(p+"Index", F{"Type": "Map", "Keys": "String", "Items": p + "Inner", "Annotations": an()}))
	} else {
		ts = append(ts, b.tdef(p+"Nums", F{"Type": "Struct", "Fields": b.list(b.field("d", F{"Type": "Decimal"}), b.field("l", F{"Type": "Int64"}))}))
	}
	if kind != "openapi" {
		ts = append(ts, b.tdef(p+"Either", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": "left", "Type": p + "Inner"}), b.obj("UnionVariantDef", F{"Name": "right", "Type": p + "Gone"}))}))
	}
	exc := func() *Term {
		return b.list(b.obj("HttpExceptionSpec", F{"Status": 404, "Type": p + "Gone", "Comment": "gone"}), b.obj("HttpExceptionSpec", F{"Status": 409, "Type": p + "Refused", "Annotations": an()}))
	}
	body := func(t string) *Term {
		return b.param(F{"StructFieldDef": b.sv("StructFieldDef", F{"Name": "body", "TypeSpec": b.sv("TypeSpec", F{"Type": t})})})
	}
	in := func(n, t, q, h string, path bool, more F) *Term {
		return b.param(F{"Query": q, "Header": h, "Path": path, "StructFieldDef": b.sv("StructFieldDef", F{"Name": n, "TypeSpec": b.sv("TypeSpec", F{"Type": t})}.with("Comment", "about "+n))})
	}
	out := b.obj("HttpExpectedSpec", F{"Status": 200, "Annotations": an(), "Outputs": b.list(body(p+"Inner"), in("etag", "String", "", "ETag", false, nil))})
	acts := []*Term{
		b.action(p+"getIt", F{"Method": "GET", "Path": "/" + p + "things/{id}?n={n}", "Resource": p + "Inner", "Annotations": b.annos("x_tags", "one,two", "x_b", "v", "x_a", "w"), "Comment": "get it",
			"Inputs": b.list(in("id", "String", "", "", true, nil), in("n", "Int32", "n", "", false, nil), in("since", "String", "", "If-Since", false, nil)), "Expected": out, "Exceptions": exc()}),
		b.action(p+"putIt", F{"Method": "PUT", "Path": "/" + p + "things/{id}", "Resource": p + "Inner", "Annotations": an(), "Inputs": b.list(in("id", "String", "", "", true, nil), body(p+"Inner")),
			"Expected": b.obj("HttpExpectedSpec", F{"Status": 200, "Outputs": b.list(body(p + "Inner"))}), "Exceptions": exc()}),
		b.action(p+"listIt", F{"Method": "GET", "Path": "/" + p + "things", "Expected": b.obj("HttpExpectedSpec", F{"Status": 200, "Outputs": b.list(body(p + "Names"))})}),
	}
	inner := func(s string) *Term { return b.mapAny(b.e.T.Str("x"), b.str(s), b.e.T.Str("c"), b.str("red")) }
	exs := []*Term{
		b.example(p+"Inner", "one", inner("v1")),
		b.example(p+"GetItRequest", "first", b.mapAny(b.e.T.Str("since"), b.str("then"), b.e.T.Str("id"), b.str("i1"), b.e.T.Str("n"), b.anyDec(b.e.T.Int(4)))),
		b.example(p+"GetItResponse", "first", b.mapAny(b.e.T.Str("etag"), b.str("e1"), b.e.T.Str("body"), inner("v2"))),
		b.example(p+"PutItRequest", "first", b.mapAny(b.e.T.Str("id"), b.str("i1"), b.e.T.Str("body"), inner("v3"))),
		b.example(p+"PutItResponse", "first", b.mapAny(b.e.T.Str("body"), inner("v4"))),
		b.example(p+"Gone", "first", b.mapAny(b.e.T.Str("msg"), b.str("m"))),
	}
	f := F{"Name": "svc" + p, "Namespace": "name.space", "Version": "1", "Comment": "about", "Types": b.list(ts...), "Annotations": b.annos("x_license_name", "L", "x_license_url", "U", "x_a", "1"), "Http": b.list(acts...), "Examples": b.list(exs...)}
	switch kind {
	case "graphql":
		f["Http"] = b.list()
		f["Examples"] = b.list()
	case "golang", "java", "trace", "openapi":
	}
	return b.newModel(f)
}

func (b *B) callIn(st *State, f func() []Ret) []Ret {
	if st == nil {
		return f()
	}
	save := b.st
	b.st = st
	rs := f()
	b.st = save
	return rs
}

func translations() []translation {
	model := func(kind string) func(b *B, other bool) *Term {
		return func(b *B, other bool) *Term { return b.richModel(kind, other) }
	}
	out := []translation{
		{"OpenAPI export", func(b *B, st *State, m *Term) []Ret { return b.callIn(st, func() []Ret { return b.oas(m) }) }, model("openapi")},
		{"GraphQL export", func(b *B, st *State, m *Term) []Ret {
			return b.callIn(st, func() []Ret { return b.call(nil, "graphql", "FromSadl", m, b.config()) })
		}, model("graphql")},
		{"GraphQL export with custom scalars", func(b *B, st *State, m *Term) []Ret {
			return b.callIn(st, func() []Ret {
				return b.call(nil, "graphql", "FromSadl", m, b.config(b.e.T.Str("custom-scalars"), b.mapAny(b.e.T.Str("UUID"), b.str("Uid"), b.e.T.Str("Timestamp"), b.str("When"), b.e.T.Str("Int64"), b.str("Long"))))
			})
		}, model("graphql")},
		{"HTTP traces", func(b *B, st *State, m *Term) []Ret {
			return b.callIn(st, func() []Ret { return b.call(nil, "httptrace", "Export", m, b.config()) })
		}, model("trace")},
	}
	out = append(out, translation{"SADL export", func(b *B, st *State, m *Term) []Ret {
		rs := b.callIn(st, func() []Ret { return b.call(nil, "", "DecompileSadl", m) })
		for i := range rs {
			if rs[i].kind == RReturn {
				rs[i].val = b.e.T.Tuple(rs[i].val, b.e.T.Nil())
			}
		}
		return rs
	}, model("sadl")})
	for _, opts := range [][]string{{"server", "client"}, {}} {
		opts := opts
		out = append(out, translation{"Go generation " + strings.Join(opts, "+"), func(b *B, st *State, m *Term) []Ret {
			return b.callIn(st, func() []Ret { return b.goExport(m, opts...) })
		}, model("golang")})
		out = append(out, translation{"Java generation " + strings.Join(opts, "+"), func(b *B, st *State, m *Term) []Ret {
			return b.callIn(st, func() []Ret { return b.javaExport(m, opts...) })
		}, model("java")})
	}
	out = append(out, translation{"OpenAPI import", func(b *B, st *State, d *Term) []Ret {
		return b.callIn(st, func() []Ret { return b.toSadl(d) })
	}, func(b *B, other bool) *Term { return b.richDoc(other) }})
	for _, both := range []string{"a request", "an answer", "an error"} {
		both := both
		out = append(out, translation{"OpenAPI import of two forms of " + both, func(b *B, st *State, d *Term) []Ret {
			return b.callIn(st, func() []Ret { return b.toSadl(d) })
		}, func(b *B, other bool) *Term {
			ct := func(k string) *Term {
				if k != both {
					return b.content("application/json", F{"Schema": b.refSch("Other")})
				}
				return b.content("application/json", F{"Schema": b.refSch("Other")}, "text/plain", F{"Schema": b.refSch("Text")}, "application/json; charset=utf-8", F{"Schema": b.refSch("Third")})
			}
			sch := b.schemas("Other", b.sch(F{"Type": "object", "Properties": b.schemas("a", b.sch(F{"Type": "string"}))}), "Text", b.sch(F{"Type": "string", "MaxLength": b.u64p(7)}), "Third", b.sch(F{"Type": "object", "Properties": b.schemas("b", b.sch(F{"Type": "string"}))}))
			id := "op"
			if other {
				id = "op2"
			}
			return b.oasDoc(sch, b.mapOf("openapi.PathItem", "/x", b.obj("openapi.PathItem", F{"Post": b.obj("openapi.Operation", F{"OperationId": id,
				"RequestBody": b.obj("openapi.RequestBody", F{"Content": ct("a request")}), "Responses": b.resps("200", F{"Content": ct("an answer")}, "404", F{"Content": ct("an error")})})})), nil)
		}})
	}
	out = append(out, translation{"Swagger import", func(b *B, st *State, d *Term) []Ret {
		return b.callIn(st, func() []Ret {
			b.e.sc.decoded = func(e *Engine, st *State, kind string, t types.Type) *Term {
				if _, ok := under(t).(*types.Map); ok {
					return d.args[0]
				}
				return d
			}
			return b.then(b.call(nil, "openapi", "LoadSwagger", b.e.T.Str("dir/x.json")), func(r Ret) []Ret { return b.call(r.st, "openapi", "Model.ToSadl", valOf(r), b.e.T.Str("x")) })
		})
	}, func(b *B, other bool) *Term {
		p := ""
		if other {
			p = "Q"
		}
		ref := func(n string) J { return J{"$ref", "#/definitions/" + p + n} }
		doc := swag("definitions", J{
			p + "Zed", J{"type", "object", "description", "z", "required", JL{"q", "p"}, "properties", J{"r", ref("Col"), "q", J{"type", "string"}, "p", J{"type", "integer", "format", "int64"}}},
			p + "Col", J{"type", "string", "enum", JL{"red", "blue"}},
			p + "Arr", J{"type", "array", "items", ref("Zed")},
			p + "Err", J{"type", "object", "properties", J{"msg", J{"type", "string"}}}},
			"paths", J{
				"/z/{id}", J{"put", J{"operationId", p + "putz", "consumes", JL{"application/json"}, "produces", JL{"application/json"}, "parameters", JL{J{"name", "id", "in", "path", "required", true, "type", "string"}, J{"name", "body", "in", "body", "schema", ref("Zed")}},
					"responses", J{"404", J{"description", "gone", "schema", ref("Err")}, "200", J{"description", "fine", "schema", ref("Zed"), "headers", J{"ETag", J{"type", "string"}, "Age", J{"type", "string"}}}}},
					"get", J{"operationId", p + "getz", "produces", JL{"application/json"}, "parameters", JL{J{"name", "id", "in", "path", "required", true, "type", "string"}}, "responses", J{"200", J{"description", "fine", "schema", ref("Zed")}, "500", J{"description", "bad", "schema", ref("Err")}}}},
				"/a", J{"get", J{"operationId", p + "geta", "produces", JL{"application/json"}, "responses", J{"200", J{"description", "all", "schema", ref("Arr")}}}}})
		return b.json(doc)
	}})
	out = append(out, translation{"GraphQL import", func(b *B, st *State, d *Term) []Ret {
		return b.callIn(st, func() []Ret {
			b.e.sc.graphqlDoc = d
			return b.call(nil, "graphql", "Import", b.list(b.e.T.Str("dir/s.graphql")), b.config())
		})
	}, func(b *B, other bool) *Term {
		p := ""
		if other {
			p = "Q"
		}
		ev := func(n string) *Term { return b.obj(gqlAst+"EnumValueDefinition", F{"Name": b.gname(n)}) }
		return b.obj(gqlAst+"Document", F{"Definitions": b.list(
			b.gobj(p+"Rec", b.gfield("a", "Int!", "an a"), b.gfield("b", "["+p+"Col!]", ""), b.gfield("c", "ID", "")),
			b.gnode("EnumDefinition", F{"Name": b.gname(p + "Col"), "Values": b.list(ev("red"), ev("blue"))}),
			b.gnode("ScalarDefinition", F{"Name": b.gname("UUID")}),
			b.gobj(p+"Two", b.gfield("r", p+"Rec", "")))})
	}})
	return out
}

func (b *B) richDoc(other bool) *Term {
	p := ""
	if other {
		p = "Q"
	}
	str := func() *Term { return b.sch(F{"Type": "string"}) }
	schemas := b.schemas(
		p+"Zed", b.sch(F{"Type": "object", "Description": "z", "Required": b.list(b.e.T.Str("q"), b.e.T.Str("p")), "Properties": b.schemas("r", b.refSch(p+"Col"), "q", str(), "p", b.sch(F{"Type": "integer", "Format": "int64"}))}),
		p+"Col", b.sch(F{"Type": "string", "Enum": b.anyList(b.e.T.Str("red"), b.e.T.Str("blue"))}),
		p+"Arr", b.sch(F{"Type": "array", "Items": b.refSch(p + "Zed")}),
		p+"Err", b.sch(F{"Type": "object", "Properties": b.schemas("msg", str())}),
	)
	param := func(n, in string, req bool) *Term {
		return b.obj("openapi.Parameter", F{"Name": n, "In": in, "Required": req, "Schema": str()})
	}
	jc := func(t string) *Term { return b.content("application/json", F{"Schema": b.refSch(p + t)}) }
	hdr := b.mapOf("openapi.Header", "ETag", b.obj("openapi.Header", F{"Schema": str()}), "Age", b.obj("openapi.Header", F{"Schema": str()}))
	op := func(id string, f F) *Term {
		return b.obj("openapi.Operation", F{"OperationId": p + id, "Tags": b.list(b.e.T.Str("t2"), b.e.T.Str("t1")),
			"Responses": b.resps("404", F{"Content": jc("Err")}, "200", F{"Description": "fine", "Content": jc("Zed"), "Headers": hdr}, "409", F{"Description": "no", "Content": jc("Zed")}, "500", F{"Content": jc("Err")})}.with2(f))
	}
	paths := b.mapOf("openapi.PathItem",
		"/z/{id}", b.obj("openapi.PathItem", F{
			"Put": op("putz", F{"Parameters": b.list(param("id", "path", true)), "RequestBody": b.obj("openapi.RequestBody", F{"Required": true, "Content": jc("Zed")})}),
			"Get": op("getz", F{"Parameters": b.list(param("q", "query", false), param("id", "path", true), param("X-H", "header", false))})}),
		"/a", b.obj("openapi.PathItem", F{"Post": op("posta", F{"RequestBody": b.obj("openapi.RequestBody", F{"Content": jc("Arr")})}), "Delete": op("dela", nil), "Get": op("geta", nil)}),
	)
	return b.oasDoc(schemas, paths, nil)
}

func (f F) with2(g F) F {
	h := F{}
	for k, v := range f {
		h[k] = v
	}
	for k, v := range g {
		h[k] = v
	}
	return h
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 80
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("…%s… and …%s…", cut(a), cut(b))
}

// translated: only a translation that takes place is compared; whether it must take place is for the other properties.
func (o *O) translated(rs []Ret) {
	for _, r := range rs {
		if r.kind != RReturn || o.b.accepts(r) != 1 {
			o.undecided("the translation does not take place: " + r.where(o.c.p) + " " + r.msg)
		}
	}
}

// results describes all outcomes of a translation.
func (b *B) results(o *O, rs []Ret) (string, bool) {
	var xs []string
	for _, r := range rs {
		if r.st != nil && r.st.opaque != nil {
			o.undecided("depends on an uninterpreted decision at " + r.st.opaque.text)
			return "", false
		}
		s, ok := b.produced(o, r, nil)
		if !ok {
			o.undecided("what is produced is not determined")
			return "", false
		}
		xs = append(xs, s)
	}
	if len(xs) == 0 {
		o.undecided("no outcome")
		return "", false
	}
	sort.Strings(xs)
	return strings.Join(xs, "\n---\n"), true
}

func runC29(c *C) {
	for _, tr := range translations() {
		tr := tr
		c.together(func() {
			base, have := "", false
			for order := 0; order < 3; order++ {
				order := order
				c.check(fmt.Sprintf("%s, maps visited in order %d", tr.name, order), &Scenario{mapOrder: order}, func(b *B, o *O) {
					rs := tr.run(b, nil, tr.in(b, false))
					o.translated(rs)
					if o.ob.Status != "" {
						return
					}
					s, ok := b.results(o, rs)
					if !ok {
						return
					}
					if order == 0 {
						base, have = s, true
					} else if !have {
						o.undecided("nothing to compare with")
					} else if s != base {
						o.fail("", "the result depends on the order in which a map is visited: "+firstDiff(base, s), nil)
					}
				})
			}
			c.check(tr.name+", after another translation", nil, func(b *B, o *O) {
				rs := tr.run(b, nil, tr.in(b, true))
				o.translated(rs)
				if o.ob.Status != "" {
					return
				}
				if len(rs) != 1 {
					o.undecided("several outcomes")
					return
				}
				st := rs[0].st
				delete(st.heap, "w:out")
				b.st = st
				rs = tr.run(b, nil, tr.in(b, false))
				o.translated(rs)
				if o.ob.Status != "" {
					return
				}
				s, ok := b.results(o, rs)
				if !ok {
					return
				}
				if !have {
					o.undecided("nothing to compare with")
				} else if s != base {
					o.fail("", "the result depends on the translation done before: "+firstDiff(base, s), nil)
				}
			})
		})
	}
}

func runC30(c *C) {
	for _, tr := range translations() {
		tr := tr
		c.check(tr.name+" leaves its input as it was", nil, func(b *B, o *O) {
			in := tr.in(b, false)
			before := b.canon(b.st, in)
			rs := tr.run(b, nil, in)
			o.translated(rs)
			for _, r := range rs {
				if o.ob.Status != "" {
					return
				}
				if after := b.canon(r.st, in); after != before {
					o.fail("", "the input is changed: "+firstDiff(before, after), r.st)
				}
			}
		})
	}
}
