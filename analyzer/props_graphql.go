package main

// props_graphql.go: C22, GraphQL export; C23, GraphQL import.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register(&Property{id: "C22", dress: true, rule: "FromSadl writes one GraphQL definition for each struct, enum and union with the same members, and refers only to GraphQL types that exist.", run: runC22})
	register(&Property{id: "C23", rule: "Import turns every GraphQL object, enum and union definition into a type with the same members, and reports what it does not support.", run: runC23})
}

// sdl reads the subset of the GraphQL schema language that definitions of types use: a map from "kind Name" to members.
// Comments are returned by the member they precede.
func sdl(s string) (defs map[string][]string, order []string, comments map[string]string, err error) {
	defs, comments = map[string][]string{}, map[string]string{}
	type tok struct {
		t, comment string
	}
	var toks []tok
	pending := ""
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == ' ' || c == '\n' || c == '\t' || c == ',' || c == '\r':
			i++
		case c == '#':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				j = len(s) - i
			}
			if pending != "" {
				pending += " "
			}
			if k := strings.IndexByte(s[i:i+j], '\r'); k >= 0 { // a carriage return ends a line, too
				j = k
			}
			pending += strings.TrimSpace(s[i+1 : i+j])
			i += j
		case c == '"':
			q := 1
			end := `"`
			if strings.HasPrefix(s[i:], `"""`) {
				q, end = 3, `"""`
			}
			j := strings.Index(s[i+q:], end)
			if j < 0 {
				return nil, nil, nil, fmt.Errorf("unterminated text")
			}
			if pending != "" {
				pending += " "
			}
			pending += strings.TrimSpace(s[i+q : i+q+j])
			i += q + j + q
		case strings.IndexByte("{}:[]!=|", c) >= 0:
			toks = append(toks, tok{string(c), ""})
			i++
		case c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
			toks = append(toks, tok{s[i:j], pending})
			pending = ""
			i = j
		default:
			return nil, nil, nil, fmt.Errorf("unexpected character %q", string(c))
		}
	}
	p := 0
	peek := func() string {
		if p < len(toks) {
			return toks[p].t
		}
		return ""
	}
	name := func() string {
		t := peek()
		if t == "" || strings.IndexByte("{}:[]!=|", t[0]) >= 0 || t[0] >= '0' && t[0] <= '9' {
			err = fmt.Errorf("a name is expected, not %q", t)
			return ""
		}
		p++
		return t
	}
	eat := func(w string) {
		if peek() != w {
			if err == nil {
				err = fmt.Errorf("%q is expected, not %q", w, peek())
			}
			return
		}
		p++
	}
	var typ func() string
	typ = func() string {
		r := ""
		if peek() == "[" {
			p++
			r = "[" + typ() + "]"
			eat("]")
		} else {
			r = name()
		}
		if peek() == "!" {
			p++
			r += "!"
		}
		return r
	}
	for p < len(toks) && err == nil {
		dc := toks[p].comment
		kind := name()
		nm := name()
		key := kind + " " + nm
		if _, dup := defs[key]; dup {
			return nil, nil, nil, fmt.Errorf("%s is defined twice", key)
		}
		order = append(order, key)
		comments[key] = dc
		defs[key] = []string{}
		switch kind {
		case "type", "enum", "input", "interface":
			eat("{")
			for peek() != "}" && err == nil {
				if p < len(toks) {
					dc = toks[p].comment
				}
				m := name()
				comments[key+"."+m] = dc
				if kind != "enum" {
					eat(":")
					m += ": " + typ()
				}
				defs[key] = append(defs[key], m)
			}
			eat("}")
		case "union":
			eat("=")
			if peek() == "|" {
				p++
			}
			defs[key] = append(defs[key], name())
			for peek() == "|" && err == nil {
				p++
				defs[key] = append(defs[key], name())
			}
		case "scalar":
		default:
			return nil, nil, nil, fmt.Errorf("unknown definition %q", kind)
		}
	}
	return
}

// graphqlText requires the exported text to have exactly the given definitions, and every reference to be defined.
func (o *O) graphqlText(rs []Ret, what string, want map[string][]string, comments map[string]string) {
	b := o.b
	o.expect(rs, what, func(r Ret) int {
		if r.kind != RReturn {
			return 0
		}
		if n := b.accepts(r); n != 1 {
			return n
		}
		s, ok := b.render(r.st, valOf(r))
		if !ok {
			return -1
		}
		defs, _, cm, err := sdl(s)
		if err != nil {
			o.fail(r.where(o.c.p), fmt.Sprintf("%s: the text is not GraphQL: %v; in %q", what, err, s), r.st)
			return 1
		}
		var keys []string
		for k := range want {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			got, ok := defs[k]
			if !ok {
				o.fail(r.where(o.c.p), fmt.Sprintf("%s: %q is not defined", what, k), r.st)
				return 1
			}
			g, w := strings.Join(got, ", "), strings.Join(want[k], ", ")
			if strings.HasPrefix(k, "union") {
				x, y := append([]string{}, got...), append([]string{}, want[k]...)
				sort.Strings(x)
				sort.Strings(y)
				g, w = strings.Join(x, ", "), strings.Join(y, ", ")
			}
			if g != w {
				o.fail(r.where(o.c.p), fmt.Sprintf("%s: %q has the members (%s), not (%s)", what, k, g, w), r.st)
				return 1
			}
		}
		for k := range defs {
			if _, ok := want[k]; !ok {
				o.fail(r.where(o.c.p), fmt.Sprintf("%s: %q is defined in addition", what, k), r.st)
				return 1
			}
		}
		for k, w := range comments {
			if !strings.Contains(words(cm[k]), words(w)) {
				o.fail(r.where(o.c.p), fmt.Sprintf("%s: the comment of %s is %q, not %q", what, k, cm[k], w), r.st)
				return 1
			}
		}
		known := map[string]bool{"Int": true, "Float": true, "String": true, "Boolean": true, "ID": true}
		for k := range defs {
			known[strings.SplitN(k, " ", 2)[1]] = true
		}
		for k, ms := range defs {
			for _, m := range ms {
				t := m
				if i := strings.Index(m, ": "); i >= 0 {
					t = m[i+2:]
				} else if strings.HasPrefix(k, "enum") {
					continue
				}
				if t = strings.Trim(t, "[]!"); !known[t] {
					o.fail(r.where(o.c.p), fmt.Sprintf("%s: %s refers to %q, which is not defined", what, k, t), r.st)
					return 1
				}
			}
		}
		return 1
	})
}

// words is a comment without regard to its lines.
func words(s string) string { return strings.Join(strings.Fields(s), " ") }

var gqlScalars = map[string]string{"Bool": "Boolean", "String": "String", "UUID": "String", "Timestamp": "String", "Int8": "Int", "Int16": "Int", "Int32": "Int", "Float32": "Float", "Float64": "Float", "Int64": "Float", "Decimal": "Float"}

func gqlScalarNames() []string {
	var xs []string
	for k := range gqlScalars {
		xs = append(xs, k)
	}
	sort.Strings(xs)
	return xs
}

func runC22(c *C) {
	pt := func(b *B) *Term {
		return b.tdef("Point", F{"Type": "Struct", "Fields": b.list(b.field("x", F{"Type": "Int32"}))})
	}
	col := func(b *B) *Term { return b.tdef("Color", F{"Type": "Enum", "Elements": b.elems("RED", "BLUE")}) }
	base := func() map[string][]string {
		return map[string][]string{"type Point": {"x: Int"}, "enum Color": {"RED", "BLUE"}}
	}
	run := func(b *B, cfg *Term, tds ...*Term) []Ret {
		return b.call(nil, "graphql", "FromSadl", b.types(tds...), cfg)
	}
	// field types: by base type, by name, through names, in lists; with and without a custom scalar
	for _, t := range gqlScalarNames() {
		custom := []string{""}
		if t == "UUID" || t == "Timestamp" || t == "Int64" || t == "Decimal" {
			custom = append(custom, "Cust")
		}
		for _, cu := range custom {
			for _, req := range []bool{false, true} {
				t, cu, req := t, cu, req
				c.check(fmt.Sprintf("fields of type %s, custom scalar %q, required %v", t, cu, req), nil, func(b *B, o *O) {
					cfg := b.config()
					w := gqlScalars[t]
					want := base()
					if cu != "" {
						cfg = b.config(b.e.T.Str("custom-scalars"), b.json(J{t, cu}))
						w = cu
						want["scalar "+cu] = []string{}
					}
					bang := ""
					if req {
						bang = "!"
					}
					f := func(n string, g F) *Term { g["Required"] = req; return b.field(n, g) }
					want["type Rec"] = []string{"a: " + w + bang, "b: " + w + bang, "c: [" + w + "!]" + bang, "d: [" + w + "!]" + bang, "e: [" + w + "!]" + bang, "f: " + w + bang, "g: [" + w + "!]" + bang}
					rs := run(b, cfg, pt(b), b.tdef("Chain", F{"Type": "Named"}), b.tdef("Named", F{"Type": t}), b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(
						f("a", F{"Type": t}), f("b", F{"Type": "Named"}), f("c", F{"Type": "Array", "Items": t}), f("d", F{"Type": "Array", "Items": "Named"}), f("e", F{"Type": "Arr"}), f("f", F{"Type": "Chain"}), f("g", F{"Type": "ArrN"}))}),
						col(b), b.tdef("Arr", F{"Type": "Array", "Items": t}), b.tdef("ArrN", F{"Type": "Array", "Items": "Named"}))
					o.graphqlText(rs, "the definitions", want, nil)
				})
			}
		}
	}
	for _, t := range []string{"Point", "Color", "Uni"} {
		for _, first := range []bool{false, true} {
			t, first := t, first
			c.check(fmt.Sprintf("fields of the defined type %s, record first %v", t, first), nil, func(b *B, o *O) {
				want := base()
				want["union Uni"] = []string{"Point", "Rec"}
				want["type Rec"] = []string{"a: " + t, "b: " + t + "!", "c: [" + t + "!]", "d: [" + t + "!]!", "e: [[" + t + "!]!]"}
				rec := b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field("a", F{"Type": t}), b.field("b", F{"Type": t, "Required": true}), b.field("c", F{"Type": "Array", "Items": t}), b.field("d", F{"Type": "Arr", "Required": true}), b.field("e", F{"Type": "ArrA"}))})
				tds := []*Term{pt(b), col(b), b.tdef("Uni", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": "Point", "Type": "Point"}), b.obj("UnionVariantDef", F{"Name": "Rec", "Type": "Rec"}))}),
					b.tdef("Arr", F{"Type": "Array", "Items": t}), b.tdef("ArrA", F{"Type": "Array", "Items": "Arr"})}
				if first {
					tds = append([]*Term{rec}, tds...)
				} else {
					tds = append(tds, rec)
				}
				o.graphqlText(run(b, b.config(), tds...), "the definitions", want, nil)
			})
		}
	}
	for n := 0; n <= 4; n++ {
		for mask := 0; mask < 1<<uint(n); mask++ {
			n, mask := n, mask
			c.check(fmt.Sprintf("struct of %d fields, required %b", n, mask), nil, func(b *B, o *O) {
				var fs []*Term
				want := base()
				want["type Rec"] = []string{}
				cm := map[string]string{}
				for i := 0; i < n; i++ {
					nm := fmt.Sprint("f", i)
					t := []string{"String", "Color", "Int16", "Point"}[i]
					g := []string{"String", "Color", "Int", "Point"}[i]
					ff := F{"Type": t, "Required": mask&(1<<uint(i)) != 0}
					if i%2 == 1 {
						ff["Comment"] = b.atom(fmt.Sprint("comment", i))
						cm["type Rec."+nm] = fmt.Sprint("comment", i)
					}
					if mask&(1<<uint(i)) != 0 {
						g += "!"
					}
					fs = append(fs, b.field(b.atom(nm), ff))
					want["type Rec"] = append(want["type Rec"], nm+": "+g)
				}
				o.graphqlText(run(b, b.config(), col(b), b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(fs...)}), pt(b)), "the fields in order", want, cm)
			})
		}
	}
	for _, text := range []string{"two\nlines", "one\n\nand\nmore", "ends\n", "}\n{", "a: Int\nb: Int", "say (hi)", "100%d %s", "# hash", "\\n", "carriage\r\nreturn", "return\ronly", "A sentence. And another one.", "x", "?", "A long text, longer than a line of eighty or a hundred columns, that should be kept as a whole up to its very last word, the end", "see http://example.com/x#y", "TODO", "\"quoted\""} {
		text := text
		c.check(fmt.Sprintf("comment %q", text), nil, func(b *B, o *O) {
			want := base()
			want["type Rec"] = []string{"one: String", "two: Int!"}
			o.graphqlText(run(b, b.config(), col(b), b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field("one", F{"Type": "String", "Comment": text}), b.field("two", F{"Type": "Int16", "Required": true, "Comment": text}))}), pt(b)), "the fields in order", want,
				map[string]string{"type Rec.one": text, "type Rec.two": text})
		})
	}
	for n := 1; n <= 4; n++ {
		n := n
		c.check(fmt.Sprintf("enum of %d elements", n), nil, func(b *B, o *O) {
			var xs []interface{}
			want := base()
			for i := 0; i < n; i++ {
				xs = append(xs, b.atom(fmt.Sprint("EL", i)))
				want["enum Mood"] = append(want["enum Mood"], fmt.Sprint("EL", i))
			}
			o.graphqlText(run(b, b.config(), pt(b), b.tdef("Mood", F{"Type": "Enum", "Elements": b.elems(xs...)}), col(b)), "the elements in order", want, nil)
		})
		c.check(fmt.Sprintf("union of %d variants", n), nil, func(b *B, o *O) {
			want := base()
			var vs, tds []*Term
			for i := 0; i < n; i++ {
				t := fmt.Sprint("Var", i)
				tds = append(tds, b.tdef(t, F{"Type": "Struct", "Fields": b.list(b.field("q", F{"Type": "Bool"}))}))
				want["type "+t] = []string{"q: Boolean"}
				nm := t
				if i%2 == 1 {
					nm = "other"
				}
				vs = append(vs, b.obj("UnionVariantDef", F{"Name": nm, "Type": t}))
				want["union Un"] = append(want["union Un"], t)
			}
			tds = append(tds, b.tdef("Un", F{"Type": "Union", "Variants": b.list(vs...)}), pt(b), col(b))
			o.graphqlText(run(b, b.config(), tds...), "the variants", want, nil)
		})
	}
	// names that occur in real models
	gnames := []string{"id", "ID", "Id", "name", "Name", "type", "_private", "x_1", "URL", "aName", "UNKNOWN", "unknown", "Unknown", "query", "input", "a", "Z9", "user_id", "__x", "description", "enum", "scalar", "Undefined", "NONE", "other"}
	for _, req := range []bool{false, true} {
		for _, t := range []string{"String", "Int64", "Color", "UUID"} {
			req, t := req, t
			c.check(fmt.Sprintf("fields of type %s named as in real models, required %v", t, req), nil, func(b *B, o *O) {
				want := base()
				var fs []*Term
				for _, n := range gnames {
					g := gqlScalars[t]
					if g == "" {
						g = t
					}
					if req {
						g += "!"
					}
					fs = append(fs, b.field(n, F{"Type": t, "Required": req}))
					want["type Rec"] = append(want["type Rec"], n+": "+g)
				}
				o.graphqlText(run(b, b.config(), col(b), b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(fs...)}), pt(b)), "the fields in order", want, nil)
			})
		}
	}
	c.check("enum elements named as in real models", nil, func(b *B, o *O) {
		want := base()
		var xs []interface{}
		for _, n := range gnames {
			xs = append(xs, n)
			want["enum Mood"] = append(want["enum Mood"], n)
		}
		o.graphqlText(run(b, b.config(), pt(b), b.tdef("Mood", F{"Type": "Enum", "Elements": b.elems(xs...)}), col(b)), "the elements in order", want, nil)
	})
	c.check("types named as in real models", nil, func(b *B, o *O) {
		want := map[string][]string{}
		var tds, vs []*Term
		for _, n := range append([]string{"Query", "Mutation", "Date", "point", "Error", "Id_1", "_T", "PageInfo"}, gnames[3:]...) {
			if n == "ID" || n == "enum" || n == "Id" || want["type "+n] != nil {
				continue
			}
			tds = append(tds, b.tdef(n, F{"Type": "Struct", "Fields": b.list(b.field("q", F{"Type": "Bool"}), b.field("r", F{"Type": n}), b.field("s", F{"Type": "Array", "Items": n, "Required": true}))}))
			want["type "+n] = []string{"q: Boolean", "r: " + n, "s: [" + n + "!]!"}
			vs = append(vs, b.obj("UnionVariantDef", F{"Name": "v" + n, "Type": n}))
			want["union Un"] = append(want["union Un"], n)
		}
		o.graphqlText(run(b, b.config(), append(tds, b.tdef("Un", F{"Type": "Union", "Variants": b.list(vs...)}))...), "the types", want, nil)
	})
	for n := 1; n <= 7; n++ {
		n := n
		for _, kind := range []string{"names", "lists"} {
			kind := kind
			c.check(fmt.Sprintf("%d %s deep", n, kind), nil, func(b *B, o *O) {
				var tds []*Term
				g := "Int"
				for i := 0; i < n; i++ {
					in := "Int16"
					if i > 0 {
						in = fmt.Sprint("T", i-1)
					}
					td := F{"Type": in}
					if kind == "lists" {
						td = F{"Type": "Array", "Items": in}
						g = "[" + g + "!]"
					}
					tds = append([]*Term{b.tdef(fmt.Sprint("T", i), td)}, tds...)
				}
				t := fmt.Sprint("T", n-1)
				rec := b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field("a", F{"Type": t}), b.field("b", F{"Type": "Array", "Items": t}), b.field("c", F{"Type": "Array", "Items": t, "Required": true}))})
				o.graphqlText(run(b, b.config(), append(tds, rec)...), "the definitions", map[string][]string{"type Rec": {"a: " + g, "b: [" + g + "!]", "c: [" + g + "!]!"}}, nil)
			})
		}
	}
	for _, cu := range []J{{"UUID", "UUID", "Timestamp", "Timestamp", "Decimal", "Decimal", "Int64", "Int64"}, {"UUID", "Num", "Timestamp", "Number", "Decimal", "N", "Int64", "NumberX"}, {"UUID", "Uid", "Timestamp", "when", "Decimal", "dec", "Int64", "Long"}} {
		cu := cu
		c.check(fmt.Sprintf("custom scalars %v", cu), nil, func(b *B, o *O) {
			m := map[string]string{}
			want := map[string][]string{}
			for i := 0; i < len(cu); i += 2 {
				m[cu[i].(string)] = cu[i+1].(string)
				want["scalar "+cu[i+1].(string)] = []string{}
			}
			want["type Rec"] = []string{"a: " + m["UUID"], "b: " + m["Timestamp"] + "!", "c: [" + m["Decimal"] + "!]", "d: " + m["Int64"], "e: " + m["UUID"]}
			o.graphqlText(run(b, b.config(b.e.T.Str("custom-scalars"), b.json(cu)), b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field("a", F{"Type": "UUID"}), b.field("b", F{"Type": "Timestamp", "Required": true}), b.field("c", F{"Type": "Array", "Items": "Decimal"}), b.field("d", F{"Type": "Int64"}), b.field("e", F{"Type": "UUID"}))})), "each scalar declared once", want, nil)
		})
	}
	c.check("no types", nil, func(b *B, o *O) { o.graphqlText(run(b, b.config()), "no definitions", map[string][]string{}, nil) })
	c.check("several custom scalars", nil, func(b *B, o *O) {
		cfg := b.config(b.e.T.Str("custom-scalars"), b.json(J{"UUID", "Uid", "Timestamp", "When", "Decimal", "Num", "Int64", "Num"}))
		rs := run(b, cfg, b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field("a", F{"Type": "UUID"}), b.field("b", F{"Type": "Timestamp"}), b.field("c", F{"Type": "Decimal"}), b.field("d", F{"Type": "Int64"}), b.field("e", F{"Type": "UUID"}))}))
		o.graphqlText(rs, "each scalar declared once", map[string][]string{"type Rec": {"a: Uid", "b: When", "c: Num", "d: Num", "e: Uid"}, "scalar Uid": {}, "scalar When": {}, "scalar Num": {}}, nil)
	})
	for _, t := range []string{"Map", "Bytes", "Any", "UnitValue", "Struct", "Enum", "Union"} {
		for _, how := range []string{"field", "items", "named"} {
			t, how := t, how
			if how == "named" && (t == "Struct" || t == "Enum" || t == "Union") {
				continue
			}
			c.check(fmt.Sprintf("%s of type %s, which GraphQL does not have", how, t), nil, func(b *B, o *O) {
				tds := []*Term{pt(b)}
				switch how {
				case "field":
					tds = append(tds, b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field("a", F{"Type": "String"}), b.field("b", F{"Type": t}))}))
				case "items":
					tds = append(tds, b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field("b", F{"Type": "Array", "Items": t}))}))
				case "named":
					tds = append(tds, b.tdef("Rec", F{"Type": t}), col(b))
				}
				o.reject(run(b, b.config(), tds...), "a type that GraphQL does not have")
				o.reject(b.call(nil, "graphql", "Export", b.types(tds...), b.config()), "the export of a type that GraphQL does not have")
			})
		}
	}
	c.check("export prints the definitions", nil, func(b *B, o *O) {
		m := b.types(pt(b), col(b))
		text := b.call(nil, "graphql", "FromSadl", m, b.config())
		rs := b.call(nil, "graphql", "Export", m, b.config())
		o.accept(rs, "the export")
		o.expect(rs, "exactly the definitions must be printed", func(r Ret) int {
			if len(text) != 1 || text[0].kind != RReturn {
				return -1
			}
			w := r.st.heap["w:out"]
			if w == nil {
				return 0
			}
			xs, ok := b.items(w.val)
			if !ok {
				return -1
			}
			got := b.e.T.Str("")
			for _, x := range xs {
				if x.op != OCall || x.s != "stdout" {
					return 0
				}
				got = b.e.cat(got, x.args[0])
			}
			g, ok1 := b.render(r.st, b.e.res(r.st, got))
			s, ok2 := b.render(text[0].st, valOf(text[0]))
			if !ok1 || !ok2 {
				return -1
			}
			return boolInt(strings.TrimSpace(g) == strings.TrimSpace(s))
		})
	})
}

const gqlAst = "github.com/graphql-go/graphql/language/ast."

func (b *B) gname(n interface{}) *Term { return b.obj(gqlAst+"Name", F{"Value": n}) }

func (b *B) gnode(kind string, f F) *Term {
	return b.any(types.NewPointer(b.typ(gqlAst+kind)), b.obj(gqlAst+kind, f))
}

// gtype builds a type reference from its text, such as [Int!]!.
func (b *B) gtype(s string) *Term {
	if strings.HasSuffix(s, "!") {
		return b.gnode("NonNull", F{"Type": b.gtype(s[:len(s)-1])})
	}
	if strings.HasPrefix(s, "[") {
		return b.gnode("List", F{"Type": b.gtype(s[1 : len(s)-1])})
	}
	return b.gnode("Named", F{"Name": b.gname(s)})
}

func (b *B) gdesc(s string) *Term {
	if s == "" {
		return b.e.T.Nil()
	}
	return b.obj(gqlAst+"StringValue", F{"Value": s})
}

func (b *B) gobj(name string, fs ...*Term) *Term {
	return b.gnode("ObjectDefinition", F{"Name": b.gname(name), "Fields": b.list(fs...)})
}

func (b *B) gfield(name, typ, desc string) *Term {
	return b.obj(gqlAst+"FieldDefinition", F{"Name": b.gname(name), "Type": b.gtype(typ), "Description": b.gdesc(desc)})
}

func (b *B) gimport(cfg *Term, defs ...*Term) []Ret {
	b.e.sc.graphqlDoc = b.obj(gqlAst+"Document", F{"Definitions": b.list(defs...)})
	return b.call(nil, "graphql", "Import", b.list(b.e.T.Str("dir/s.graphql")), cfg)
}

func runC23(c *C) {
	id := F{"Name": "ID", "Type": "String"}
	conv := map[string]string{"Int": "Int32", "Float": "Float64", "Boolean": "Bool", "String": "String", "ID": "ID", "Other": "Other", "UUID": "UUID", "Timestamp": "Timestamp"}
	names := []string{"Int", "Float", "Boolean", "String", "ID", "Other", "UUID", "Timestamp"}
	other := func(b *B) *Term { return b.gobj("Other", b.gfield("o", "String", "")) }
	wOther := F{"Name": "Other", "Type": "Struct", "Fields": Seq{F{"Name": "o", "Type": "String", "Required": false}}}
	for _, n := range names {
		for _, form := range []string{"%s", "%s!", "[%s]", "[%s!]", "[%s]!", "[%s!]!"} {
			for _, desc := range []string{"", "some text", "two\nlines"} {
				n, form, desc := n, form, desc
				t := fmt.Sprintf(form, n)
				c.check(fmt.Sprintf("field of type %s, description %q", t, desc), nil, func(b *B, o *O) {
					w := F{"Name": "fld", "Type": conv[n], "Items": "", "Required": strings.HasSuffix(form, "]!") || form == "%s!", "Comment": strings.Replace(desc, "\n", " ", -1)}
					if strings.HasPrefix(form, "[") {
						w["Type"], w["Items"] = "Array", conv[n]
					}
					rs := b.gimport(b.config(), other(b), b.gobj("Rec", b.gfield("first", "Int", ""), b.gfield("fld", t, desc), b.gfield("last", "Boolean!", "")))
					o.matchesAt(rs, "the types", Bag{id, wOther, F{"Name": "Rec", "Type": "Struct", "Fields": Seq{F{"Name": "first", "Type": "Int32", "Required": false}, w, F{"Name": "last", "Type": "Bool", "Required": true}}}}, typesPick(b))
				})
			}
		}
		for _, form := range []string{"[[%s]]", "[[%s!]!]!", "[[%s]!]", "[[%s]]!"} {
			t := fmt.Sprintf(form, n)
			c.check("field of type "+t, nil, func(b *B, o *O) {
				o.reject(b.gimport(b.config(), other(b), b.gobj("Rec", b.gfield("fld", t, ""))), "a list of lists")
			})
		}
	}
	fdesc := func(i int) string {
		if i%2 == 0 {
			return ""
		}
		return fmt.Sprintf("d %d\nx", i)
	}
	for k := 0; k <= 9; k++ {
		n, described, about := k/2, k%2 == 0, ""
		if described {
			about = "of it"
		}
		c.check(fmt.Sprintf("object of %d fields, described %v", n, described), nil, func(b *B, o *O) {
			var fs []*Term
			var want Seq
			for i := 0; i < n; i++ {
				fs = append(fs, b.obj(gqlAst+"FieldDefinition", F{"Name": b.gname(b.atom(fmt.Sprint("f", i))), "Type": b.gtype("Int"), "Description": b.gdesc(fdesc(i))}))
				want = append(want, F{"Name": b.atom(fmt.Sprint("f", i)), "Type": "Int32", "Comment": strings.Replace(fdesc(i), "\n", " ", -1)})
			}
			d := b.gnode("ObjectDefinition", F{"Name": b.gname(b.atom("Rec")), "Description": b.gdesc(about), "Fields": b.list(fs...)})
			o.matchesAt(b.gimport(b.config(), d, other(b)), "the types", Bag{id, F{"Name": b.atom("Rec"), "Comment": about, "Type": "Struct", "Fields": want}, wOther}, typesPick(b))
		})
		c.check(fmt.Sprintf("enum of %d values, described %v", n, described), nil, func(b *B, o *O) {
			var vs []*Term
			var want Seq
			for i := 0; i < n; i++ {
				desc := fdesc(i)
				vs = append(vs, b.obj(gqlAst+"EnumValueDefinition", F{"Name": b.gname(b.atom(fmt.Sprint("E", i))), "Description": b.gdesc(desc)}))
				want = append(want, F{"Symbol": b.atom(fmt.Sprint("E", i)), "Comment": strings.Replace(desc, "\n", " ", -1)})
			}
			d := b.gnode("EnumDefinition", F{"Name": b.gname(b.atom("En")), "Description": b.gdesc(about), "Values": b.list(vs...)})
			o.matchesAt(b.gimport(b.config(), other(b), d), "the types", Bag{id, wOther, F{"Name": b.atom("En"), "Comment": about, "Type": "Enum", "Elements": want}}, typesPick(b))
		})
		c.check(fmt.Sprintf("union of %d types, described %v", n, described), nil, func(b *B, o *O) {
			var vs []*Term
			var want Seq
			for i := 0; i < n; i++ {
				vs = append(vs, b.obj(gqlAst+"Named", F{"Name": b.gname(b.atom(fmt.Sprint("V", i)))}))
				want = append(want, F{"Name": b.atom(fmt.Sprint("V", i)), "Type": b.atom(fmt.Sprint("V", i))})
			}
			d := b.gnode("UnionDefinition", F{"Name": b.gname(b.atom("Un")), "Description": b.gdesc(about), "Types": b.list(vs...)})
			o.matchesAt(b.gimport(b.config(), other(b), d), "the types", Bag{id, wOther, F{"Name": b.atom("Un"), "Comment": about, "Type": "Union", "Variants": want}}, typesPick(b))
		})
	}
	// names and descriptions that occur in real documents
	gnames := []string{"id", "ID", "Id", "name", "Name", "type", "_private", "x_1", "URL", "aName", "UNKNOWN", "unknown", "query", "input", "a", "Z9", "user_id", "description", "En", "En_A", "EN_B", "enum", "NONE", "other", "first", "createdAt"}
	descs := []string{"a  b", "one\n\nand more\n\nlast", "A sentence. And another.", "x", "# no comment", "say \"hi\"", "100%d", "a\nb\nc\nd", "trailing\\", "A long text, longer than a line of eighty or a hundred columns, that should be kept as a whole up to its very last word"}
	note := func(i int) string { return descs[i%len(descs)] }
	flat := func(s string) string { return strings.Replace(s, "\n", " ", -1) }
	deprecated := func(b *B) *Term {
		return b.list(b.obj(gqlAst+"Directive", F{"Name": b.gname("deprecated")}))
	}
	c.check("fields named as in real documents", nil, func(b *B, o *O) {
		var fs []*Term
		var want Seq
		for i, n := range gnames {
			f := F{"Name": b.gname(n), "Type": b.gtype("Int"), "Description": b.gdesc(note(i))}
			if i%3 == 0 {
				f["Arguments"] = b.list(b.obj(gqlAst+"InputValueDefinition", F{"Name": b.gname("first"), "Type": b.gtype("Int")}))
			}
			if i%4 == 0 {
				f["Directives"] = deprecated(b)
			}
			fs = append(fs, b.obj(gqlAst+"FieldDefinition", f))
			want = append(want, F{"Name": n, "Type": "Int32", "Comment": flat(note(i))})
		}
		o.matchesAt(b.gimport(b.config(), b.gobj("Rec", fs...), other(b)), "the types", Bag{id, F{"Name": "Rec", "Type": "Struct", "Fields": want}, wOther}, typesPick(b))
	})
	c.check("enum values named as in real documents", nil, func(b *B, o *O) {
		var vs []*Term
		var want Seq
		for i, n := range gnames {
			f := F{"Name": b.gname(n), "Description": b.gdesc(note(i))}
			if i%3 == 0 {
				f["Directives"] = deprecated(b)
			}
			vs = append(vs, b.obj(gqlAst+"EnumValueDefinition", f))
			want = append(want, F{"Symbol": n, "Comment": flat(note(i))})
		}
		d := b.gnode("EnumDefinition", F{"Name": b.gname("En"), "Values": b.list(vs...)})
		o.matchesAt(b.gimport(b.config(), d, other(b)), "the types", Bag{id, F{"Name": "En", "Type": "Enum", "Elements": want}, wOther}, typesPick(b))
	})
	for i, d := range descs {
		i, d := i, d
		c.check(fmt.Sprintf("description %q", d), nil, func(b *B, o *O) {
			kinds := []string{"ObjectDefinition", "EnumDefinition", "UnionDefinition"}
			n := b.gnode(kinds[i%3], F{"Name": b.gname("Rec"), "Description": b.gdesc(d)})
			m := b.gnode(kinds[(i+1)%3], F{"Name": b.gname("Rec2"), "Description": b.gdesc(d)})
			o.matchesAt(b.gimport(b.config(), n, other(b), m), "the types", Bag{id, F{"Name": "Rec", "Comment": flat(d)}, wOther, F{"Name": "Rec2", "Comment": flat(d)}}, typesPick(b))
		})
	}
	c.check("types named as in real documents", nil, func(b *B, o *O) {
		defs := []*Term{b.gnode("SchemaDefinition", F{"OperationTypes": b.list(b.obj(gqlAst+"OperationTypeDefinition", F{"Operation": "query", "Type": b.obj(gqlAst+"Named", F{"Name": b.gname("Query")})}))}), b.gobj("Query", b.gfield("q", "Int", ""))}
		want := Bag{id}
		var vs []*Term
		var wvs Seq
		for _, n := range []string{"Date", "DateTime", "Long", "BigDecimal", "query", "Mutation", "mutation", "QueryResult", "JSON", "Error", "Time", "PageInfo", "_Entity", "Thing_1", "Node", "Id", "id", "point"} {
			defs = append(defs, b.gobj(n, b.gfield("a", n, ""), b.gfield("b", "["+n+"!]!", ""), b.gfield("c", n+"!", ""), b.gfield("d", "["+n+"]", ""), b.gfield("e", "["+n+"!]", ""), b.gfield("f", "["+n+"]!", "")))
			want = append(want, F{"Name": n, "Type": "Struct", "Fields": Seq{F{"Name": "a", "Type": n}, F{"Name": "b", "Type": "Array", "Items": n, "Required": true}, F{"Name": "c", "Type": n, "Required": true}, F{"Name": "d", "Type": "Array", "Items": n}, F{"Name": "e", "Type": "Array", "Items": n}, F{"Name": "f", "Type": "Array", "Items": n, "Required": true}}})
			vs = append(vs, b.obj(gqlAst+"Named", F{"Name": b.gname(n)}))
			wvs = append(wvs, F{"Name": n, "Type": n})
		}
		defs = append(defs, b.gnode("UnionDefinition", F{"Name": b.gname("Un"), "Types": b.list(vs...)}))
		want = append(want, F{"Name": "Un", "Type": "Union", "Variants": wvs})
		o.matchesAt(b.gimport(b.config(), defs...), "the types", want, typesPick(b))
	})
	// several definitions
	for _, at := range []int{0, 1, 2, 3, 4} {
		at := at
		c.check(fmt.Sprintf("schema definition at position %d", at), nil, func(b *B, o *O) {
			ot := func(n string) *Term {
				return b.obj(gqlAst+"OperationTypeDefinition", F{"Operation": "query", "Type": b.obj(gqlAst+"Named", F{"Name": b.gname(n)})})
			}
			sd := b.gnode("SchemaDefinition", F{"OperationTypes": b.list(ot("Query"), ot("Mutation"))})
			defs := []*Term{b.gobj("Query", b.gfield("q", "Int", "")), other(b), b.gnode("EnumDefinition", F{"Name": b.gname("En"), "Values": b.list(b.obj(gqlAst+"EnumValueDefinition", F{"Name": b.gname("A")}))}), b.gobj("Mutation", b.gfield("m", "Int", ""))}
			defs = append(append(append([]*Term{}, defs[:at]...), sd), defs[at:]...)
			o.matchesAt(b.gimport(b.config(), defs...), "the data types", Bag{id, wOther, F{"Name": "En", "Type": "Enum", "Elements": Seq{F{"Symbol": "A"}}}}, typesPick(b))
		})
	}
	c.check("root types of any name, and types with the usual names of root types", nil, func(b *B, o *O) {
		ot := func(op, n string) *Term {
			return b.obj(gqlAst+"OperationTypeDefinition", F{"Operation": op, "Type": b.obj(gqlAst+"Named", F{"Name": b.gname(n)})})
		}
		sd := b.gnode("SchemaDefinition", F{"OperationTypes": b.list(ot("query", "Root"), ot("mutation", "Changes"), ot("subscription", "Feed"))})
		o.matchesAt(b.gimport(b.config(), b.gobj("Root", b.gfield("q", "Int", "")), b.gobj("Query", b.gfield("z", "Int", "")), b.gobj("Changes", b.gfield("q", "Int", "")), sd, b.gobj("Feed", b.gfield("q", "Int", "")), b.gobj("Subscription", b.gfield("z", "Int", ""))), "the data types",
			Bag{id, F{"Name": "Query", "Type": "Struct", "Fields": Seq{F{"Name": "z", "Type": "Int32"}}}, F{"Name": "Subscription", "Type": "Struct", "Fields": Seq{F{"Name": "z", "Type": "Int32"}}}}, typesPick(b))
	})
	c.check("an empty document", nil, func(b *B, o *O) {
		o.matchesAt(b.gimport(b.config()), "the types", Bag{id}, typesPick(b))
	})
	c.check("supported scalars", nil, func(b *B, o *O) {
		rs := b.gimport(b.config(), b.gnode("ScalarDefinition", F{"Name": b.gname("Timestamp")}), other(b), b.gnode("ScalarDefinition", F{"Name": b.gname("UUID")}))
		o.matchesAt(rs, "the types", Bag{id, wOther}, typesPick(b))
	})
	for _, at := range []int{0, 1} {
		at := at
		bad := func(rule string, mk func(b *B) *Term) {
			c.check(fmt.Sprintf("%s, position %d", rule, at), nil, func(b *B, o *O) {
				defs := []*Term{mk(b), other(b)}
				if at == 1 {
					defs[0], defs[1] = defs[1], defs[0]
				}
				o.reject(b.gimport(b.config(), defs...), rule)
			})
		}
		bad("an unknown scalar", func(b *B) *Term { return b.gnode("ScalarDefinition", F{"Name": b.gname(b.atom("Money"))}) })
		for _, n := range []string{"Date", "DateTime", "JSON", "Long", "timestamp", "uuid", "BigInt", "URL", "Time", "Upload"} {
			n := n
			bad("the unknown scalar "+n, func(b *B) *Term { return b.gnode("ScalarDefinition", F{"Name": b.gname(n)}) })
		}
		bad("a directive definition", func(b *B) *Term { return b.gnode("DirectiveDefinition", F{"Name": b.gname("d")}) })
		bad("a type defined twice", func(b *B) *Term { return b.gobj("Other", b.gfield("z", "Int", "")) })
		bad("a base type defined", func(b *B) *Term { return b.gobj("Map", b.gfield("z", "Int", "")) })
	}
	// files, names
	for _, n := range []int{0, 2} {
		n := n
		c.check(fmt.Sprintf("%d files", n), nil, func(b *B, o *O) {
			var xs []*Term
			for i := 0; i < n; i++ {
				xs = append(xs, b.e.T.Str("a.graphql"))
			}
			b.e.sc.graphqlDoc = b.obj(gqlAst+"Document", F{"Definitions": b.list(other(b))})
			o.reject(b.call(nil, "graphql", "Import", b.list(xs...), b.config()), "any number of files but one")
		})
	}
	c.check("unreadable file", &Scenario{fails: map[string]int{"os.ReadFile": 1}}, func(b *B, o *O) { o.reject(b.gimport(b.config(), other(b)), "an unreadable file") })
	c.check("malformed file", &Scenario{fails: map[string]int{"graphql.Parse": 1}}, func(b *B, o *O) { o.reject(b.gimport(b.config(), other(b)), "a malformed file") })
	for mask := 0; mask < 4; mask++ {
		mask := mask
		c.check(fmt.Sprintf("configured name %v, namespace %v", mask&1 != 0, mask&2 != 0), nil, func(b *B, o *O) {
			var kv []*Term
			w := F{"Name": NotEmpty{}, "Namespace": ""}
			if mask&1 != 0 {
				kv = append(kv, b.e.T.Str("name"), b.str(b.atom("nm")))
				w["Name"] = b.atom("nm")
			}
			if mask&2 != 0 {
				kv = append(kv, b.e.T.Str("namespace"), b.str(b.atom("ns")))
				w["Namespace"] = b.atom("ns")
			}
			o.matches(b.gimport(b.config(kv...), other(b)), "the model", w)
		})
	}
	for _, p := range []struct {
		path string
		ok   bool
	}{{"a.graphql", true}, {"dir/a.b.graphql", true}, {"a.sadl", false}, {"graphql", false}, {"a.graphql/x", false}} {
		p := p
		c.check("file name "+p.path, nil, func(b *B, o *O) {
			o.boolean(b.call(nil, "graphql", "IsValidFile", b.e.T.Str(p.path)), p.ok, "the extension decides")
		})
	}
}

func typesPick(b *B) func(r Ret) *Term {
	return func(r Ret) *Term { return b.get(r.st, valOf(r), "Types") }
}
