package main

// props_golang.go: C24 (generated Go model) and C25 (generated Go server and client).

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"sort"
	"strings"
)

func init() {
	register(&Property{id: "C24", dress: true, rule: "The Go generated from a model compiles, declares a Go type of the same JSON form for every type, request and response, and its helpers encode and decode what they say.", run: runC24})
}

// goCode renders what the generator wrote and compiles it; nil when it cannot be judged.
func (o *O) goCode(rs []Ret, what string) *GenGo {
	o.accept(rs, what)
	if o.ob.Status != "" || len(rs) == 0 {
		if len(rs) > 0 && o.ob.Status == "" {
			o.undecided("no outcome")
		}
		return nil
	}
	if len(rs) != 1 {
		o.undecided(fmt.Sprintf("%d outcomes of generating", len(rs)))
		return nil
	}
	return o.goOf(rs[0], what)
}

// goEach judges the generated code of each outcome; num is the number that a representative number is shown as in it.
func (o *O) goEach(rs []Ret, what string, f func(g *GenGo, num func(t *Term) string)) {
	o.accept(rs, what)
	if o.ob.Status != "" || len(rs) == 0 {
		return
	}
	b0 := o.b
	for _, r := range rs {
		r := r
		if g := o.goOf(r, what); g != nil {
			f(g, func(t *Term) string {
				s, ok := b0.render(r.st, t)
				if !ok {
					o.undecided("number not determined: " + t.Path())
				}
				return s
			})
		}
	}
}

func (o *O) goOf(r Ret, what string) *GenGo {
	b := o.b
	fs := b.fileState(r.st)
	if fs.unknown {
		o.undecided("file effects not determined")
		return nil
	}
	text := map[string]string{}
	for p, t := range fs.content {
		name, ok := b.render(r.st, p)
		if !ok {
			o.undecided("file name not determined: " + p.Path())
			return nil
		}
		s, ok := b.render(r.st, t)
		if !ok {
			o.undecided("text not determined: " + name)
			if o.c.debug {
				fmt.Println("text so far:", s)
				fmt.Println("term", t.Path())
			}
			return nil
		}
		text[name] = s
	}
	g, errs := o.c.p.loadGo(text)
	if o.c.debug {
		for n, s := range text {
			fmt.Println("-----", n)
			fmt.Println(s)
		}
	}
	for _, e := range errs {
		if strings.Contains(e, "mux.") || strings.Contains(e, "handlers.") || strings.Contains(e, "could not import") {
			o.undecided("generated code uses a library that is not available here: " + e)
			return nil
		}
	}
	if len(errs) > 0 {
		o.fail("golang.Export (generated code)", what+": the generated Go does not compile: "+errs[0], r.st)
		return nil
	}
	return g
}

func (o *O) goFail(g *GenGo, where, detail string) {
	o.fail("golang.Export (generated "+where+")", detail, nil)
}

// goFields requires a struct to have these fields, each "Name type json".
func (o *O) goFields(g *GenGo, name string, want ...string) {
	got := g.structFields(name)
	if got == nil {
		o.goFail(g, name, "the type "+name+" is not generated")
		return
	}
	if strings.Join(got, "; ") != strings.Join(want, "; ") {
		o.goFail(g, name, fmt.Sprintf("%s must have the fields [%s], it has [%s]", name, strings.Join(want, "; "), strings.Join(got, "; ")))
	}
}

func (o *O) goDecl(g *GenGo, name, want string) {
	if got := g.decl(name); got != want {
		if got == "" {
			got = "not declared"
		}
		o.goFail(g, name, fmt.Sprintf("%s must be %s, it is %s", name, want, got))
	}
}

// goBase: the Go type of a base type.
var goBase = map[string]string{"Bool": "bool", "Int8": "int8", "Int16": "int16", "Int32": "int32", "Int64": "int64", "Float32": "float32", "Float64": "float64",
	"Decimal": "*Decimal", "Bytes": "[]byte", "String": "string", "Timestamp": "*Timestamp", "UUID": "string", "Any": "interface{}"}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// goNamed: the definition of a named type of each base type.
var goNamed = map[string]string{"Bool": "bool", "Int8": "int8", "Int16": "int16", "Int32": "int32", "Int64": "int64", "Float32": "float32", "Float64": "float64",
	"Bytes": "[]byte", "String": "string", "UUID": "string", "Any": "interface{}"}

func (b *B) goExport(m *Term, opts ...string) []Ret {
	var kv []*Term
	for _, o := range opts {
		k, v, _ := strings.Cut(o, "=")
		kv = append(kv, b.e.T.Str(k))
		switch v {
		case "":
			kv = append(kv, b.boolAny(true))
		case "false":
			kv = append(kv, b.boolAny(false))
		default:
			kv = append(kv, b.str(v))
		}
	}
	return b.call(nil, "golang", "Export", m, b.e.T.Str("out"), b.config(kv...))
}

func (b *B) goModel(ts ...*Term) *Term {
	return b.newModel(F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Types": b.list(ts...)})
}

func (b *B) rec(fs ...*Term) *Term {
	return b.tdef(b.atom("Rec"), F{"Type": "Struct", "Fields": b.list(fs...)})
}

// goOthers are types that fields refer to, with the Go type of such a field.
func (b *B) goOthers() ([]*Term, map[string]string) {
	ts := []*Term{
		b.tdef("Inner", F{"Type": "Struct", "Fields": b.list(b.field("x", F{"Type": "String"}))}),
		b.tdef("Color", F{"Type": "Enum", "Elements": b.elems("red", "blue")}),
		b.tdef("Names", F{"Type": "Array", "Items": "String"}),
		b.tdef("Index", F{"Type": "Map", "Keys": "String", "Items": "Inner"}),
		b.tdef("Either", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": "left", "Type": "Inner"}), b.obj("UnionVariantDef", F{"Name": "right", "Type": "Int32"}))}),
		b.tdef("Money", F{"Type": "Decimal"}), b.tdef("Small", F{"Type": "Int16"}), b.tdef("Part", F{"Type": "Float32"}), b.tdef("Label", F{"Type": "String"}),
		b.tdef("Flag", F{"Type": "Bool"}), b.tdef("Blob", F{"Type": "Bytes"}), b.tdef("When", F{"Type": "Timestamp"}), b.tdef("Ident", F{"Type": "UUID"}), b.tdef("Thing", F{"Type": "Any"}),
		b.tdef("Again", F{"Type": "Label"}), b.tdef("Empty", F{"Type": "Struct"}),
	}
	refs := map[string]string{"Inner": "*Inner", "Empty": "*Empty"}
	for _, n := range []string{"Color", "Names", "Index", "Either", "Money", "Small", "Part", "Label", "Flag", "Blob", "When", "Ident", "Thing", "Again"} {
		refs[n] = n
	}
	return ts, refs
}

func runC24(c *C) {
	all := map[string]string{}
	for k, v := range goBase {
		all[k] = v
	}
	func() {
		defer func() { recover() }()
		_, refs := c.p.NewB(nil).goOthers()
		for k, v := range refs {
			all[k] = v
		}
	}()
	same := func(g *GenGo, got, want string) bool {
		n := func(s string) string {
			return strings.ReplaceAll(strings.ReplaceAll(s, "uint8", "byte"), "any", "interface{}")
		}
		return n(got) == n(want)
	}
	tag := func(name string, req bool) string {
		if req {
			return name
		}
		return name + ",omitempty"
	}
	fieldIs := func(o *O, g *GenGo, typ string, i int, name, ft, js string) {
		fs := g.structFields(typ)
		if i >= len(fs) {
			o.goFail(g, typ, fmt.Sprintf("%s must have a field %s, it has %v", typ, name, fs))
			return
		}
		parts := strings.SplitN(fs[i], " ", 2)
		j := strings.LastIndex(fs[i], " ")
		if parts[0] != name || fs[i][j+1:] != js || !same(g, fs[i][len(parts[0])+1:j], ft) {
			o.goFail(g, typ, fmt.Sprintf("the field of %s must be %q, it is %q", typ, name+" "+ft+" "+js, fs[i]))
		}
	}
	// each one alone: what one declaration needs must not come from another
	for _, mode := range []string{"", "runtime"} {
		for _, t := range []string{"Bool", "Int8", "Int64", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Array", "Map", "Any"} {
			for _, how := range []string{"required field", "optional field", "variant", "item", "value", "name"} {
				mode, t, how := mode, t, how
				c.check(fmt.Sprintf("a model of nothing but a %s of type %s, %s", how, t, mode), nil, func(b *B, o *O) {
					var td *Term
					f := F{"Type": t, "Required": how == "required field"}
					switch {
					case t == "Array":
						f["Items"] = "Int32"
					case t == "Map":
						f["Items"], f["Keys"] = "Int32", "String"
					}
					switch how {
					case "variant":
						delete(f, "Required")
						f["Name"] = "vone"
						td = b.tdef("Un", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", f))})
					case "item":
						td = b.rec(b.field("x", F{"Type": "Array", "Items": t, "Required": true}))
					case "value":
						td = b.rec(b.field("x", F{"Type": "Map", "Keys": "String", "Items": t, "Required": true}))
					case "name":
						delete(f, "Required")
						td = b.tdef("Nm", f)
					default:
						td = b.rec(b.field("x", f))
					}
					o.goCode(b.goExport(b.goModel(td), strings.Fields(mode)...), "the only type")
				})
			}
		}
	}
	for _, n := range []string{"a", "A", "URL", "aName", "x_1", "aURL2", "Type", "type", "func", "string"} {
		n := n
		up := strings.ToUpper(n[:1]) + n[1:]
		c.check(fmt.Sprintf("field, variant, input and output %q", n), nil, func(b *B, o *O) {
			others, _ := b.goOthers()
			ts := append(others, b.rec(b.field(b.e.T.Str(n), F{"Type": "String", "Required": true}), b.field(b.e.T.Str(n+"z"), F{"Type": "Inner"})),
				b.tdef("Un", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": n, "Type": "Inner"}), b.obj("UnionVariantDef", F{"Name": "zz", "Type": "Label"}))}))
			act := b.action("getIt", F{"Inputs": b.list(b.param(F{"Name": n, "Type": "String", "Query": "q"})), "Expected": b.expected(200, b.param(F{"Name": n, "Type": "Inner"}))})
			m := b.newModel(F{"Name": "svc", "Types": b.list(ts...), "Http": b.list(act)})
			g := o.goCode(b.goExport(m), "members named "+n)
			if g == nil {
				return
			}
			fieldIs(o, g, "Rec", 0, up, "string", n)
			fieldIs(o, g, "Rec", 1, up+"z", "*Inner", n+"z,omitempty")
			fieldIs(o, g, "Un", 1, up, "*Inner", n+",omitempty")
			fieldIs(o, g, "GetItRequest", 0, up, "string", n+",omitempty")
			fieldIs(o, g, "GetItResponse", 0, up, "*Inner", n+",omitempty")
		})
	}
	for _, t := range sortedKeys(all) {
		t := t
		for _, req := range []bool{true, false} {
			req := req
			c.check(fmt.Sprintf("field of type %s, required %v", t, req), nil, func(b *B, o *O) {
				others, _ := b.goOthers()
				m := b.goModel(append(others, b.rec(b.field(b.atom("one"), F{"Type": t, "Required": req}), b.field(b.atom("two"), F{"Type": "String", "Required": !req})))...)
				g := o.goCode(b.goExport(m), "a struct with a "+t+" field")
				if g == nil {
					return
				}
				fieldIs(o, g, "Rec", 0, "One", all[t], tag("one", req))
				fieldIs(o, g, "Rec", 1, "Two", "string", tag("two", !req))
			})
		}
		c.check("inline array and map of "+t, nil, func(b *B, o *O) {
			others, _ := b.goOthers()
			m := b.goModel(append(others, b.rec(b.field(b.atom("arr"), F{"Type": "Array", "Items": t}), b.field(b.atom("mp"), F{"Type": "Map", "Keys": "String", "Items": t}), b.field(b.atom("mq"), F{"Type": "Map", "Keys": "Label", "Items": t})))...)
			g := o.goCode(b.goExport(m), "a struct with arrays and maps of "+t)
			if g == nil {
				return
			}
			fieldIs(o, g, "Rec", 0, "Arr", "[]"+all[t], "arr,omitempty")
			fieldIs(o, g, "Rec", 1, "Mp", "map[string]"+all[t], "mp,omitempty")
			fieldIs(o, g, "Rec", 2, "Mq", "map[Label]"+all[t], "mq,omitempty")
		})
		c.check("named array and map of "+t, nil, func(b *B, o *O) {
			others, _ := b.goOthers()
			m := b.goModel(append(others, b.tdef(b.atom("Arr"), F{"Type": "Array", "Items": t}), b.tdef(b.atom("Mp"), F{"Type": "Map", "Keys": "String", "Items": t}))...)
			g := o.goCode(b.goExport(m), "array and map types of "+t)
			if g == nil {
				return
			}
			if !same(g, g.decl("Arr"), "[]"+all[t]) {
				o.goFail(g, "Arr", "the array of "+t+" must be []"+all[t]+", it is "+g.decl("Arr"))
			}
			if !same(g, g.decl("Mp"), "map[string]"+all[t]) {
				o.goFail(g, "Mp", "the map to "+t+" must be map[string]"+all[t]+", it is "+g.decl("Mp"))
			}
		})
		c.check("union variant of type "+t, nil, func(b *B, o *O) {
			others, _ := b.goOthers()
			m := b.goModel(append(others, b.tdef(b.atom("Un"), F{"Type": "Union", "Variants": b.list(
				b.obj("UnionVariantDef", F{"Name": b.atom("left"), "Type": t}), b.obj("UnionVariantDef", F{"Name": b.atom("right"), "Type": "String"}))}))...)
			g := o.goCode(b.goExport(m), "a union with a "+t+" variant")
			if g == nil {
				return
			}
			// the variants are fields, each left out of the JSON unless it is set
			found := 0
			for _, f := range g.structFields("Un") {
				for name, ft := range map[string]string{"Left": all[t], "Right": "string"} {
					if strings.HasPrefix(f, name+" ") {
						found++
						js := strings.ToLower(name) + ",omitempty"
						if !same(g, f, name+" "+ft+" "+js) {
							o.goFail(g, "Un", fmt.Sprintf("the variant must be %q, it is %q", name+" "+ft+" "+js, f))
						}
					}
				}
			}
			if found != 2 {
				o.goFail(g, "Un", fmt.Sprintf("the union must have its two variants as fields, it has %v", g.structFields("Un")))
			}
			// the tags tell the variants apart
			seen := map[string]bool{}
			for _, f := range g.structFields("Un") {
				if !strings.HasPrefix(f, "Left ") && !strings.HasPrefix(f, "Right ") && !strings.HasSuffix(f, " -") {
					o.goFail(g, "Un", "only the variants may be in the JSON of a union, "+f+" is too")
				}
			}
			for _, v := range []string{"Left", "Right"} {
				k := g.decl("UnVariantTag" + v)
				if k == "" || seen[k] || strings.HasSuffix(k, " 0") {
					o.goFail(g, "UnVariantTag"+v, "every variant must have a tag of its own, other than zero: "+k)
				}
				seen[k] = true
			}
		})
	}
	// named base types
	for _, t := range sortedKeys(goNamed) {
		t := t
		c.check("named "+t, nil, func(b *B, o *O) {
			m := b.goModel(b.tdef(b.atom("Nm"), F{"Type": t}))
			g := o.goCode(b.goExport(m), "a named "+t)
			if g == nil {
				return
			}
			if got := g.decl("Nm"); !same(g, got, goNamed[t]) {
				o.goFail(g, "Nm", "the named "+t+" must be a "+goNamed[t]+", it is "+got)
			}
			if !strings.HasPrefix(t, "Int") && !strings.HasPrefix(t, "Float") || g.obj("NmFromString") == nil {
				return
			}
			for _, bad := range []int{0, 1} {
				g.sub(o, &Scenario{fails: map[string]int{"strconv.Atoi": bad, "strconv.ParseFloat": bad}}, func(b *B) {
					s := b.sym("S", tString)
					rs := b.call(nil, g.q, "NmFromString", s)
					o.expect(rs, "the number must be the text's, or zero when it is none", func(r Ret) int {
						v := r.val
						for v.op == OCall && strings.HasPrefix(v.s, "conv") && len(v.args) == 1 {
							v = v.args[0]
						}
						if v.unk() {
							return -1
						}
						if bad == 1 {
							return boolInt(v.isConst() && isNum(v.c) && constant.Sign(v.c) == 0)
						}
						want := "atoi"
						if strings.HasPrefix(t, "Float") {
							want = "atof"
						}
						return boolInt(v.op == OCall && v.s == want && v.args[0] == s)
					})
				})
			}
		})
	}
	c.check("named Decimal and Timestamp", nil, func(b *B, o *O) {
		m := b.goModel(b.tdef(b.atom("Dc"), F{"Type": "Decimal"}), b.tdef(b.atom("Ts"), F{"Type": "Timestamp"}))
		g := o.goCode(b.goExport(m), "named Decimals and Timestamps")
		if g == nil {
			return
		}
		for n, base := range map[string]string{"Dc": "Decimal", "Ts": "Timestamp"} {
			x, y := g.obj(n), g.obj(base)
			if x == nil || y == nil {
				o.goFail(g, n, "both "+n+" and "+base+" must be declared")
			} else if !types.Identical(x.Type().Underlying(), y.Type().Underlying()) {
				o.goFail(g, n, n+" must be a "+base+", it is "+g.decl(n))
			}
		}
	})
	c.check("another name for a type", nil, func(b *B, o *O) {
		others, refs := b.goOthers()
		var ks []string
		for k := range refs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			others = append(others, b.tdef("My"+k, F{"Type": k}))
		}
		g := o.goCode(b.goExport(b.goModel(others...)), "types named after other types")
		if g == nil {
			return
		}
		for _, k := range ks {
			x, y := g.obj("My"+k), g.obj(k)
			if x == nil || y == nil {
				o.goFail(g, "My"+k, "both names must be declared")
			} else if !types.Identical(x.Type().Underlying(), y.Type().Underlying()) {
				o.goFail(g, "My"+k, "My"+k+" must be the same as "+k+", it is "+g.decl("My"+k))
			}
		}
	})
	// enums
	for _, text := range []string{"GR", "two words", `say "hi"`, `a\b`, " x ", "true", "0", "é", "100%s", "{{x}}", "`"} {
		text := text
		c.check(fmt.Sprintf("enum with the text %q", text), nil, func(b *B, o *O) {
			els := b.list(b.obj("EnumElementDef", F{"Symbol": b.atom("red")}), b.obj("EnumElementDef", F{"Symbol": b.atom("green"), "Annotations": b.annos("x_enumValue", text)}), b.obj("EnumElementDef", F{"Symbol": b.atom("blue")}))
			m := b.goModel(b.tdef(b.atom("Color"), F{"Type": "Enum", "Elements": els}))
			g := o.goCode(b.goExport(m), "an enum")
			if g == nil {
				return
			}
			seen := map[string]bool{}
			vals := map[string]string{"red": "red", "green": text, "blue": "blue"}
			for _, k := range sortedKeys(vals) {
				d := g.decl(k)
				if !strings.HasPrefix(d, "const Color ") || seen[d] || strings.HasSuffix(d, " 0") {
					o.goFail(g, k, "every symbol must be a constant of its own, other than zero: "+k+" is "+d)
					return
				}
				seen[d] = true
			}
			for _, k := range sortedKeys(vals) {
				k := k
				g.sub(o, nil, func(b *B) {
					b.home = g.q
					v := b.e.constTerm(g.obj(k).(*types.Const).Val(), g.obj(k).Type())
					o.expect(b.call(nil, "", "Color.String", v), "the text of "+k, func(r Ret) int { return b.same(r.st, r.val, b.e.T.Str(vals[k])) })
					rs := b.call(nil, "", "Color.MarshalJSON", v)
					o.accept(rs, "every symbol")
					o.expect(rs, "the JSON of "+k+" must be its text", func(r Ret) int {
						return b.jsonText(valOf(r), vals[k])
					})
				})
				g.sub(o, &Scenario{decoded: func(e *Engine, st *State, kind string, t types.Type) *Term { return e.T.Str(vals[k]) }}, func(b *B) {
					b.home = g.q
					p := b.newObj("c", b.e.T.Int(0), b.typ("Color"))
					rs := b.call(nil, "", "Color.UnmarshalJSON", p, b.sym("D", types.NewSlice(types.Typ[types.Byte])))
					o.accept(rs, "the text of every symbol")
					o.expect(rs, "the text of "+k+" must decode to it", func(r Ret) int {
						return b.same(r.st, b.e.load(r.st, p, nil), b.e.constTerm(g.obj(k).(*types.Const).Val(), g.obj(k).Type()))
					})
				})
			}
			for _, other := range []string{"@other", "", "Red", "red ", "green"} {
				if other == text {
					continue
				}
				other := other
				g.sub(o, &Scenario{decoded: func(e *Engine, st *State, kind string, t types.Type) *Term {
					if other == "@other" {
						return e.T.mk(OSym, "@other", nil, tString, nil)
					}
					return e.T.Str(other)
				}}, func(b *B) {
					b.home = g.q
					p := b.newObj("c", b.e.T.Int(0), b.typ("Color"))
					o.reject(b.call(nil, "", "Color.UnmarshalJSON", p, b.sym("D", types.NewSlice(types.Typ[types.Byte]))), fmt.Sprintf("a text that is no symbol (%q)", other))
				})
			}
			g.sub(o, &Scenario{fails: map[string]int{"json": 1}}, func(b *B) {
				b.home = g.q
				p := b.newObj("c", b.e.T.Int(0), b.typ("Color"))
				o.reject(b.call(nil, "", "Color.UnmarshalJSON", p, b.sym("D", types.NewSlice(types.Typ[types.Byte]))), "JSON that is no text")
			})
		})
	}
	// service interface, request and response types, exceptions
	for n := 0; n <= 3; n++ {
		n := n
		c.check(fmt.Sprintf("service with %d actions", n), nil, func(b *B, o *O) {
			var acts []*Term
			others, _ := b.goOthers()
			for i := 0; i < n; i++ {
				ins := b.list(b.param(F{"Name": b.atom("id"), "Type": "Label", "Path": true, "Required": true}), b.param(F{"Name": b.atom("limit"), "Type": "Int32", "Query": b.atom("lim")}), b.param(F{"Name": b.atom("body"), "Type": "Inner", "Required": true}))
				acts = append(acts, b.action(b.atom(fmt.Sprint("act", i)), F{"Method": "PUT", "Path": "/x/{id}", "Inputs": ins,
					"Expected":   b.expected(200, b.param(F{"Name": b.atom("thing"), "Type": "Inner"}), b.param(F{"Name": b.atom("mod"), "Type": "Timestamp", "Header": b.atom("Mod")})),
					"Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": 404, "Type": "NotFound"}))}))
			}
			others = append(others, b.tdef("NotFound", F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}), b.tdef("Unrelated", F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}))
			m := b.newModel(F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Types": b.list(others...), "Http": b.list(acts...)})
			g := o.goCode(b.goExport(m), "a service")
			if g == nil {
				return
			}
			ms := g.methods("Svc")
			if g.obj("Svc") == nil {
				o.goFail(g, "Svc", "the service interface must be declared")
			}
			if len(ms) != n {
				o.goFail(g, "Svc", fmt.Sprintf("the interface must have %d methods, it has %d", n, len(ms)))
			}
			for i := 0; i < n; i++ {
				a := fmt.Sprint("Act", i)
				want := "func(req *" + a + "Request) (*" + a + "Response, error)"
				if ms[a] != want {
					o.goFail(g, "Svc", "the interface must have "+a+" "+want+", not "+ms[a])
				}
				o.goFields(g, a+"Request", "Id Label id", "Limit int32 limit,omitempty", "Body *Inner body")
				o.goFields(g, a+"Response", "Thing *Inner thing,omitempty", "Mod *Timestamp mod,omitempty")
			}
			isErr := func(t string) bool {
				et := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
				return g.obj(t) != nil && types.Implements(types.NewPointer(g.obj(t).Type()), et)
			}
			if n > 0 && !isErr("NotFound") {
				o.goFail(g, "NotFound", "an exception must be an error")
			}
			if isErr("Unrelated") {
				o.goFail(g, "Unrelated", "a type that is no exception must not be an error")
			}
			if n > 0 && isErr("NotFound") {
				g.sub(o, nil, func(b *B) {
					b.home = g.q
					o.expect(b.call(nil, "", "NotFound.Error", b.obj("NotFound", F{})), "an exception must have a message", func(r Ret) int {
						if s, ok := r.val.isStr(); ok {
							return boolInt(s != "")
						}
						return -1
					})
				})
			}
		})
	}
	for n := 1; n <= 4; n++ {
		n := n
		c.check(fmt.Sprintf("%d exceptions of any status", n), nil, func(b *B, o *O) {
			others, _ := b.goOthers()
			var excs []*Term
			for i := 0; i < n; i++ {
				t := fmt.Sprint("Exc", i)
				others = append(others, b.tdef(t, F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}))
				excs = append(excs, b.obj("HttpExceptionSpec", F{"Status": b.code([]int{404, 303, 201, 100}[(i+n)%4]), "Type": t}))
			}
			a := b.action("getIt", F{"Exceptions": b.list(excs[:(n+1)/2]...)})
			z := b.action("other", F{"Exceptions": b.list(excs[n/2:]...)})
			m := b.newModel(F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Types": b.list(others...), "Http": b.list(a, z)})
			o.goEach(b.goExport(m), "a service", func(g *GenGo, num func(*Term) string) {
				et := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
				for i := 0; i < n; i++ {
					t := fmt.Sprint("Exc", i)
					if g.obj(t) == nil || !types.Implements(types.NewPointer(g.obj(t).Type()), et) {
						o.goFail(g, t, "an exception must be an error")
					}
				}
				if g.obj("Inner") != nil && types.Implements(types.NewPointer(g.obj("Inner").Type()), et) {
					o.goFail(g, "Inner", "a type that is no exception must not be an error")
				}
			})
		})
	}
	// what is not supported is an error
	for _, t := range []string{"UnitValue", "Struct", "Enum", "Union", "Nowhere"} {
		t := t
		for _, how := range []string{"field", "array", "map", "named array"} {
			how := how
			c.check("a "+t+" "+how+" is reported", nil, func(b *B, o *O) {
				var ts []*Term
				if t == "Nowhere" {
					// not a type of the model
					m := b.goModel(b.rec(b.field("x", F{"Type": "String"})))
					td := b.tdef("Bad", F{"Type": "Struct", "Fields": b.list(b.field("x", F{"Type": t}))})
					ty := b.typ("Model")
					o0 := b.st.heap[m.s]
					sch, ok := b.setField(o0.val, ty, "Types", b.list(td))
					if !ok || how != "field" {
						return
					}
					b.st.heap[m.s] = &Obj{kind: KCell, val: sch, typ: o0.typ}
					o.reject(b.goExport(m), "a type that is not declared")
					return
				}
				switch how {
				case "field":
					ts = []*Term{b.rec(b.field("x", F{"Type": t}))}
				case "array":
					ts = []*Term{b.rec(b.field("x", F{"Type": "Array", "Items": t}))}
				case "map":
					ts = []*Term{b.rec(b.field("x", F{"Type": "Map", "Keys": "String", "Items": t}))}
				case "named array":
					ts = []*Term{b.tdef("X", F{"Type": "Array", "Items": t})}
				}
				o.reject(b.goExport(b.goModel(ts...)), "a type that Go does not have")
			})
		}
	}
	// where the code goes
	for _, k := range []struct{ name, ns, conf, file, pkg string }{
		{"", "", "", "out/main/svc_model.go", "main"}, {"", "a", "", "out/a/svc_model.go", "a"}, {"", "a.b", "", "out/a/b/svc_model.go", "b"}, {"", "a.b.c", "", "out/a/b/c/svc_model.go", "c"},
		{"", "Acme.Widgets", "", "out/Acme/Widgets/svc_model.go", "Widgets"}, {"", "acmeCorp", "", "out/acmeCorp/svc_model.go", "acmeCorp"}, {"", "a1.b_2", "", "out/a1/b_2/svc_model.go", "b_2"}, {"", "a", "Xy.Zw", "out/Xy/Zw/svc_model.go", "Zw"},
		{"", "a.b", "x", "out/x/svc_model.go", "x"}, {"", "", "x.y", "out/x/y/svc_model.go", "y"}, {"Other", "a", "", "out/a/other_model.go", "a"}} {
		k := k
		c.check(fmt.Sprintf("namespace %q, package %q, name %q", k.ns, k.conf, k.name), nil, func(b *B, o *O) {
			m := b.newModel(F{"Name": "svc", "Namespace": k.ns, "Types": b.list(b.rec(b.field("x", F{"Type": "String"})))})
			var opts []string
			if k.conf != "" {
				opts = append(opts, "package="+k.conf)
			}
			if k.name != "" {
				opts = append(opts, "name="+k.name)
			}
			g := o.goCode(b.goExport(m, opts...), "the model")
			if g == nil {
				return
			}
			if len(g.text) != 1 || g.text[k.file] == "" {
				var ns []string
				for n := range g.text {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				o.goFail(g, path.Base(k.file), fmt.Sprintf("the model must be written to %s, not %v", k.file, ns))
				return
			}
			if got := g.files[k.file].Name.Name; got != k.pkg {
				o.goFail(g, path.Base(k.file), "the package must be "+k.pkg+", not "+got)
			}
		})
	}
	c.check("no model wanted", nil, func(b *B, o *O) {
		m := b.goModel(b.rec(b.field("x", F{"Type": "String"})))
		rs := b.goExport(m, "model=false")
		o.accept(rs, "nothing to generate")
		o.expect(rs, "nothing must be written", func(r Ret) int {
			fs := b.fileState(r.st)
			if fs.unknown {
				return -1
			}
			return boolInt(len(fs.touched) == 0)
		})
	})
	for _, op := range []string{"os.MkdirAll", "os.Create", "write"} {
		op := op
		c.check("failing "+op+" is reported", &Scenario{fails: map[string]int{op: 1}}, func(b *B, o *O) {
			m := b.goModel(b.rec(b.field("x", F{"Type": "String"})))
			o.reject(b.goExport(m), "a failure of the file system")
		})
	}
	// the runtime library instead of generated helpers
	c.check("runtime library", nil, func(b *B, o *O) {
		m := b.goModel(b.rec(b.field("ts", F{"Type": "Timestamp"}), b.field("dc", F{"Type": "Decimal"}), b.field("uv", F{"Type": "UnitValue"})))
		g := o.goCode(b.goExport(m, "runtime"), "a model that uses the runtime library")
		if g == nil {
			return
		}
		o.goFields(g, "Rec", "Ts *sadl.Timestamp ts,omitempty", "Dc *sadl.Decimal dc,omitempty", "Uv *sadl.UnitValue uv,omitempty")
	})
	// the generated helper types
	var helpers *GenGo
	load := func(b *B, o *O) *GenGo {
		if helpers == nil {
			m := b.goModel(b.rec(b.field("ts", F{"Type": "Timestamp"}), b.field("dc", F{"Type": "Decimal"})))
			helpers = o.goCode(b.goExport(m), "a model with a Timestamp and a Decimal")
		}
		return helpers
	}
	timestampRules(c, func(rule string, sc *Scenario, f func(b *B, o *O)) {
		if strings.HasPrefix(rule, "does not parse") && strings.Contains(rule, "GMT") {
			return
		}
		c.check("generated Timestamp "+rule, nil, func(b *B, o *O) {
			if g := load(b, o); g != nil {
				g.sub(o, sc, func(b *B) {
					b.home = g.q
					f(b, o)
				})
			}
		})
	})
	inHelpers := func(rule string, sc *Scenario, f func(b *B, o *O)) {
		c.check("generated "+rule, nil, func(b *B, o *O) {
			if g := load(b, o); g != nil {
				g.sub(o, sc, func(b *B) {
					b.home = g.q
					f(b, o)
				})
			}
		})
	}
	inHelpers("Timestamp from a header date", nil, func(b *B, o *O) {
		rs := b.call(nil, "", "ParseTimestamp", b.e.T.Str("Sun, 03 Feb 2019 22:48:19 GMT"))
		o.accept(rs, "an HTTP date")
		o.expect(rs, "the instant must be the one the text names", func(r Ret) int {
			return b.same(r.st, b.timeOf(r.st, valOf(r)), b.timeConst("2019-02-03T22:48:19Z"))
		})
		rs = b.call(nil, "", "TimestampFromString", b.e.T.Str("2019-02-03T22:48:19.043Z"))
		o.expect(rs, "the instant must be the one the text names", func(r Ret) int {
			return b.same(r.st, b.timeOf(r.st, r.val), b.timeConst("2019-02-03T22:48:19.043Z"))
		})
		o.expect(b.call(nil, "", "TimestampFromString", b.e.T.Str("nonsense")), "a text that names no instant gives none", func(r Ret) int { return b.e.isNil(r.st, r.val) })
	})
	x := func(b *B) *Term { return b.num("x") }
	inHelpers("Decimal encoding", nil, func(b *B, o *O) {
		rs := b.call(nil, "", "Decimal.MarshalJSON", b.dec(x(b)))
		o.accept(rs, "every number")
		o.expect(rs, "the encoding must be the quoted exact digits of the number", func(r Ret) int {
			v := valOf(r)
			for v.op == OCall && (v.s == "bytes" || v.s == "json") {
				v = v.args[0]
			}
			if v.op == OCat && len(v.args) == 3 {
				return b.exactText(v.args[1], x(b))
			}
			return b.exactText(v, x(b))
		})
	})
	for _, bad := range []int{0, 1} {
		bad := bad
		inHelpers(fmt.Sprintf("Decimal parsing, malformed %d", bad), &Scenario{fails: map[string]int{"big.ParseFloat": bad}, decoded: func(e *Engine, st *State, kind string, t types.Type) *Term {
			return e.T.mk(OSym, "S", nil, tString, nil)
		}}, func(b *B, o *O) {
			s := b.sym("S", tString)
			rs := b.call(nil, "", "ParseDecimal", s)
			o.verdict(rs, bad == 0, "the text")
			if bad == 0 {
				o.expect(rs, "the number must be the text read in base 10 with at least 250 bits", func(r Ret) int { return b.decimalParse(b.bigOf(r.st, valOf(r)), s) })
			}
			o.expect(b.call(nil, "", "DecimalFromString", s), "the number must be the text read in base 10, or none", func(r Ret) int {
				if bad == 1 {
					return b.e.isNil(r.st, r.val)
				}
				return b.decimalParse(b.bigOf(r.st, r.val), s)
			})
			old := b.num("old")
			d := b.dec(old)
			b.e.building = true
			rs = b.call(nil, "", "Decimal.UnmarshalJSON", d, b.sym("D", types.NewSlice(types.Typ[types.Byte])))
			o.verdict(rs, bad == 0, "the JSON text")
			o.expect(rs, "decoding stores the number, and nothing on an error", func(r Ret) int {
				n := b.bigOf(r.st, d)
				if bad == 1 {
					return b.same(r.st, n, old)
				}
				return b.decimalParse(n, s)
			})
		})
	}
	for _, s := range []string{"Inf", "-Inf", "+Inf", "inf", "NaN", "", "abc", "1,5", "1 2", " 1", "1.2.3", "--1", "0x"} {
		s := s
		inHelpers(fmt.Sprintf("Decimal of %q", s), &Scenario{decoded: func(e *Engine, st *State, kind string, t types.Type) *Term { return e.T.Str(s) }}, func(b *B, o *O) {
			o.reject(b.call(nil, "", "ParseDecimal", b.e.T.Str(s)), fmt.Sprintf("%q", s))
			o.expect(b.call(nil, "", "DecimalFromString", b.e.T.Str(s)), "a text that is no number gives none", func(r Ret) int { return b.e.isNil(r.st, r.val) })
			b.e.building = true
			o.reject(b.call(nil, "", "Decimal.UnmarshalJSON", b.dec(b.num("old")), b.sym("D", types.NewSlice(types.Typ[types.Byte]))), fmt.Sprintf("the JSON text %q", s))
		})
	}
	inHelpers("Decimal conversions", nil, func(b *B, o *O) {
		d := b.dec(x(b))
		for fn, call := range map[string]string{"Decimal.AsInt64": "big.Int64", "Decimal.AsInt32": "big.Int64", "Decimal.AsFloat64": "big.Float64"} {
			call := call
			o.expect(b.call(nil, "", fn, d), fn+" must be the number converted", func(r Ret) int {
				v := r.val
				for v.op == OCall && strings.HasPrefix(v.s, "conv") && len(v.args) == 1 {
					v = v.args[0]
				}
				if v.op == OCall && v.s == call && v.args[0] == x(b) {
					return 1
				}
				if v.unk() {
					return -1
				}
				return 0
			})
		}
		o.expect(b.call(nil, "", "Decimal.AsBigFloat", d), "AsBigFloat must be the number", func(r Ret) int {
			return b.same(r.st, b.e.bigVal(r.st, r.val), x(b))
		})
		o.expect(b.call(nil, "", "NewDecimal", x(b)), "NewDecimal must hold its argument", func(r Ret) int { return b.same(r.st, b.bigOf(r.st, r.val), x(b)) })
		o.expect(b.call(nil, "", "Decimal.String", d), "the text must be the exact digits of the number", func(r Ret) int { return b.exactText(r.val, x(b)) })
	})
}

// jsonText: the value is the JSON encoding of the text.
func (b *B) jsonText(v *Term, s string) int {
	enc := false
	for v.op == OCall && (v.s == "bytes" || v.s == "json") {
		enc = enc || v.s == "json"
		v = v.args[0]
	}
	if v.op == OIface {
		v = v.args[0]
	}
	if q, ok := v.isStr(); ok {
		if enc {
			return boolInt(q == s)
		}
		return boolInt(q == `"`+s+`"`)
	}
	return -1
}
