package main

// props_oasimport.go: C18, C19, the import from OpenAPI.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register(&Property{id: "C18", rule: "ToSadl turns every schema of an OpenAPI document into a type of the corresponding kind with the same constraints and fields, and reports every schema it cannot represent.", run: runC18})
	register(&Property{id: "C19", rule: "ToSadl turns every operation of an OpenAPI document into an http action with the same method, path, inputs, outputs and exceptions.", run: runC19})
}

var tF64 = types.Typ[types.Float64]
var tU64 = types.Typ[types.Uint64]

func (b *B) sch(f F) *Term { return b.obj("openapi.Schema", f) }

func (b *B) u64p(v interface{}) *Term { return b.ref(v, tU64) }
func (b *B) f64p(v interface{}) *Term { return b.ref(v, tF64) }

// mapOf builds a map[string]*T.
func (b *B) mapOf(elem string, kv ...interface{}) *Term {
	t := types.NewMap(tString, types.NewPointer(b.typ(elem)))
	var xs []*Term
	for _, k := range kv {
		xs = append(xs, b.term(k, tString))
	}
	return b.mapT(t, xs...)
}

func (b *B) schemas(kv ...interface{}) *Term { return b.mapOf("openapi.Schema", kv...) }

func (b *B) anyList(xs ...*Term) *Term {
	var ys []*Term
	for _, x := range xs {
		ys = append(ys, b.str(x))
	}
	return b.list(ys...)
}

// oasDoc builds an OpenAPI document.
func (b *B) oasDoc(schemas, paths *Term, f F) *Term {
	g := F{"OpenAPI": "3.0.0", "Info": b.obj("openapi.Info", F{"Title": b.atom("Title"), "Version": b.atom("vers")})}
	if schemas != nil {
		g["Components"] = b.obj("openapi.Components", F{"Schemas": schemas})
	}
	if paths != nil {
		g["Paths"] = paths
	}
	for k, v := range f {
		g[k] = v
	}
	return b.obj("openapi.Model", g)
}

func (b *B) toSadl(doc *Term) []Ret {
	return b.call(nil, "openapi", "Model.ToSadl", doc, b.atom("docname"))
}

// decIs: a *Decimal with the number.
func (b *B) decIs(num *Term) Pred {
	return func(st *State, t *Term) int {
		if t.op == ONil {
			return 0
		}
		n := b.bigOf(st, t)
		if n == nil {
			return -1
		}
		for n.op == OCall && (n.s == "big.Float64" || n.s == "big") && len(n.args) > 0 {
			n = n.args[0]
		}
		return b.same(st, n, num)
	}
}

type impCase struct {
	name   string
	sch    func(b *B) F
	want   func(b *B) F // nil: must be an error
	inline bool         // also checked as a property
}

func impCases() []impCase {
	var cs []impCase
	plain := F{"Pattern": "", "Values": nil, "MinSize": nil, "MaxSize": nil, "Fields": nil, "Elements": nil, "Min": nil, "Max": nil, "Items": "", "Variants": nil}
	for mask := 0; mask < 8; mask++ {
		mask := mask
		cs = append(cs, impCase{name: fmt.Sprintf("string minLength %v maxLength %v pattern %v", mask&1 != 0, mask&2 != 0, mask&4 != 0), inline: true,
			sch: func(b *B) F {
				f := F{"Type": "string"}
				if mask&1 != 0 {
					f["MinLength"] = b.sym("++lo", tU64)
				}
				if mask&2 != 0 {
					f["MaxLength"] = b.u64p(b.sym("+hi", tU64))
				}
				if mask&4 != 0 {
					f["Pattern"] = b.atom("pattern")
				}
				return f
			},
			want: func(b *B) F {
				f := plain.with("Type", "String")
				f["MinSize"] = ZeroOr{D{0}}
				if mask&1 != 0 {
					f["MinSize"] = D{b.sym("++lo", tU64)}
				}
				if mask&2 != 0 {
					f["MaxSize"] = D{b.sym("+hi", tU64)}
				}
				if mask&4 != 0 {
					f["Pattern"] = b.atom("pattern")
				}
				return f
			}})
	}
	for _, p := range []string{"^[a-z]+$", "[0-9]*", "^a|b$", "\\d{3}-\\d{4}", "(?i)x", " ", "/"} {
		p := p
		cs = append(cs, impCase{name: fmt.Sprintf("string pattern %q", p), inline: true, sch: func(b *B) F { return F{"Type": "string", "Pattern": p} },
			want: func(b *B) F { return plain.with("Type", "String").with("Pattern", p).with("MinSize", ZeroOr{D{0}}) }})
	}
	for _, texts := range [][]string{{"b c", "a"}, {"", "x"}, {"2", "1"}, {"é", "a"}, {"z z", "y", "a-b"}, {"x", "x x"}, {" a", "b"}, {"a", "b "}, {"a", "\tb"}, {" ", "a"}, {"a.b", "a"}, {"a", "b\n"}} {
		texts := texts
		cs = append(cs, impCase{name: fmt.Sprintf("string enum of %q", texts), inline: true,
			sch: func(b *B) F {
				var xs []*Term
				for _, t := range texts {
					xs = append(xs, b.e.T.Str(t))
				}
				return F{"Type": "string", "Enum": b.anyList(xs...)}
			},
			want: func(b *B) F {
				var xs Seq
				for _, t := range texts {
					xs = append(xs, t)
				}
				return plain.with("Type", "String").with("Values", xs).with("MinSize", ZeroOr{D{0}})
			}})
	}
	for _, texts := range [][]string{{"b", "a"}, {"X_1", "y"}, {"True", "null"}} {
		texts := texts
		cs = append(cs, impCase{name: fmt.Sprintf("string enum of the symbols %q", texts), inline: true,
			sch: func(b *B) F {
				var xs []*Term
				for _, t := range texts {
					xs = append(xs, b.e.T.Str(t))
				}
				return F{"Type": "string", "Enum": b.anyList(xs...)}
			},
			want: func(b *B) F {
				var xs Seq
				for _, t := range texts {
					xs = append(xs, F{"Symbol": t})
				}
				return plain.with("Type", "Enum").with("Elements", xs)
			}})
	}
	for _, v := range []float64{0, -1, 2.5, 0.1, 1e8} {
		v := v
		for _, end := range []string{"Min", "Max"} {
			end := end
			cs = append(cs, impCase{name: fmt.Sprintf("number %s %v", end, v), inline: true, sch: func(b *B) F {
				return F{"Type": "number", end: b.f64p(b.e.T.Const(constant.ToFloat(constant.MakeFloat64(v)), tF64))}
			},
				want: func(b *B) F {
					return plain.with("Type", "Decimal").with(end, b.decIs(b.e.T.Const(constant.ToFloat(constant.MakeFloat64(v)), tF64)))
				}})
		}
	}
	for n := 1; n <= 3; n++ {
		n := n
		cs = append(cs, impCase{name: fmt.Sprintf("string enum of %d symbols", n), inline: true,
			sch: func(b *B) F {
				var xs []*Term
				for i := 0; i < n; i++ {
					xs = append(xs, b.atom(fmt.Sprint("e", i)))
				}
				return F{"Type": "string", "Enum": b.anyList(xs...)}
			},
			want: func(b *B) F {
				var xs Seq
				for i := 0; i < n; i++ {
					xs = append(xs, F{"Symbol": b.atom(fmt.Sprint("e", i))})
				}
				return plain.with("Type", "Enum").with("Elements", xs)
			}})
		for bad := 0; bad < n; bad++ {
			bad := bad
			cs = append(cs, impCase{name: fmt.Sprintf("string enum of %d values, %d is no symbol", n, bad), inline: true,
				sch: func(b *B) F {
					var xs []*Term
					for i := 0; i < n; i++ {
						x := b.atom(fmt.Sprint("e", i))
						if i == bad {
							x = b.e.T.Str("not a symbol")
						}
						xs = append(xs, x)
					}
					return F{"Type": "string", "Enum": b.anyList(xs...)}
				},
				want: func(b *B) F {
					var xs Seq
					for i := 0; i < n; i++ {
						if i == bad {
							xs = append(xs, "not a symbol")
						} else {
							xs = append(xs, b.atom(fmt.Sprint("e", i)))
						}
					}
					return plain.with("Type", "String").with("Values", xs).with("MinSize", ZeroOr{D{0}})
				}})
			cs = append(cs, impCase{name: fmt.Sprintf("string enum of %d values, %d is no string", n, bad), inline: true,
				sch: func(b *B) F {
					var xs []*Term
					for i := 0; i < n; i++ {
						if i == bad {
							xs = append(xs, b.any(tF64, b.num("x")))
						} else {
							xs = append(xs, b.str(b.atom(fmt.Sprint("e", i))))
						}
					}
					return F{"Type": "string", "Enum": b.list(xs...)}
				}})
		}
	}
	simple := func(name string, sch F, typ interface{}) {
		cs = append(cs, impCase{name: name, inline: true, sch: func(b *B) F { return sch }, want: func(b *B) F { return plain.with("Type", typ).with("MinSize", ZeroOr{D{0}}) }})
	}
	simple("boolean", F{"Type": "boolean"}, "Bool")
	simple("uuid", F{"Type": "string", "Format": "uuid"}, "UUID")
	simple("date-time", F{"Type": "string", "Format": "date-time"}, "Timestamp")
	for _, k := range []struct {
		t, f string
		w    interface{}
	}{{"integer", "int8", "Int8"}, {"integer", "int16", "Int16"}, {"integer", "int32", "Int32"}, {"integer", "int64", "Int64"}, {"integer", "", "Int64"},
		{"number", "", "Decimal"}, {"number", "float", OneOf{"Decimal", "Float32"}}, {"number", "double", OneOf{"Decimal", "Float64"}}} {
		for mask := 0; mask < 4; mask++ {
			k, mask := k, mask
			cs = append(cs, impCase{name: fmt.Sprintf("%s %s min %v max %v", k.t, k.f, mask&1 != 0, mask&2 != 0), inline: true,
				sch: func(b *B) F {
					f := F{"Type": k.t, "Format": k.f}
					if mask&1 != 0 {
						f["Min"] = b.f64p(b.num("lo"))
					}
					if mask&2 != 0 {
						f["Max"] = b.f64p(b.num("hi"))
					}
					return f
				},
				want: func(b *B) F {
					f := plain.with("Type", k.w)
					if mask&1 != 0 {
						f["Min"] = b.decIs(b.num("lo"))
					}
					if mask&2 != 0 {
						f["Max"] = b.decIs(b.num("hi"))
					}
					return f
				}})
		}
	}
	for mask := 0; mask < 4; mask++ {
		for _, it := range []string{"ref", "string", "boolean", "integer"} {
			mask, it := mask, it
			cs = append(cs, impCase{name: fmt.Sprintf("array of %s min %v max %v", it, mask&1 != 0, mask&2 != 0), inline: true,
				sch: func(b *B) F {
					f := F{"Type": "array", "Items": b.sch(F{"Type": it})}
					if it == "ref" {
						f["Items"] = b.sch(F{"Ref": refTo + "Other"})
					}
					if mask&1 != 0 {
						f["MinItems"] = b.sym("++lo", tU64)
					}
					if mask&2 != 0 {
						f["MaxItems"] = b.u64p(b.sym("+hi", tU64))
					}
					return f
				},
				want: func(b *B) F {
					f := plain.with("Type", "Array").with("Items", map[string]string{"ref": "Other", "string": "String", "boolean": "Bool", "integer": "Int64"}[it])
					f["MinSize"] = ZeroOr{D{0}}
					if mask&1 != 0 {
						f["MinSize"] = D{b.sym("++lo", tU64)}
					}
					if mask&2 != 0 {
						f["MaxSize"] = D{b.sym("+hi", tU64)}
					}
					return f
				}})
		}
	}
	for n := 0; n <= 3; n++ {
		for req := 0; req < 1<<uint(n); req++ {
			for _, typ := range []string{"object", ""} {
				n, req, typ := n, req, typ
				cs = append(cs, impCase{name: fmt.Sprintf("object type %q of %d properties, required %b", typ, n, req), inline: true,
					sch: func(b *B) F {
						var ps []interface{}
						var rq []*Term
						for i := 0; i < n; i++ {
							f := F{"Description": b.atom(fmt.Sprint("fc", i)), "Type": []string{"string", "boolean", ""}[i], "ReadOnly": i == 0 && req&1 != 0, "WriteOnly": i == 1, "Nullable": i == 0 && req&2 != 0}
							if i == 2 {
								f["Ref"] = refTo + "Other"
							}
							ps = append(ps, b.atom(fmt.Sprint("f", i)), b.sch(f))
							if req&(1<<uint(i)) != 0 {
								rq = append(rq, b.atom(fmt.Sprint("f", i)))
							}
						}
						return F{"Type": typ, "Properties": b.schemas(ps...), "Required": b.list(rq...)}
					},
					want: func(b *B) F {
						var fs Bag
						for i := 0; i < n; i++ {
							fs = append(fs, F{"Name": b.atom(fmt.Sprint("f", i)), "Comment": b.atom(fmt.Sprint("fc", i)), "Required": req&(1<<uint(i)) != 0, "Type": []string{"String", "Bool", "Other"}[i], "Default": nil})
						}
						return plain.with("Type", "Struct").with("Fields", fs)
					}})
			}
		}
	}
	cs = append(cs, impCase{name: "an unknown type", inline: true, sch: func(b *B) F { return F{"Type": b.atom("bogus")} }})
	cs = append(cs, impCase{name: "array of an unknown type", inline: true, sch: func(b *B) F { return F{"Type": "array", "Items": b.sch(F{"Type": b.atom("bogus")})} }})
	return cs
}

func (b *B) otherSchemas() []interface{} {
	return []interface{}{"Other", b.sch(F{"Type": "object", "Properties": b.schemas(b.atom("of"), b.sch(F{"Type": "string"}))})}
}

func (o *O) typesOf(rs []Ret, what string, want interface{}) {
	b := o.b
	o.matchesAt(rs, what, want, func(r Ret) *Term { return b.get(r.st, valOf(r), "Types") })
}

func runC18(c *C) {
	other := F{"Name": "Other", "Type": "Struct"}
	for _, k := range impCases() {
		k := k
		for _, pos := range []int{0, 1} {
			pos := pos
			c.check(fmt.Sprintf("schema %s (position %d)", k.name, pos), nil, func(b *B, o *O) {
				s := b.sch(k.sch(b).with("Description", b.atom("comment")))
				kv := append(b.otherSchemas(), b.atom("T"), s)
				if pos == 1 {
					kv = append([]interface{}{b.atom("T"), s}, b.otherSchemas()...)
				}
				rs := b.toSadl(b.oasDoc(b.schemas(kv...), nil, nil))
				if k.want == nil {
					o.reject(rs, "a schema that has no counterpart")
					return
				}
				o.typesOf(rs, "the imported types", Bag{other, k.want(b).with("Name", b.atom("T")).with("Comment", b.atom("comment"))})
			})
		}
		if k.inline {
			for _, n := range []int{1, 3} {
				for at := 0; at < n; at++ {
					n, at := n, at
					c.check(fmt.Sprintf("property %d of %d: %s", at, n, k.name), nil, func(b *B, o *O) {
						var ps []interface{}
						var fs Bag
						for i := 0; i < n; i++ {
							f, w := F{"Type": "string"}, F{"Type": "String"}
							if i == at {
								f = k.sch(b)
								if k.want != nil {
									w = k.want(b)
								}
							}
							ps = append(ps, b.atom(fmt.Sprint("p", i)), b.sch(f))
							fs = append(fs, w.with("Name", b.atom(fmt.Sprint("p", i))).with("Required", false))
						}
						rs := b.toSadl(b.oasDoc(b.schemas(append(b.otherSchemas(), b.atom("S"), b.sch(F{"Type": "object", "Properties": b.schemas(ps...)}))...), nil, nil))
						if k.want == nil {
							o.reject(rs, "a property that has no counterpart")
							return
						}
						o.typesOf(rs, "the imported fields", Bag{other, F{"Name": b.atom("S"), "Type": "Struct", "Fields": fs}})
					})
				}
			}
			if k.want != nil {
				c.check("a schema that refers to another: "+k.name, nil, func(b *B, o *O) {
					rs := b.toSadl(b.oasDoc(b.schemas(append(b.otherSchemas(), b.atom("A"), b.sch(F{"Ref": b.e.cat(b.e.T.Str(refTo), b.atom("T"))}), b.atom("T"), b.sch(k.sch(b)))...), nil, nil))
					o.typesOf(rs, "the alias", Bag{other, k.want(b).with("Name", b.atom("T")), k.want(b).with("Name", b.atom("A"))})
				})
			}
		}
	}
	c.check("a reference to a schema that does not exist", nil, func(b *B, o *O) {
		o.reject(b.toSadl(b.oasDoc(b.schemas(b.atom("A"), b.sch(F{"Ref": b.e.cat(b.e.T.Str(refTo), b.atom("Nowhere"))})), nil, nil)), "a dangling reference")
	})
	for n := 0; n <= 4; n++ {
		n := n
		c.check(fmt.Sprintf("%d schemas", n), nil, func(b *B, o *O) {
			var kv []interface{}
			var want Bag
			for i := 0; i < n; i++ {
				nm := b.atom(fmt.Sprint("T", i))
				kv = append(kv, nm, b.sch(F{"Type": "string", "Pattern": b.atom(fmt.Sprint("p", i))}))
				want = append(want, F{"Name": nm, "Type": "String", "Pattern": b.atom(fmt.Sprint("p", i))})
			}
			o.typesOf(b.toSadl(b.oasDoc(b.schemas(kv...), nil, nil)), "one type for each schema", want)
		})
	}
	c.check("no components", nil, func(b *B, o *O) {
		o.typesOf(b.toSadl(b.oasDoc(nil, nil, nil)), "no types", Bag{})
	})
	for _, bt := range []string{"String", "Bool", "Struct"} {
		bt := bt
		c.check("a schema with the name of the base type "+bt, nil, func(b *B, o *O) {
			o.reject(b.toSadl(b.oasDoc(b.schemas(bt, b.sch(F{"Type": "object"})), nil, nil)), "a type that redefines a base type")
		})
	}
	// examples
	for n := 0; n <= 2; n++ {
		n := n
		c.check(fmt.Sprintf("%d examples", n), nil, func(b *B, o *O) {
			var kv []interface{}
			var want Bag
			for i := 0; i < 2; i++ {
				f := F{"Type": "string"}
				if i < n {
					f["Example"] = b.str(b.sym(fmt.Sprint("ex", i), tString))
					want = append(want, F{"Target": b.atom(fmt.Sprint("T", i)), "Example": b.sym(fmt.Sprint("ex", i), tString)})
				}
				kv = append(kv, b.atom(fmt.Sprint("T", i)), b.sch(f))
			}
			rs := b.toSadl(b.oasDoc(b.schemas(kv...), nil, nil))
			o.matchesAt(rs, "the examples", want, func(r Ret) *Term { return b.get(r.st, valOf(r), "Examples") })
			// a second document does not inherit the examples of the first
			d2 := b.oasDoc(b.schemas(b.atom("T0"), b.sch(F{"Type": "string"})), nil, nil)
			rs = b.toSadl(b.oasDoc(b.schemas(kv...), nil, nil))
			rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "openapi", "Model.ToSadl", d2, b.atom("docname")) })
			o.matchesAt(rs, "the examples of the second document", Bag{}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Examples") })
		})
	}
	// document information
	for mask := 0; mask < 16; mask++ {
		for _, title := range []string{"symbol", "text", "none"} {
			mask, title := mask, title
			c.check(fmt.Sprintf("document: title %s, server %v, license %v name %v url %v", title, mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0), nil, func(b *B, o *O) {
				info := F{"Version": b.atom("version"), "Description": b.atom("desc")}
				want := F{"Version": b.atom("version"), "Name": b.atom("docname"), "Comment": b.atom("desc")}
				switch title {
				case "symbol":
					info["Title"] = b.atom("Title")
					want["Name"] = b.atom("Title")
				case "text":
					info["Title"] = "some title"
					want["Comment"] = Pred(func(st *State, t *Term) int {
						s, ok := b.render(st, t)
						if !ok {
							return -1
						}
						if hasWord(s, "some") && hasWord(s, "title") && hasWord(s, "desc") {
							return 1
						}
						return 0
					})
				}
				f := F{}
				var an HasM
				an = append(an, "x_openapi_version", "3.0.0")
				if mask&1 != 0 {
					f["Servers"] = b.list(b.obj("openapi.Server", F{"URL": b.atom("url")}))
					an = append(an, "x_server", b.atom("url"))
				}
				if mask&2 != 0 {
					l := F{}
					if mask&4 != 0 {
						l["Name"] = b.atom("lname")
						an = append(an, "x_license_name", b.atom("lname"))
					}
					if mask&8 != 0 {
						l["URL"] = b.atom("lurl")
						an = append(an, "x_license_url", b.atom("lurl"))
					}
					info["License"] = b.obj("openapi.License", l)
				} else if mask&12 != 0 {
					return
				}
				f["Info"] = b.obj("openapi.Info", info)
				want["Annotations"] = an
				o.matches(b.toSadl(b.oasDoc(b.schemas(b.otherSchemas()...), nil, f)), "the document information", want)
			})
		}
	}
}

func (b *B) opr(f F) *Term {
	g := F{"OperationId": b.atom("act"), "Responses": b.resps("200", F{})}
	for k, v := range f {
		g[k] = v
	}
	return b.obj("openapi.Operation", g)
}

func (b *B) resps(kv ...interface{}) *Term {
	var xs []interface{}
	for i := 0; i+1 < len(kv); i += 2 {
		xs = append(xs, kv[i], b.obj("openapi.Response", kv[i+1].(F)))
	}
	return b.mapOf("openapi.Response", xs...)
}

func (b *B) content(kv ...interface{}) *Term {
	var xs []interface{}
	for i := 0; i+1 < len(kv); i += 2 {
		xs = append(xs, kv[i], b.obj("openapi.MediaType", kv[i+1].(F)))
	}
	m := b.mapOf("openapi.MediaType", xs...)
	return m
}

func (b *B) refSch(name string) *Term { return b.sch(F{"Ref": refTo + name}) }

func (b *B) oneOp(method, path string, f F) *Term {
	p := b.mapOf("openapi.PathItem", path, b.obj("openapi.PathItem", F{oasMember(method): b.opr(f)}))
	return b.oasDoc(b.schemas(b.otherSchemas()...), p, nil)
}

func (o *O) actions(rs []Ret, what string, want interface{}) {
	b := o.b
	o.matchesAt(rs, what, want, func(r Ret) *Term { return b.get(r.st, valOf(r), "Http") })
}

func runC19(c *C) {
	for _, m := range oasMethods {
		m := m
		c.check("method "+m, nil, func(b *B, o *O) {
			rs := b.toSadl(b.oneOp(m, "/x", F{"Summary": b.atom("comment")}))
			o.actions(rs, "the action", Seq{F{"Name": b.atom("act"), "Method": m, "Path": "/x", "Comment": b.atom("comment"), "Resource": "", "Inputs": nil, "Exceptions": nil, "Annotations": nil, "Expected": F{"Status": 200, "Outputs": nil}}})
		})
		for _, m2 := range oasMethods {
			m2 := m2
			if m2 <= m {
				continue
			}
			c.check("methods "+m+" and "+m2, nil, func(b *B, o *O) {
				p := b.mapOf("openapi.PathItem", "/x", b.obj("openapi.PathItem", F{oasMember(m): b.opr(F{}), oasMember(m2): b.opr(F{"OperationId": b.atom("act2")})}))
				o.actions(b.toSadl(b.oasDoc(b.schemas(b.otherSchemas()...), p, nil)), "both actions", Bag{F{"Name": b.atom("act"), "Method": m, "Path": "/x"}, F{"Name": b.atom("act2"), "Method": m2, "Path": "/x"}})
			})
		}
	}
	for _, path := range []string{"/x-ray", "/a/x-y/{id}", "/v1.0/a_b", "/", "/a/", "/{id}", "/{id}.json", "/a:b", "/x", "/A/x-x-x"} {
		path := path
		c.check("path "+path, nil, func(b *B, o *O) {
			f := F{}
			if strings.Contains(path, "{id}") {
				f["Parameters"] = b.list(b.obj("openapi.Parameter", F{"Name": "id", "In": "path", "Required": true, "Schema": b.sch(F{"Type": "string"})}))
			}
			o.actions(b.toSadl(b.oneOp("GET", path, f)), "the action", Seq{F{"Name": b.atom("act"), "Method": "GET", "Path": path}})
		})
	}
	for _, k := range []struct{ raw, name string }{{"X-Rate-Limit", "RateLimit"}, {"x-rate-limit", "ratelimit"}, {"Xylophone", "Xylophone"}, {"xRay", "xRay"}, {"ETag", "ETag"}, {"Last-Modified", "LastModified"}, {"X_Y", "X_Y"}, {"X-X-Y", "XY"}, {"Max-X-Size", "MaxXSize"}} {
		k := k
		c.check(fmt.Sprintf("response header named %q", k.raw), nil, func(b *B, o *O) {
			f := F{"Headers": b.mapOf("openapi.Header", k.raw, b.obj("openapi.Header", F{"Schema": b.sch(F{"Type": "string"})}))}
			o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Responses": b.resps("200", f)})), "the output", Seq{F{"Expected": F{"Outputs": Seq{F{"Name": k.name, "Header": k.raw, "Type": "String", "Query": "", "Path": false}}}}})
		})
	}
	for _, st := range [][]string{{"200", "201"}, {"201", "200", "204"}, {"302", "200"}, {"204", "304", "404"}, {"304", "301"}, {"default", "200"}, {"default", "404", "201"}} {
		st := st
		c.check(fmt.Sprintf("responses %v: the expected one is the first success", st), nil, func(b *B, o *O) {
			var kv []interface{}
			first := ""
			for _, s := range st {
				kv = append(kv, s, F{"Description": b.atom("d" + s), "Content": b.content("application/json", F{"Schema": b.refSch("Other")})})
				if s[0] <= '3' && (first == "" || s < first) {
					first = s
				}
			}
			var want Bag
			for _, s := range st {
				if s != first {
					n, _ := strconv.Atoi(s)
					want = append(want, F{"Status": n, "Type": "Other", "Comment": b.atom("d" + s)})
				}
			}
			n, _ := strconv.Atoi(first)
			o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Responses": b.resps(kv...)})), "the responses", Seq{F{"Expected": F{"Status": n, "Comment": b.atom("d" + first)}, "Exceptions": want}})
		})
	}
	for n := 0; n <= 3; n++ {
		n := n
		c.check(fmt.Sprintf("%d paths", n), nil, func(b *B, o *O) {
			var kv []interface{}
			var want Bag
			for i := 0; i < n; i++ {
				kv = append(kv, fmt.Sprint("/p", i), b.obj("openapi.PathItem", F{"Get": b.opr(F{"OperationId": b.atom(fmt.Sprint("a", i))})}))
				want = append(want, F{"Name": b.atom(fmt.Sprint("a", i)), "Path": fmt.Sprint("/p", i), "Method": "GET"})
			}
			o.actions(b.toSadl(b.oasDoc(nil, b.mapOf("openapi.PathItem", kv...), nil)), "one action for each operation", want)
		})
	}
	c.check("two operations with the same id", nil, func(b *B, o *O) {
		p := b.mapOf("openapi.PathItem", "/x", b.obj("openapi.PathItem", F{"Get": b.opr(F{})}), "/y", b.obj("openapi.PathItem", F{"Get": b.opr(F{})}))
		o.reject(b.toSadl(b.oasDoc(nil, p, nil)), "two actions with one name")
	})
	// tags
	for n := 0; n <= 4; n++ {
		n := n
		c.check(fmt.Sprintf("%d tags", n), nil, func(b *B, o *O) {
			var ts []*Term
			var txt []*Term
			want := F{"Resource": "", "Annotations": nil}
			for i := 0; i < n; i++ {
				ts = append(ts, b.atom(fmt.Sprint("t", i)))
				if i == 0 {
					want["Resource"] = b.atom("t0")
					continue
				}
				if i > 1 {
					txt = append(txt, b.e.T.Str(","))
				}
				txt = append(txt, b.atom(fmt.Sprint("t", i)))
				want["Annotations"] = M{"x_tags", b.e.cat(txt...)}
			}
			o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Tags": b.list(ts...)})), "the resource and the tags", Seq{want})
		})
	}
	// parameters
	types2 := []struct {
		name string
		sch  F
		want F
	}{
		{"string", F{"Type": "string"}, F{"Type": "String", "Values": nil}},
		{"boolean", F{"Type": "boolean"}, F{"Type": "Bool"}},
		{"int32", F{"Type": "integer", "Format": "int32"}, F{"Type": "Int32"}},
		{"int64", F{"Type": "integer", "Format": "int64"}, F{"Type": "Int64"}},
		{"number", F{"Type": "number"}, F{"Type": "Decimal"}},
		{"ref", F{"Ref": refTo + "Other"}, F{"Type": "Other"}},
		{"array", F{"Type": "array"}, F{"Type": "Array", "Items": "Any"}},
	}
	mk := func(b *B, in string, i int, req bool, sch F, want F) (*Term, F, string) {
		nm := fmt.Sprintf("p%d", i)
		if in == "header" {
			nm = fmt.Sprintf("X-Head-%d", i)
		}
		p := b.obj("openapi.Parameter", F{"Name": nm, "In": in, "Required": req, "Description": b.atom(fmt.Sprint("pc", i)), "Schema": b.sch(sch)})
		w := want.with("Name", nm).with("Required", req).with("Comment", b.atom(fmt.Sprint("pc", i))).with("Query", "").with("Header", "").with("Path", false)
		q := ""
		switch in {
		case "query":
			w["Query"] = nm
			q = nm + "={" + nm + "}"
		case "header":
			w["Header"] = nm
			w["Name"] = fmt.Sprintf("XHead%d", i)
		case "path":
			w["Path"] = true
		}
		return p, w, q
	}
	for _, in := range []string{"path", "query", "header"} {
		for _, t := range types2 {
			for _, req := range []bool{false, true} {
				in, t, req := in, t, req
				c.check(fmt.Sprintf("%s parameter of type %s, required %v", in, t.name, req), nil, func(b *B, o *O) {
					p, w, q := mk(b, in, 1, req, t.sch, t.want)
					path := "/x/{p1}"
					want := path
					if q != "" {
						want += "?" + q
					}
					o.actions(b.toSadl(b.oneOp("GET", path, F{"Parameters": b.list(p)})), "the input", Seq{F{"Path": want, "Inputs": Seq{w}}})
				})
			}
		}
	}
	for _, k := range []struct{ raw, name string }{{"_id", "_id"}, {"page_size", "page_size"}, {"pageSize", "pageSize"}, {"X-Rate-Limit", "XRateLimit"}, {"2fa", "fa"}, {"a.b", "ab"}, {"filter[name]", "filtername"}, {"$top", "top"}, {"v2", "v2"}} {
		k := k
		c.check(fmt.Sprintf("query parameter named %q", k.raw), nil, func(b *B, o *O) {
			p := b.obj("openapi.Parameter", F{"Name": k.raw, "In": "query", "Schema": b.sch(F{"Type": "string"})})
			o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Parameters": b.list(p)})), "the input", Seq{F{"Path": "/x?" + k.raw + "={" + k.name + "}", "Inputs": Seq{F{"Name": k.name, "Query": k.raw, "Header": "", "Path": false, "Type": "String"}}}})
		})
		if k.name == k.raw {
			c.check(fmt.Sprintf("path parameter named %q", k.raw), nil, func(b *B, o *O) {
				p := b.obj("openapi.Parameter", F{"Name": k.raw, "In": "path", "Required": true, "Schema": b.sch(F{"Type": "string"})})
				o.actions(b.toSadl(b.oneOp("GET", "/x/{"+k.raw+"}", F{"Parameters": b.list(p)})), "the input", Seq{F{"Path": "/x/{" + k.raw + "}", "Inputs": Seq{F{"Name": k.name, "Query": "", "Header": "", "Path": true, "Type": "String"}}}})
			})
		}
	}
	for _, it := range []struct{ sch, want string }{{"string", "String"}} {
		it := it
		c.check("array parameter of "+it.sch, nil, func(b *B, o *O) {
			p, w, q := mk(b, "query", 1, false, F{"Type": "array", "Items": b.sch(F{"Type": it.sch})}, F{"Type": "Array", "Items": it.want})
			o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Parameters": b.list(p)})), "the input", Seq{F{"Path": "/x?" + q, "Inputs": Seq{w}}})
		})
	}
	c.check("string parameter with values", nil, func(b *B, o *O) {
		p, w, q := mk(b, "query", 1, false, F{"Type": "string", "Enum": b.anyList(b.atom("v1"), b.atom("v2"))}, F{"Type": "String", "Values": Seq{b.atom("v1"), b.atom("v2")}})
		o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Parameters": b.list(p)})), "the input", Seq{F{"Path": "/x?" + q, "Inputs": Seq{w}}})
	})
	seqs := [][]string{{}}
	for _, a := range []string{"path", "query", "header"} {
		for _, d := range []string{"path", "query", "header"} {
			seqs = append(seqs, []string{a, d})
			seqs = append(seqs, []string{a, d, "query"})
		}
	}
	for n := 3; n <= 9; n++ {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, "query")
		}
		seqs = append(seqs, l, append([]string{"header", "path"}, l...))
	}
	for _, seq := range seqs {
		seq := seq
		c.check(fmt.Sprintf("parameters %v", seq), nil, func(b *B, o *O) {
			var ps []*Term
			var want Seq
			path, qs := "/x", ""
			for i, in := range seq {
				p, w, q := mk(b, in, i, i%2 == 0, F{"Type": "string"}, F{"Type": "String"})
				ps = append(ps, p)
				want = append(want, w)
				if in == "path" {
					path += fmt.Sprintf("/{p%d}", i)
				}
				if q != "" && qs != "" {
					qs += "&"
				}
				qs += q
			}
			full := path
			if qs != "" {
				full += "?" + qs
			}
			o.actions(b.toSadl(b.oneOp("GET", path, F{"Parameters": b.list(ps...)})), "the inputs in order", Seq{F{"Path": full, "Inputs": want}})
		})
	}
	bad := func(rule string, mkOp func(b *B) F) {
		c.check(rule, nil, func(b *B, o *O) { o.reject(b.toSadl(b.oneOp("POST", "/x", mkOp(b))), rule) })
	}
	one := func(b *B, f F) F { return F{"Parameters": b.list(b.obj("openapi.Parameter", f))} }
	bad("a cookie parameter", func(b *B) F { return one(b, F{"Name": "c", "In": "cookie", "Schema": b.sch(F{"Type": "string"})}) })
	bad("a path parameter that is not in the path", func(b *B) F { return one(b, F{"Name": "c", "In": "path", "Schema": b.sch(F{"Type": "string"})}) })
	bad("a parameter of an unknown type", func(b *B) F {
		return one(b, F{"Name": "c", "In": "query", "Schema": b.sch(F{"Type": b.atom("bogus")})})
	})
	bad("a parameter of an inline object type", func(b *B) F { return one(b, F{"Name": "c", "In": "query", "Schema": b.sch(F{"Type": "object"})}) })
	bad("no expected response", func(b *B) F { return F{"Responses": b.resps("404", F{})} })
	bad("no responses", func(b *B) F { return F{"Responses": b.resps()} })
	bad("a malformed status", func(b *B) F { return F{"Responses": b.resps("200", F{}, "abc", F{})} })
	bad("a malformed expected status", func(b *B) F { return F{"Responses": b.resps("2oo", F{})} })
	bad("a wildcard exception status", func(b *B) F { return F{"Responses": b.resps("200", F{}, "4XX", F{})} })
	bad("an inline type of an exception", func(b *B) F {
		return F{"Responses": b.resps("200", F{}, "404", F{"Content": b.content("application/json", F{"Schema": b.sch(F{"Type": "string"})})})}
	})
	bad("an unknown type of the expected body", func(b *B) F {
		return F{"Responses": b.resps("200", F{"Content": b.content("application/json", F{"Schema": b.sch(F{"Type": b.atom("bogus")})})})}
	})
	bad("an unknown type of a response header", func(b *B) F {
		return F{"Responses": b.resps("200", F{"Headers": b.mapOf("openapi.Header", "H", b.obj("openapi.Header", F{"Schema": b.sch(F{"Type": b.atom("bogus")})}))})}
	})
	// request body
	for _, m := range []string{"POST", "PUT", "PATCH"} {
		for _, req := range []bool{false, true} {
			for _, other := range []int{0, 1, 2} {
				m, req, other := m, req, other
				c.check(fmt.Sprintf("%s body, required %v, other content %d", m, req, other), nil, func(b *B, o *O) {
					ct := []interface{}{"application/json", F{"Schema": b.refSch("Other")}}
					if other == 1 {
						ct = append(ct, "text/plain", F{"Schema": b.sch(F{"Type": "string"})})
					}
					if other == 2 {
						ct = append([]interface{}{"application/xml", F{"Schema": b.refSch("Nothing")}}, ct...)
					}
					p, w, q := mk(b, "query", 0, true, F{"Type": "string"}, F{"Type": "String"})
					rs := b.toSadl(b.oneOp(m, "/x", F{"Parameters": b.list(p), "RequestBody": b.obj("openapi.RequestBody", F{"Required": req, "Description": b.atom("bc"), "Content": b.content(ct...)})}))
					o.actions(rs, "the body input", Seq{F{"Path": "/x?" + q, "Inputs": Seq{w, F{"Name": "body", "Type": "Other", "Required": req, "Comment": b.atom("bc"), "Query": "", "Header": "", "Path": false}}}})
				})
			}
		}
	}
	for _, status := range httpStatuses() {
		status := status
		if status == "default" {
			continue
		}
		code, _ := strconv.Atoi(status)
		c.check("response with status "+status, nil, func(b *B, o *O) {
			f := F{"Description": b.atom("rc"), "Content": b.content("application/json", F{"Schema": b.refSch("Other")})}
			if code < 400 {
				o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Responses": b.resps(status, f)})), "the expected response", Seq{F{"Expected": F{"Status": code, "Comment": b.atom("rc"), "Outputs": Seq{F{"Name": "body", "Type": "Other"}}}, "Exceptions": nil}})
				return
			}
			o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Responses": b.resps("200", F{}, status, f)})), "the exception", Seq{F{"Expected": F{"Status": 200}, "Exceptions": Seq{F{"Status": code, "Comment": b.atom("rc"), "Type": "Other"}}}})
		})
	}
	// responses
	for _, status := range []string{"200", "201", "204", "304", "default"} {
		for mask := 0; mask < 8; mask++ {
			status, mask := status, mask
			c.check(fmt.Sprintf("expected %s: headers %v body %v inline %v", status, mask&1 != 0, mask&2 != 0, mask&4 != 0), nil, func(b *B, o *O) {
				if mask&6 == 4 {
					return
				}
				f := F{"Description": b.atom("rc")}
				var want Bag
				if mask&1 != 0 {
					f["Headers"] = b.mapOf("openapi.Header", "X-Rate", b.obj("openapi.Header", F{"Description": b.atom("hc"), "Schema": b.sch(F{"Type": "integer", "Format": "int32"})}),
						"ETag", b.obj("openapi.Header", F{"Schema": b.refSch("Other")}))
					want = append(want, F{"Header": "X-Rate", "Name": "Rate", "Type": "Int32", "Comment": b.atom("hc")}, F{"Header": "ETag", "Name": "ETag", "Type": "Other"})
				}
				if mask&2 != 0 {
					sch, w := b.refSch("Other"), F{"Name": "body", "Type": "Other", "Header": "", "Query": "", "Path": false}
					if mask&4 != 0 {
						sch, w = b.sch(F{"Type": "array", "Items": b.refSch("Other")}), F{"Name": "body", "Type": "Array", "Items": "Other", "Header": ""}
					}
					f["Content"] = b.content("text/plain", F{"Schema": b.sch(F{"Type": "string"})}, "application/json", F{"Schema": sch})
					want = append(want, w)
				}
				code := map[string]int{"200": 200, "201": 201, "204": 204, "304": 304, "default": 200}[status]
				o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Responses": b.resps(status, f)})), "the expected response", Seq{F{"Expected": F{"Status": code, "Comment": b.atom("rc"), "Outputs": want}, "Exceptions": nil}})
			})
		}
	}
	for n := 1; n <= 3; n++ {
		for _, dflt := range []bool{false, true} {
			for _, first := range []bool{false, true} {
				n, dflt, first := n, dflt, first
				c.check(fmt.Sprintf("%d exceptions, default %v, expected first %v", n, dflt, first), nil, func(b *B, o *O) {
					var kv []interface{}
					var want Bag
					if first {
						kv = append(kv, "201", F{})
					}
					for i := 0; i < n; i++ {
						code, key := 400+i, fmt.Sprint(400+i)
						if dflt && i == n/2 {
							code, key = 0, "default"
						}
						kv = append(kv, key, F{"Description": b.atom(fmt.Sprint("xc", i)), "Content": b.content("text/plain", F{"Schema": b.sch(F{"Type": "string"})}, "application/json", F{"Schema": b.refSch("Other")})})
						want = append(want, F{"Status": code, "Type": "Other", "Comment": b.atom(fmt.Sprint("xc", i))})
					}
					if !first {
						kv = append(kv, "201", F{})
					}
					o.actions(b.toSadl(b.oneOp("GET", "/x", F{"Responses": b.resps(kv...)})), "one exception for each other response", Seq{F{"Expected": F{"Status": 201}, "Exceptions": want}})
				})
			}
		}
	}
}
