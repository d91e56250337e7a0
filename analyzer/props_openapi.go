package main

// props_openapi.go: C16, C17, the export to OpenAPI.

import (
	"fmt"
	"go/constant"
	"go/types"
	"net/http"
	"strconv"
	"strings"
)

func init() {
	register(&Property{id: "C16", dress: true, rule: "ExportToOAS3 gives every declared type one schema of the corresponding OpenAPI type with the same constraints, fields, elements and references, at whatever position the type is used.", run: runC16})
	register(&Property{id: "C17", dress: true, rule: "ExportToOAS3 gives every http action one operation under its path and method, with its parameters, body, responses and examples.", run: runC17})
}

var tI64 = types.Typ[types.Int64]

// oas exports a model to OpenAPI.
func (b *B) oas(m *Term) []Ret {
	rs := b.call(nil, "openapi", "NewGenerator", m, b.config())
	return b.then(rs, func(r Ret) []Ret { return b.call(r.st, "openapi", "Generator.ExportToOAS3", valOf(r)) })
}

// a type with symbolic constraints and the schema it must become
type oasCase struct {
	name   string
	spec   func(b *B) F
	td     func(b *B) F // schema of the declared type
	inline func(b *B) F // schema where the specification is given in place (nil: same as td)
	named  bool         // referred to by name as an item
	reject bool         // not supported as a declared type: must be an error
}

const refTo = "#/components/schemas/"

func (b *B) oasRef(n interface{}) F {
	return F{"Ref": b.e.cat(b.e.T.Str(refTo), b.term(n, tString)), "Type": "", "Properties": nil, "Enum": nil}
}

// floatOf is a pointer to the number as a float.
func (b *B) floatOf(num *Term) D {
	return D{Pred(func(st *State, t *Term) int {
		for t.op == OCall && t.s == "big.Float64" {
			t = t.args[0]
		}
		return b.same(st, t, num)
	})}
}

func oasCases() []oasCase {
	var cs []oasCase
	nums := map[string][2]string{"Int8": {"integer", "int32"}, "Int16": {"integer", "int32"}, "Int32": {"integer", "int32"}, "Int64": {"integer", "int64"},
		"Float32": {"number", "float"}, "Float64": {"number", "double"}, "Decimal": {"number", ""}}
	for _, tn := range []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"} {
		for mask := 0; mask < 4; mask++ {
			tn, mask := tn, mask
			cs = append(cs, oasCase{
				name: fmt.Sprintf("%s min %v max %v", tn, mask&1 != 0, mask&2 != 0),
				spec: func(b *B) F {
					f := F{"Type": tn}
					if mask&1 != 0 {
						f["Min"] = b.dec(b.num("lo"))
					}
					if mask&2 != 0 {
						f["Max"] = b.dec(b.num("hi"))
					}
					return f
				},
				td: func(b *B) F {
					f := F{"Type": nums[tn][0], "Format": nums[tn][1], "Min": nil, "Max": nil, "ExclusiveMin": false, "ExclusiveMax": false, "MultipleOf": nil, "Enum": nil, "Ref": ""}
					if mask&1 != 0 {
						f["Min"] = b.floatOf(b.num("lo"))
					}
					if mask&2 != 0 {
						f["Max"] = b.floatOf(b.num("hi"))
					}
					return f
				},
			})
		}
	}
	for mask := 0; mask < 16; mask++ {
		mask := mask
		cs = append(cs, oasCase{
			name: fmt.Sprintf("String minsize %v maxsize %v pattern %v values %v", mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0),
			spec: func(b *B) F {
				f := F{"Type": "String"}
				if mask&1 != 0 {
					f["MinSize"] = b.i64(nnInt(b, "lo"))
				}
				if mask&2 != 0 {
					f["MaxSize"] = b.i64(nnInt(b, "hi"))
				}
				if mask&4 != 0 {
					f["Pattern"] = b.atom("pattern")
				}
				if mask&8 != 0 {
					f["Values"] = []*Term{b.atom("v1"), b.atom("v2"), b.atom("v3")}
				}
				return f
			},
			td: func(b *B) F {
				f := F{"Type": "string", "Format": "", "MinLength": 0, "MaxLength": nil, "Pattern": "", "Enum": nil, "Ref": "", "MinItems": 0, "MaxItems": nil, "Min": nil, "Max": nil}
				if mask&1 != 0 {
					f["MinLength"] = nnInt(b, "lo")
				}
				if mask&2 != 0 {
					f["MaxLength"] = D{nnInt(b, "hi")}
				}
				if mask&4 != 0 {
					f["Pattern"] = b.atom("pattern")
				}
				if mask&8 != 0 {
					f["Enum"] = Seq{b.atom("v1"), b.atom("v2"), b.atom("v3")}
				}
				return f
			},
		})
	}
	for _, texts := range [][]string{{""}, {"", "a"}, {"a b", "", "a|b", "é"}, {"1", "true", "null"}, {"x", "x y", "\n"}} {
		texts := texts
		cs = append(cs, oasCase{
			name: fmt.Sprintf("String values %q", texts),
			spec: func(b *B) F {
				var xs []*Term
				for _, t := range texts {
					xs = append(xs, b.e.T.Str(t))
				}
				return F{"Type": "String", "Values": xs}
			},
			td: func(b *B) F {
				var xs Seq
				for _, t := range texts {
					xs = append(xs, t)
				}
				return F{"Type": "string", "Format": "", "Enum": xs, "Ref": ""}
			},
		})
	}
	for _, p := range []string{"^[a-z]+$", "[0-9]*", "^a|b$", "\\d{3}-\\d{4}", "(?i)x", " ", "/"} {
		p := p
		cs = append(cs, oasCase{name: fmt.Sprintf("String pattern %q", p), spec: func(b *B) F { return F{"Type": "String", "Pattern": p} },
			td: func(b *B) F { return F{"Type": "string", "Format": "", "Pattern": p, "Enum": nil, "Ref": ""} }})
	}
	for _, v := range []string{"0", "-1", "2.5", "0.1", "100000000", "-0.001"} {
		v := v
		for _, end := range []string{"Min", "Max"} {
			end := end
			cs = append(cs, oasCase{name: fmt.Sprintf("Float64 %s %s", end, v), spec: func(b *B) F { return F{"Type": "Float64", end: b.dec(b.decimalConst(v))} },
				td: func(b *B) F {
					f, _ := strconv.ParseFloat(v, 64)
					return F{"Type": "number", "Format": "double", end: b.floatOf(b.e.T.Const(constant.ToFloat(constant.MakeFloat64(f)), tF64)), map[string]string{"Min": "Max", "Max": "Min"}[end]: nil, "Ref": ""}
				}})
		}
	}
	for _, v := range []int{0, 1, 7} {
		v := v
		cs = append(cs, oasCase{name: fmt.Sprintf("String of size %d exactly", v), spec: func(b *B) F {
			return F{"Type": "String", "MinSize": b.i64(b.e.T.Int(int64(v))), "MaxSize": b.i64(b.e.T.Int(int64(v)))}
		},
			td: func(b *B) F { return F{"Type": "string", "Format": "", "MinLength": v, "MaxLength": D{v}, "Ref": ""} }})
		cs = append(cs, oasCase{name: fmt.Sprintf("Int32 of value %d exactly", v), spec: func(b *B) F {
			return F{"Type": "Int32", "Min": b.dec(b.e.T.Int(int64(v))), "Max": b.dec(b.e.T.Int(int64(v)))}
		},
			td: func(b *B) F {
				return F{"Type": "integer", "Format": "int32", "Min": b.floatOf(b.e.T.Int(int64(v))), "Max": b.floatOf(b.e.T.Int(int64(v))), "Ref": ""}
			}})
	}
	plain := F{"Ref": "", "Enum": nil, "Items": nil, "Properties": nil, "AdditionalProperties": nil, "OneOf": nil, "AnyOf": nil, "AllOf": nil, "Not": nil, "Nullable": false, "Min": nil, "Max": nil, "MinLength": 0, "MaxLength": nil, "Pattern": ""}
	simple := func(tn, typ string, format interface{}, reject bool) {
		cs = append(cs, oasCase{name: tn, spec: func(b *B) F { return F{"Type": tn} }, td: func(b *B) F { return plain.with("Type", typ).with("Format", format) }, reject: reject})
	}
	simple("Bool", "boolean", "", false)
	simple("UUID", "string", OneOf{"uuid", ""}, false)
	simple("Timestamp", "string", "date-time", false)
	simple("Bytes", "string", "byte", true)
	simple("UnitValue", "string", "", true)
	simple("Any", "", "", true)
	for n := 1; n <= 3; n++ {
		n := n
		cs = append(cs, oasCase{
			name: fmt.Sprintf("Enum of %d", n),
			spec: func(b *B) F {
				var xs []interface{}
				for i := 0; i < n; i++ {
					xs = append(xs, b.atom(fmt.Sprint("e", i)))
				}
				return F{"Type": "Enum", "Elements": b.elems(xs...)}
			},
			td: func(b *B) F {
				var xs Seq
				for i := 0; i < n; i++ {
					xs = append(xs, b.atom(fmt.Sprint("e", i)))
				}
				return plain.with("Type", "string").with("Enum", xs).with("Format", "")
			},
			named: true,
		})
	}
	for n := 0; n <= 3; n++ {
		for req := 0; req < 1<<uint(n); req++ {
			n, req := n, req
			fts := []string{"String", "Int32", "Bool"}
			ots := []string{"string", "integer", "boolean"}
			cs = append(cs, oasCase{
				name: fmt.Sprintf("Struct of %d fields, required %b", n, req),
				spec: func(b *B) F {
					var xs []*Term
					for i := 0; i < n; i++ {
						xs = append(xs, b.field(b.atom(fmt.Sprint("f", i)), F{"Type": fts[i], "Required": req&(1<<uint(i)) != 0}))
					}
					return F{"Type": "Struct", "Fields": b.list(xs...)}
				},
				td: func(b *B) F {
					var ps M
					var rq Seq
					for i := 0; i < n; i++ {
						ps = append(ps, b.atom(fmt.Sprint("f", i)), F{"Type": ots[i], "Ref": ""})
						if req&(1<<uint(i)) != 0 {
							rq = append(rq, b.atom(fmt.Sprint("f", i)))
						}
					}
					return F{"Type": "object", "Ref": "", "Properties": ps, "Required": rq, "AdditionalProperties": nil, "Enum": nil, "Items": nil}
				},
				named: true,
			})
		}
	}
	for _, kind := range []string{"Array", "Map"} {
		for mask := 0; mask < 4; mask++ {
			for _, item := range []string{"String", "Int64", "Float64", "Timestamp", "Any", "Other", "OtherEnum", "OtherString", "Array", "Map", "Bool", "Bytes"} {
				kind, mask, item := kind, mask, item
				if mask != 3 && item != "String" && item != "Other" {
					continue
				}
				cs = append(cs, oasCase{
					name: fmt.Sprintf("%s of %s, minsize %v maxsize %v", kind, item, mask&1 != 0, mask&2 != 0),
					spec: func(b *B) F {
						f := F{"Type": kind, "Items": item}
						if kind == "Map" {
							f["Keys"] = "String"
						}
						if mask&1 != 0 {
							f["MinSize"] = b.i64(nnInt(b, "lo"))
						}
						if mask&2 != 0 {
							f["MaxSize"] = b.i64(nnInt(b, "hi"))
						}
						return f
					},
					td: func(b *B) F {
						var it interface{}
						switch item {
						case "String":
							it = F{"Type": "string", "Ref": "", "Format": "", "Pattern": "", "MinLength": 0, "MaxLength": nil, "Enum": nil}
						case "Int64":
							it = F{"Type": "integer", "Ref": "", "Format": "int64", "Min": nil}
						case "Float64":
							it = F{"Type": "number", "Ref": "", "Format": "double", "Max": nil}
						case "Timestamp":
							it = F{"Type": "string", "Ref": "", "Format": "date-time"}
						case "Any":
							it = F{"Type": "", "Ref": "", "OneOf": nil, "Not": nil}
						case "Array":
							it = F{"Type": "array", "Ref": "", "MinItems": 0, "MaxItems": nil, "Items": OneOf{nil, F{"Type": "", "Ref": "", "OneOf": nil}}}
						case "Map":
							it = F{"Type": "object", "Ref": "", "Properties": nil, "Required": nil}
						case "Bool":
							it = F{"Type": "boolean", "Ref": ""}
						case "Bytes":
							it = F{"Type": "string", "Ref": "", "Format": "byte"}
						case "Other", "OtherEnum":
							it = b.oasRef(item)
						case "OtherString":
							// a constrained string is referred to, or repeated in place
							it = OneOf{b.oasRef(item), F{"Ref": "", "Type": "string", "Pattern": b.atom("otherpattern"), "MaxLength": D{nnInt(b, "ohi")}}}
						}
						f := F{"Ref": "", "Properties": nil, "Enum": nil, "MinItems": 0, "MaxItems": nil, "MinProps": 0, "MaxProps": nil, "UniqueItems": false}
						lo, hi := "MinItems", "MaxItems"
						if kind == "Array" {
							f["Type"], f["Items"], f["AdditionalProperties"] = "array", it, nil
						} else {
							f["Type"], f["Items"], f["AdditionalProperties"] = "object", nil, it
							lo, hi = "MinProps", "MaxProps"
						}
						if mask&1 != 0 {
							f[lo] = nnInt(b, "lo")
						}
						if mask&2 != 0 {
							f[hi] = D{nnInt(b, "hi")}
						}
						return f
					},
				})
			}
		}
	}
	cs = append(cs, oasCase{
		name: "Union of two",
		spec: func(b *B) F {
			return F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": "Other", "Type": "Other"}), b.obj("UnionVariantDef", F{"Name": "OtherEnum", "Type": "OtherEnum"}))}
		},
		td: func(b *B) F {
			return F{"Ref": "", "Properties": nil, "Enum": nil, "AllOf": nil, "OneOf": Seq{b.oasRef("Other"), b.oasRef("OtherEnum")}}
		},
		named: true,
	})
	cs = append(cs, oasCase{
		name: "Union with base types",
		spec: func(b *B) F {
			return F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": b.atom("a"), "Type": "Int32"}), b.obj("UnionVariantDef", F{"Name": b.atom("b"), "Type": "Other"}), b.obj("UnionVariantDef", F{"Name": b.atom("c"), "Type": "String"}))}
		},
		td: func(b *B) F {
			return F{"Ref": "", "Properties": nil, "Enum": nil, "AllOf": nil, "OneOf": Seq{F{"Ref": "", "Type": "integer", "Format": "int32"}, b.oasRef("Other"), F{"Ref": "", "Type": "string"}}}
		},
		named: true,
	})
	cs = append(cs, oasCase{
		name: "Union with constrained types",
		spec: func(b *B) F {
			return F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": b.atom("a"), "Type": "Int32", "Min": b.dec(b.num("lo"))}),
				b.obj("UnionVariantDef", F{"Name": b.atom("b"), "Type": "Array", "Items": "Other", "MaxSize": b.i64(nnInt(b, "hi"))}),
				b.obj("UnionVariantDef", F{"Name": b.atom("c"), "Type": "String", "Pattern": b.atom("pattern")}),
				b.obj("UnionVariantDef", F{"Name": b.atom("d"), "Type": "Map", "Keys": "String", "Items": "Int64", "MinSize": b.i64(nnInt(b, "lo2"))}))}
		},
		td: func(b *B) F {
			return F{"Ref": "", "Properties": nil, "Enum": nil, "AllOf": nil, "OneOf": Seq{F{"Ref": "", "Type": "integer", "Format": "int32", "Min": b.floatOf(b.num("lo")), "Max": nil},
				F{"Ref": "", "Type": "array", "Items": b.oasRef("Other"), "MaxItems": D{nnInt(b, "hi")}}, F{"Ref": "", "Type": "string", "Pattern": b.atom("pattern")},
				F{"Ref": "", "Type": "object", "AdditionalProperties": F{"Type": "integer", "Format": "int64"}, "MinProps": nnInt(b, "lo2")}}}
		},
		named: true,
	})
	return cs
}

// others are further declarations that the cases refer to.
func (b *B) others() []*Term {
	return []*Term{
		b.tdef("Other", F{"Type": "Struct", "Fields": b.list(b.field(b.atom("of"), F{"Type": "String", "Required": true}))}),
		b.tdef("OtherEnum", F{"Type": "Enum", "Elements": b.elems(b.atom("oe"))}),
		b.tdef("OtherString", F{"Type": "String", "Pattern": b.atom("otherpattern"), "MaxSize": b.i64(nnInt(b, "ohi"))}),
	}
}

func (o *O) schemaOf(rs []Ret, name interface{}, what string, want interface{}) {
	b := o.b
	o.matchesAt(rs, what, HasM{name, want}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
}

func runC16(c *C) {
	for _, k := range oasCases() {
		k := k
		c.check("declared "+k.name, nil, func(b *B, o *O) {
			spec := k.spec(b)
			T := b.atom("T")
			comment := b.atom("comment")
			m := b.types(append(b.others(), b.tdef(T, spec.with("Comment", comment)))...)
			rs := b.oas(m)
			if k.reject {
				// either an error or the right schema
				o.expect(rs, "the type must become its schema, or be reported as unsupported", func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					if n := b.accepts(r); n != 1 {
						return 1 - n
					}
					n, _ := b.match(r.st, b.get(r.st, valOf(r), "Components.Schemas"), HasM{T, k.td(b)}, "schemas")
					return n
				})
				return
			}
			o.schemaOf(rs, T, "the schema of the type", k.td(b).with("Description", comment))
			o.matchesAt(rs, "exactly the declared types have schemas", M{"Other", Whatever{}, "OtherEnum", Whatever{}, "OtherString", Whatever{}, T, Whatever{}}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
		})
		in := k.inline
		if in == nil {
			in = k.td
		}
		if strings.HasPrefix(k.name, "Union ") {
			in = nil
		}
		if in != nil {
			c.check("field of type "+k.name, nil, func(b *B, o *O) {
				spec := k.spec(b)
				m := b.types(append(b.others(), b.tdef(b.atom("S"), F{"Type": "Struct", "Fields": b.list(b.field(b.atom("g"), F{"Type": "Bool"}), b.field(b.atom("f"), spec))}))...)
				o.schemaOf(b.oas(m), b.atom("S"), "the schema of the field", F{"Type": "object", "Properties": M{b.atom("g"), F{"Type": "boolean"}, b.atom("f"), in(b)}})
			})
			c.check("input of type "+k.name, nil, func(b *B, o *O) {
				spec := k.spec(b)
				in2 := b.obj("HttpParamSpec", spec.with("Name", b.atom("p")).with("Query", b.atom("q")))
				h := b.obj("HttpDef", F{"Name": b.atom("h"), "Method": "GET", "Path": b.e.T.Str("/x"), "Inputs": b.list(in2), "Expected": b.obj("HttpExpectedSpec", F{"Status": 200})})
				m := b.newModel(F{"Types": b.list(b.others()...), "Http": b.list(h)})
				o.matchesAt(b.oas(m), "the schema of the parameter", M{"/x", F{"Get": F{"Parameters": Seq{F{"Schema": in(b)}}}}}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Paths") })
			})
		}
		if !k.reject {
			for _, kind := range []string{"Array", "Map", "field"} {
				kind := kind
				c.check(kind+" of declared "+k.name, nil, func(b *B, o *O) {
					spec := k.spec(b)
					T := b.atom("T")
					f := F{"Type": kind, "Items": T}
					if kind == "Map" {
						f["Keys"] = "String"
					}
					if kind == "field" {
						f = F{"Type": "Struct", "Fields": b.list(b.field(b.atom("f"), F{"Type": T}))}
					}
					m := b.types(append(b.others(), b.tdef(T, spec), b.tdef(b.atom("U"), f))...)
					var it interface{} = b.oasRef(T)
					if !k.named && kind != "field" {
						it = OneOf{b.oasRef(T), k.td(b)}
					}
					want := F{"Type": "array", "Items": it}
					if kind == "Map" {
						want = F{"Type": "object", "AdditionalProperties": it}
					}
					if kind == "field" {
						want = F{"Type": "object", "Properties": M{b.atom("f"), it}}
					}
					o.schemaOf(b.oas(m), b.atom("U"), "the schema of the item", want)
				})
			}
		}
	}
	// the document
	for mask := 0; mask < 32; mask++ {
		mask := mask
		c.check(fmt.Sprintf("document: version %v server %v license name %v url %v other annotations %v", mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0, mask&16 != 0), nil, func(b *B, o *O) {
			f := F{"Name": b.atom("name"), "Comment": b.atom("comment"), "Types": b.list(b.others()...)}
			ver := b.e.T.Str("dev")
			if mask&1 != 0 {
				ver = b.atom("version")
				f["Version"] = ver
			}
			var kv []interface{}
			if mask&16 != 0 {
				kv = append(kv, b.atom("anno"), b.atom("annov"))
			}
			if mask&2 != 0 {
				kv = append(kv, "x_server", b.atom("url"))
			}
			if mask&4 != 0 {
				kv = append(kv, "x_license_name", b.atom("lname"))
			}
			if mask&8 != 0 {
				kv = append(kv, "x_license_url", b.atom("lurl"))
			}
			if len(kv) > 0 {
				f["Annotations"] = b.annos(kv...)
			}
			m := b.newModel(f)
			want := F{"OpenAPI": Pred(func(st *State, t *Term) int {
				s, ok := t.isStr()
				if !ok {
					return -1
				}
				if len(s) > 2 && s[:2] == "3." {
					return 1
				}
				return 0
			}), "Info.Title": b.atom("name"), "Info.Description": b.atom("comment"), "Info.Version": ver, "Info.License": nil}
			if mask&12 != 0 {
				l := F{"Name": "", "URL": ""}
				if mask&4 != 0 {
					l["Name"] = b.atom("lname")
				}
				if mask&8 != 0 {
					l["URL"] = b.atom("lurl")
				}
				want["Info.License"] = l
			}
			rs := b.oas(m)
			o.matches(rs, "the document information", want)
			if mask&2 != 0 {
				o.expect(rs, "the annotated server must be listed", func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					xs, ok := b.items(b.get(r.st, valOf(r), "Servers"))
					res := 0
					if !ok {
						res = -1
					}
					for _, x := range xs {
						if n := b.same(r.st, b.get(r.st, x, "URL"), b.atom("url")); n == 1 {
							return 1
						} else if n < 0 {
							res = -1
						}
					}
					return res
				})
			}
		})
	}
	// order and number of declarations
	for n := 0; n <= 4; n++ {
		n := n
		c.check(fmt.Sprintf("%d declarations", n), nil, func(b *B, o *O) {
			var ts []*Term
			var want M
			for i := 0; i < n; i++ {
				nm := b.atom(fmt.Sprint("T", i))
				ts = append(ts, b.tdef(nm, F{"Type": "String", "Pattern": b.atom(fmt.Sprint("p", i)), "Comment": b.atom(fmt.Sprint("c", i))}))
				want = append(want, nm, F{"Type": "string", "Pattern": b.atom(fmt.Sprint("p", i)), "Description": b.atom(fmt.Sprint("c", i))})
			}
			m := b.types(ts...)
			o.matchesAt(b.oas(m), "each type has its own schema", want, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
		})
	}
}

var oasMethods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}

func oasMember(m string) string { return m[:1] + lower(m[1:]) }

func lower(s string) string {
	bs := []byte(s)
	for i, ch := range bs {
		if ch >= 'A' && ch <= 'Z' {
			bs[i] = ch + 32
		}
	}
	return string(bs)
}

func (b *B) param(f F) *Term { return b.obj("HttpParamSpec", f) }

func (b *B) expected(status interface{}, outs ...*Term) *Term {
	return b.obj("HttpExpectedSpec", F{"Status": status, "Outputs": b.list(outs...)})
}

// action builds an http action; method, path, expected default to GET "/x" and an empty 200.
func (b *B) action(name interface{}, f F) *Term {
	g := F{"Name": name, "Method": "GET", "Path": "/x"}
	for k, v := range f {
		g[k] = v
	}
	if _, ok := g["Expected"]; !ok {
		g["Expected"] = b.expected(200)
	}
	return b.obj("HttpDef", g)
}

func (b *B) httpModel(acts ...*Term) *Term {
	return b.newModel(F{"Name": b.atom("S"), "Types": b.list(b.others()...), "Http": b.list(acts...)})
}

func (o *O) paths(rs []Ret, what string, want interface{}) {
	b := o.b
	o.matchesAt(rs, what, want, func(r Ret) *Term { return b.get(r.st, valOf(r), "Paths") })
}

func noOthers(has ...string) F {
	f := F{}
	for _, m := range oasMethods {
		f[oasMember(m)] = nil
	}
	f["Connect"], f["Trace"] = nil, nil
	for _, h := range has {
		delete(f, oasMember(h))
	}
	return f
}

func runC17(c *C) {
	for _, m1 := range oasMethods {
		m1 := m1
		c.check("method "+m1, nil, func(b *B, o *O) {
			m := b.httpModel(b.action(b.atom("act"), F{"Method": m1, "Comment": b.atom("comment")}))
			o.paths(b.oas(m), "the operation must be under its path and method", M{"/x", noOthers(m1).with(oasMember(m1), F{"OperationId": b.atom("act"), "Summary": b.atom("comment"), "Deprecated": false})})
		})
		for _, m2 := range oasMethods {
			m2 := m2
			c.check("methods "+m1+" and "+m2+" of one path", nil, func(b *B, o *O) {
				m := b.httpModel(b.action(b.atom("a1"), F{"Method": m1}), b.action(b.atom("a2"), F{"Method": m2}))
				rs := b.oas(m)
				if m1 == m2 {
					o.reject(rs, "two actions with the same method and path")
					return
				}
				o.paths(rs, "both operations must be under the path", M{"/x", noOthers(m1, m2).with(oasMember(m1), F{"OperationId": b.atom("a1")}).with(oasMember(m2), F{"OperationId": b.atom("a2")})})
			})
		}
	}
	c.check("a method OpenAPI does not know", nil, func(b *B, o *O) {
		o.reject(b.oas(b.httpModel(b.action(b.atom("a1"), F{"Method": b.atom("FOO")}))), "an unknown method")
	})
	// paths
	for _, base := range []string{"none", "text"} {
		for _, q := range []string{"", "?q={q}", "?q={q}&r={r}"} {
			for _, n := range []int{1, 2, 3} {
				base, q, n := base, q, n
				c.check(fmt.Sprintf("%d paths, base %s, query %q", n, base, q), nil, func(b *B, o *O) {
					var as []*Term
					var want M
					bs := b.e.T.Str("")
					f := F{"Types": b.list(b.others()...)}
					if base == "text" {
						bs = b.e.cat(b.e.T.Str("/"), b.atom("base"))
						f["Base"] = bs
					}
					for i := 0; i < n; i++ {
						p := b.e.cat(b.e.T.Str("/"), b.atom(fmt.Sprint("p", i)), b.e.T.Str("/{id}"))
						as = append(as, b.action(b.atom(fmt.Sprint("a", i)), F{"Path": b.e.cat(p, b.e.T.Str(q))}))
						want = append(want, b.e.cat(bs, p), noOthers("GET").with("Get", F{"OperationId": b.atom(fmt.Sprint("a", i))}))
					}
					f["Http"] = b.list(as...)
					o.paths(b.oas(b.newModel(f)), "each action must be under the base path and its own path, without the query", want)
				})
			}
		}
	}
	c.check("actions that differ in the query only", nil, func(b *B, o *O) {
		m := b.httpModel(b.action(b.atom("a1"), F{"Path": "/x?a={a}"}), b.action(b.atom("a2"), F{"Path": "/x?b={b}"}))
		o.reject(b.oas(m), "two actions with the same method and path")
	})
	// tags
	for _, res := range []bool{false, true} {
		for _, tags := range []int{0, 1, 3} {
			res, tags := res, tags
			c.check(fmt.Sprintf("tags: resource %v, %d annotated", res, tags), nil, func(b *B, o *O) {
				f := F{}
				var want Seq
				if res {
					f["Resource"] = b.atom("res")
					want = append(want, b.atom("res"))
				}
				var txt []*Term
				for i := 0; i < tags; i++ {
					if i > 0 {
						txt = append(txt, b.e.T.Str(","))
					}
					txt = append(txt, b.atom(fmt.Sprint("t", i)))
					want = append(want, b.atom(fmt.Sprint("t", i)))
				}
				if tags > 0 {
					f["Annotations"] = b.annos("x_other", b.atom("oth"), "x_tags", b.e.cat(txt...))
				}
				o.paths(b.oas(b.httpModel(b.action(b.atom("a"), f))), "the tags, the resource first", M{"/x", F{"Get": F{"Tags": want}}})
			})
		}
	}
	// parameters
	str := F{"Type": "string", "Ref": ""}
	mkParam := func(b *B, kind string, i int, req bool) (*Term, interface{}) {
		nm, alt := b.atom(fmt.Sprint("in", i)), b.atom(fmt.Sprint("alt", i))
		f := F{"Name": nm, "Type": "String", "Required": req, "Comment": b.atom(fmt.Sprint("pc", i))}
		if b.dressed {
			f["Default"] = b.str(b.atom(fmt.Sprint("default", i)))
		}
		want := F{"Description": b.atom(fmt.Sprint("pc", i)), "Required": req, "Schema": str, "In": kind}
		switch kind {
		case "path":
			f["Path"] = true
			want["Name"] = nm
			want["Required"] = true
		case "query":
			f["Query"] = alt
			want["Name"] = alt
		case "header":
			f["Header"] = alt
			want["Name"] = alt
		case "body":
			f["Type"] = "Other"
			want = F{"Description": b.atom(fmt.Sprint("pc", i)), "Content": M{"application/json", F{"Schema": b.oasRef("Other")}}}
			if req {
				want["Required"] = true
			}
		}
		return b.param(f), want
	}
	kinds := []string{"path", "query", "header", "body"}
	seqs := [][]string{{}}
	for _, a := range kinds {
		seqs = append(seqs, []string{a})
		for _, d := range kinds {
			if a == "body" && d == "body" {
				continue
			}
			seqs = append(seqs, []string{a, d})
		}
	}
	seqs = append(seqs, []string{"path", "query", "header", "body"}, []string{"body", "header", "query", "path"}, []string{"query", "query", "query"}, []string{"path", "path", "body", "header"})
	for _, seq := range seqs {
		for req := 0; req < 1<<uint(len(seq)); req++ {
			seq, req := seq, req
			c.check(fmt.Sprintf("inputs %v, required %b", seq, req), nil, func(b *B, o *O) {
				var ins []*Term
				var want Seq
				var body interface{}
				for i, k := range seq {
					t, w := mkParam(b, k, i, req&(1<<uint(i)) != 0)
					ins = append(ins, t)
					if k == "body" {
						body = w
					} else {
						want = append(want, w)
					}
				}
				m := b.httpModel(b.action(b.atom("a"), F{"Method": "PUT", "Inputs": b.list(ins...)}))
				o.paths(b.oas(m), "the parameters and the body of the operation", M{"/x", F{"Put": F{"Parameters": want, "RequestBody": body}, "Parameters": nil}})
			})
		}
	}
	// responses
	for _, status := range []int{200, 201, 204, 304} {
		for mask := 0; mask < 8; mask++ {
			status, mask := status, mask
			c.check(fmt.Sprintf("expected %d: body %v headers %v comment %v", status, mask&1 != 0, mask&2 != 0, mask&4 != 0), nil, func(b *B, o *O) {
				var outs []*Term
				var cont, heads M
				f := F{"Status": status}
				want := F{"Description": NotEmpty{}}
				if mask&2 != 0 {
					outs = append(outs, b.param(F{"Name": b.atom("h1"), "Header": b.atom("H1"), "Type": "String", "Comment": b.atom("hc1")}))
					heads = append(heads, b.atom("H1"), F{"Description": b.atom("hc1"), "Schema": str})
				}
				if mask&1 != 0 {
					outs = append(outs, b.param(F{"Name": b.atom("body"), "Type": "Other"}))
					cont = append(cont, "application/json", F{"Schema": b.oasRef("Other"), "Example": nil})
				}
				if mask&2 != 0 {
					outs = append(outs, b.param(F{"Name": b.atom("h2"), "Header": b.atom("H2"), "Type": "Int64", "Comment": b.atom("hc2")}))
					heads = append(heads, b.atom("H2"), F{"Description": b.atom("hc2"), "Schema": F{"Type": "integer", "Format": "int64"}})
				}
				if mask&4 != 0 {
					f["Comment"] = b.atom("ec")
					want["Description"] = b.atom("ec")
				}
				f["Outputs"] = b.list(outs...)
				want["Content"], want["Headers"] = cont, heads
				m := b.httpModel(b.action(b.atom("a"), F{"Expected": b.obj("HttpExpectedSpec", f)}))
				o.paths(b.oas(m), "the expected response", M{"/x", F{"Get": F{"Responses": M{fmt.Sprint(status), want}}}})
			})
		}
	}
	for st := 100; st < 600; st++ {
		if http.StatusText(st) == "" {
			continue
		}
		st := st
		c.check(fmt.Sprintf("status %d", st), nil, func(b *B, o *O) {
			m := b.httpModel(b.action(b.atom("a"), F{"Expected": b.expected(st), "Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": 600, "Type": "Other"}))}),
				b.action(b.atom("b"), F{"Path": "/y", "Expected": b.expected(600), "Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": st, "Type": "Other"}))}))
			ok, exc := F{"Content": nil}, F{"Content": M{"application/json", F{"Schema": b.oasRef("Other")}}}
			o.paths(b.oas(m), "the responses", M{"/x", F{"Get": F{"Responses": M{fmt.Sprint(st), ok, "600", exc}}}, "/y", F{"Get": F{"Responses": M{"600", ok, fmt.Sprint(st), exc}}}})
		})
	}
	for n := 1; n <= 4; n++ {
		for _, dflt := range []bool{false, true} {
			n, dflt := n, dflt
			c.check(fmt.Sprintf("%d exceptions, with default %v", n, dflt), nil, func(b *B, o *O) {
				var xs []*Term
				want := M{"200", Whatever{}}
				for i := 0; i < n; i++ {
					st, key := 400+i, fmt.Sprint(400+i)
					if dflt && i == n/2 {
						st, key = 0, "default"
					}
					typ := []string{"Other", "OtherEnum", "OtherString", "String"}[i]
					var sch interface{} = b.oasRef(typ)
					if typ == "String" {
						sch = str
					}
					f := F{"Status": st, "Type": typ}
					d := interface{}(NotEmpty{})
					if i%2 == 0 {
						f["Comment"] = b.atom(fmt.Sprint("xc", i))
						d = b.atom(fmt.Sprint("xc", i))
					}
					xs = append(xs, b.obj("HttpExceptionSpec", f))
					want = append(want, key, F{"Description": d, "Content": M{"application/json", F{"Schema": sch}}, "Headers": nil})
				}
				m := b.httpModel(b.action(b.atom("a"), F{"Exceptions": b.list(xs...), "Expected": b.expected(200, b.param(F{"Name": b.atom("h1"), "Header": b.atom("H1"), "Type": "String"}), b.param(F{"Name": "body", "Type": "OtherEnum"}))}))
				want[1] = F{"Headers": M{b.atom("H1"), Whatever{}}, "Content": M{"application/json", F{"Schema": b.oasRef("OtherEnum")}}}
				o.paths(b.oas(m), "one response for each exception", M{"/x", F{"Get": F{"Responses": want}}})
			})
		}
	}
	// examples
	ex := func(b *B, f F) *Term { return b.obj("ExampleDef", f) }
	for n := 1; n <= 3; n++ {
		n := n
		c.check(fmt.Sprintf("%d examples of types", n), nil, func(b *B, o *O) {
			var xs []*Term
			ts := []string{"Other", "OtherString", "OtherEnum"}
			var want M
			for i := 0; i < 3; i++ {
				var w interface{}
				if i < n {
					xs = append(xs, ex(b, F{"Target": ts[i], "Example": b.str(b.sym(fmt.Sprint("ex", i), tString))}))
					w = b.sym(fmt.Sprint("ex", i), tString)
				}
				want = append(want, ts[i], F{"Example": w})
			}
			m := b.newModel(F{"Types": b.list(b.others()...), "Examples": b.list(xs...)})
			o.matchesAt(b.oas(m), "each type has its own example", want, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
		})
	}
	for _, named := range []bool{false, true} {
		for _, method := range oasMethods {
			for _, body := range []bool{false, true} {
				named, method, body := named, method, body
				c.check(fmt.Sprintf("request example, named %v, method %s, body %v", named, method, body), nil, func(b *B, o *O) {
					ins := []*Term{b.param(F{"Name": "p", "Path": true, "Type": "String"}), b.param(F{"Name": "q", "Query": "q", "Type": "String"})}
					if body {
						ins = append(ins, b.param(F{"Name": "body", "Type": "Other"}))
					}
					act := b.action("getIt", F{"Method": method, "Path": "/x/{p}?q={q}", "Inputs": b.list(ins...)})
					other := b.action("other", F{"Method": method, "Path": "/y/{p}?q={q}", "Inputs": b.list(ins...)})
					e := F{"Target": "GetItRequest", "Example": b.mapAny(b.e.T.Str("q"), b.str(b.sym("vq", tString)), b.e.T.Str("body"), b.str(b.sym("vb", tString)))}
					exFor := func(v string) F {
						if named {
							return F{"Example": nil, "Examples": M{b.atom("ename"), F{"Value": b.sym(v, tString)}}}
						}
						return F{"Example": b.sym(v, tString), "Examples": nil}
					}
					none := F{"Example": nil, "Examples": nil}
					if named {
						e["Name"] = b.atom("ename")
					}
					var wb, nb interface{}
					if body {
						wb = F{"Content": M{"application/json", exFor("vb")}}
						nb = F{"Content": M{"application/json", none}}
					}
					m := b.newModel(F{"Types": b.list(b.others()...), "Http": b.list(other, act), "Examples": b.list(ex(b, e))})
					o.paths(b.oas(m), "the example must be on the parameters and body of its action only", M{
						"/x/{p}", F{oasMember(method): F{"Parameters": Seq{none, exFor("vq")}, "RequestBody": wb, "Responses": M{"200", F{"Content": nil}}}},
						"/y/{p}", F{oasMember(method): F{"Parameters": Seq{none, none}, "RequestBody": nb}}})
				})
				c.check(fmt.Sprintf("response example, named %v, method %s, body %v", named, method, body), nil, func(b *B, o *O) {
					var outs []*Term
					if body {
						outs = append(outs, b.param(F{"Name": "body", "Type": "Other"}))
					}
					act := b.action("getIt", F{"Method": method, "Path": "/x", "Expected": b.expected(201, outs...), "Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": 404, "Type": "Other"}))})
					other := b.action("other", F{"Method": method, "Path": "/y", "Expected": b.expected(201, outs...)})
					e := F{"Target": "GetItResponse", "Example": b.mapAny(b.e.T.Str("body"), b.str(b.sym("vb", tString)))}
					w := F{"Example": b.sym("vb", tString), "Examples": nil}
					none := F{"Example": nil, "Examples": nil}
					if named {
						e["Name"] = b.atom("ename")
						w = F{"Example": nil, "Examples": M{b.atom("ename"), F{"Value": b.sym("vb", tString)}}}
					}
					var wb, nb M
					if body {
						wb, nb = M{"application/json", w}, M{"application/json", none}
					}
					m := b.newModel(F{"Types": b.list(b.others()...), "Http": b.list(other, act), "Examples": b.list(ex(b, e))})
					o.paths(b.oas(m), "the example must be on the expected response of its action only", M{
						"/x", F{oasMember(method): F{"Responses": M{"201", F{"Content": wb}, "404", F{"Content": M{"application/json", none}}}}},
						"/y", F{oasMember(method): F{"Responses": M{"201", F{"Content": nb}}}}})
				})
			}
		}
	}
	for _, name := range []string{"getResponseTime", "requestInfo", "getResponse", "listRequests", "x", "getRequestResponse"} {
		name := name
		c.check("examples of the action "+name, nil, func(b *B, o *O) {
			act := b.action(name, F{"Method": "PUT", "Path": "/x?q={q}", "Inputs": b.list(b.param(F{"Name": "q", "Query": "q", "Type": "String"}), b.param(F{"Name": "body", "Type": "Other"})), "Expected": b.expected(200, b.param(F{"Name": "body", "Type": "Other"}))})
			exs := b.list(ex(b, F{"Target": strings.ToUpper(name[:1]) + name[1:] + "Request", "Example": b.mapAny(b.e.T.Str("q"), b.str(b.sym("vq", tString)), b.e.T.Str("body"), b.str(b.sym("vb", tString)))}),
				ex(b, F{"Target": strings.ToUpper(name[:1]) + name[1:] + "Response", "Example": b.mapAny(b.e.T.Str("body"), b.str(b.sym("vr", tString)))}))
			m := b.newModel(F{"Types": b.list(b.others()...), "Http": b.list(act), "Examples": exs})
			o.paths(b.oas(m), "the examples of the request and the response", M{"/x", F{"Put": F{"Parameters": Seq{F{"Example": b.sym("vq", tString)}}, "RequestBody": F{"Content": M{"application/json", F{"Example": b.sym("vb", tString)}}},
				"Responses": M{"200", F{"Content": M{"application/json", F{"Example": b.sym("vr", tString)}}}}}}})
		})
	}
	for _, t := range []string{"NoneRequest", "NoneResponse", "None"} {
		t := t
		c.check("example that matches nothing: "+t, nil, func(b *B, o *O) {
			m := b.newModel(F{"Types": b.list(b.others()...), "Http": b.list(b.action(b.atom("a"), F{})), "Examples": b.list(ex(b, F{"Target": t, "Example": b.mapAny(b.e.T.Str("body"), b.str("x"))}))})
			o.paths(b.oas(m), "the example must be ignored", M{"/x", F{"Get": F{"OperationId": b.atom("a")}}})
		})
	}
}
