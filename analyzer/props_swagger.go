package main

// props_swagger.go: C20, Swagger 2.0 documents as OpenAPI; C21, loading and saving of OpenAPI documents.

import (
	"fmt"
	"go/types"
	"net/http"
	"strings"
)

func init() {
	register(&Property{id: "C20", rule: "LoadSwagger turns every part of a Swagger 2.0 document into the corresponding part of an OpenAPI document and rejects any other document.", run: runC20})
	register(&Property{id: "C21", rule: "Load and Import accept exactly readable documents with the required parts, and an OpenAPI document is encoded under the names of the specification without loss.", run: runC21})
}

type J []interface{}  // a JSON object: key, value, ...
type JL []interface{} // a JSON list

// json builds generic data.
func (b *B) json(v interface{}) *Term {
	switch x := v.(type) {
	case J:
		var kv []*Term
		for i := 0; i+1 < len(x); i += 2 {
			kv = append(kv, b.term(x[i], tString), b.json(x[i+1]))
		}
		return b.mapAny(kv...)
	case JL:
		var xs []*Term
		for _, y := range x {
			xs = append(xs, b.json(y))
		}
		return b.listAny(xs...)
	case string:
		return b.str(x)
	case bool:
		return b.boolAny(x)
	case int:
		return b.any(tF64, b.e.T.Int(int64(x)))
	case *Term:
		if x.op == OIface {
			return x
		}
		if isAtom(x) {
			return b.str(x)
		}
		return b.any(tF64, x)
	case nil:
		return b.e.T.Nil()
	}
	panic(fmt.Sprintf("json: %T", v))
}

// swagger loads a Swagger document with the given content.
func (b *B) swagger(doc J) []Ret { return b.loadSwagger("LoadSwagger", doc, b.e.T.Str("dir/x.json")) }

func (b *B) loadSwagger(fn string, doc J, args ...*Term) []Ret {
	d := b.json(doc)
	b.e.sc.decoded = func(e *Engine, st *State, kind string, t types.Type) *Term {
		if _, ok := under(t).(*types.Map); ok {
			return d.args[0]
		}
		return d
	}
	return b.call(nil, "openapi", fn, args...)
}

func swag(parts ...interface{}) J {
	d := J{"swagger", "2.0", "info", J{"title", "T", "version", "v1"}}
	for i := 0; i+1 < len(parts); i += 2 {
		for k := 0; k+1 < len(d); k += 2 {
			if d[k] == parts[i] {
				d = append(append(J{}, d[:k]...), d[k+2:]...)
				break
			}
		}
		if parts[i+1] != nil {
			d = append(d, parts[i], parts[i+1])
		}
	}
	has := map[interface{}]bool{}
	for k := 0; k+1 < len(d); k += 2 {
		has[d[k]] = true
	}
	if !has["paths"] {
		d = append(d, "paths", J{})
	}
	return d
}

type swagCase struct {
	name string
	sch  func(b *B) J
	want func(b *B) F
	par  bool // also a parameter type
}

func swagCases() []swagCase {
	plain := F{"Ref": "", "Type": "", "Format": "", "Enum": nil, "Min": nil, "Max": nil, "MinLength": 0, "MaxLength": nil, "Pattern": "", "MinItems": 0, "MaxItems": nil, "Items": nil, "Required": nil, "Properties": nil}
	var cs []swagCase
	for _, t := range []string{"string", "integer", "number"} {
		for _, format := range []bool{false, true} {
			for _, lo := range []bool{false, true} {
				for _, hi := range []bool{false, true} {
					for _, pat := range []bool{false, true} {
						t, format, lo, hi, pat := t, format, lo, hi, pat
						if pat && t != "string" {
							continue
						}
						cs = append(cs, swagCase{fmt.Sprintf("%s format %v lower %v upper %v pattern %v", t, format, lo, hi, pat), func(b *B) J {
							j := J{"type", t}
							if format {
								j = append(j, "format", b.atom("fmt"))
							}
							kl, kh := "minimum", "maximum"
							if t == "string" {
								kl, kh = "minLength", "maxLength"
							}
							if lo {
								j = append(j, kl, b.sym("+lo", tF64))
							}
							if hi {
								j = append(j, kh, b.sym("+hi", tF64))
							}
							if pat {
								j = append(j, "pattern", b.atom("pat"))
							}
							return j
						}, func(b *B) F {
							w := plain.with("Type", t)
							if format {
								w["Format"] = b.atom("fmt")
							}
							if lo {
								if t == "string" {
									w["MinLength"] = b.wide("+lo")
								} else {
									w["Min"] = D{b.sym("+lo", tF64)}
								}
							}
							if hi {
								if t == "string" {
									w["MaxLength"] = D{b.wide("+hi")}
								} else {
									w["Max"] = D{b.sym("+hi", tF64)}
								}
							}
							if pat {
								w["Pattern"] = b.atom("pat")
							}
							return w
						}, true})
					}
				}
			}
		}
	}
	cs = append(cs, swagCase{"integer bounds of zero", func(b *B) J { return J{"type", "integer", "minimum", 0, "maximum", 0} }, func(b *B) F {
		return plain.with("Type", "integer").with("Min", D{0}).with("Max", D{0})
	}, true})
	cs = append(cs, swagCase{"string maxLength zero", func(b *B) J { return J{"type", "string", "maxLength", 0} }, func(b *B) F { return plain.with("Type", "string").with("MaxLength", D{0}) }, true})
	cs = append(cs, swagCase{"boolean", func(b *B) J { return J{"type", "boolean"} }, func(b *B) F { return plain.with("Type", "boolean") }, true})
	cs = append(cs, swagCase{"reference", func(b *B) J { return J{"$ref", "#/definitions/Other"} }, func(b *B) F { return plain.with("Ref", refTo+"Other") }, false})
	for n := 1; n <= 3; n++ {
		n := n
		cs = append(cs, swagCase{fmt.Sprintf("string enum of %d", n), func(b *B) J {
			var l JL
			for i := 0; i < n; i++ {
				l = append(l, b.atom(fmt.Sprint("e", i)))
			}
			return J{"type", "string", "enum", l}
		}, func(b *B) F {
			var l Seq
			for i := 0; i < n; i++ {
				l = append(l, b.atom(fmt.Sprint("e", i)))
			}
			return plain.with("Type", "string").with("Enum", l)
		}, true})
	}
	for mask := 0; mask < 4; mask++ {
		mask := mask
		for _, items := range []string{"string", "integer", "array", "ref", "object"} {
			items := items
			cs = append(cs, swagCase{fmt.Sprintf("array of %s, minItems %v maxItems %v", items, mask&1 != 0, mask&2 != 0), func(b *B) J {
				j := J{"type", "array"}
				if mask&1 != 0 {
					j = append(j, "minItems", b.sym("+lo", tF64))
				}
				switch items {
				case "string":
					j = append(j, "items", J{"type", "string", "pattern", b.atom("ipat")})
				case "integer":
					j = append(j, "items", J{"type", "integer", "format", "int64"})
				case "array":
					j = append(j, "items", J{"type", "array", "items", J{"type", "boolean"}})
				case "ref":
					j = append(j, "items", J{"$ref", "#/definitions/Other"})
				case "object":
					j = append(j, "items", J{"type", "object", "properties", J{"f", J{"type", "boolean"}}})
				}
				if mask&2 != 0 {
					j = append(j, "maxItems", b.sym("+hi", tF64))
				}
				return j
			}, func(b *B) F {
				w := plain.with("Type", "array")
				if mask&1 != 0 {
					w["MinItems"] = b.wide("+lo")
				}
				if mask&2 != 0 {
					w["MaxItems"] = D{b.wide("+hi")}
				}
				switch items {
				case "string":
					w["Items"] = plain.with("Type", "string").with("Pattern", b.atom("ipat"))
				case "integer":
					w["Items"] = plain.with("Type", "integer").with("Format", "int64")
				case "array":
					w["Items"] = plain.with("Type", "array").with("Items", plain.with("Type", "boolean"))
				case "ref":
					w["Items"] = plain.with("Ref", refTo+"Other")
				case "object":
					w["Items"] = plain.with("Type", "object").with("Properties", M{"f", plain.with("Type", "boolean")})
				}
				return w
			}, items == "string" || items == "integer"})
		}
	}
	for n := 0; n <= 3; n++ {
		for req := 0; req < 1<<uint(n); req++ {
			n, req := n, req
			cs = append(cs, swagCase{fmt.Sprintf("object of %d properties, required %b", n, req), func(b *B) J {
				var ps J
				var rq JL
				for i := 0; i < n; i++ {
					f := b.atom(fmt.Sprint("f", i))
					switch i {
					case 0:
						ps = append(ps, f, J{"type", "string", "description", b.atom("pc"), "maxLength", b.sym("+n", tF64)})
					case 1:
						ps = append(ps, f, J{"$ref", "#/definitions/Other"})
					case 2:
						ps = append(ps, f, J{"type", "object", "properties", J{"g", J{"type", "number"}}, "required", JL{"g"}})
					}
					if req&(1<<uint(i)) != 0 {
						rq = append(rq, f)
					}
				}
				j := J{"type", "object", "properties", ps}
				if rq != nil {
					j = append(j, "required", rq)
				}
				return j
			}, func(b *B) F {
				var ps M
				var rq Seq
				for i := 0; i < n; i++ {
					f := b.atom(fmt.Sprint("f", i))
					switch i {
					case 0:
						ps = append(ps, f, plain.with("Type", "string").with("Description", b.atom("pc")).with("MaxLength", D{b.wide("+n")}))
					case 1:
						ps = append(ps, f, plain.with("Ref", refTo+"Other"))
					case 2:
						ps = append(ps, f, plain.with("Type", "object").with("Properties", M{"g", plain.with("Type", "number")}).with("Required", Seq{"g"}))
					}
					if req&(1<<uint(i)) != 0 {
						rq = append(rq, f)
					}
				}
				w := plain.with("Type", "object").with("Required", rq).with("Properties", ps)
				if n == 0 {
					w["Properties"] = Whatever{}
				}
				return w
			}, false})
		}
	}
	return cs
}

func runC20(c *C) {
	other := J{"type", "object", "properties", J{"o", J{"type", "string"}}}
	for _, cs := range swagCases() {
		cs := cs
		for _, at := range []int{0, 1} {
			at := at
			c.check(fmt.Sprintf("definition %s, position %d", cs.name, at), nil, func(b *B, o *O) {
				j := append(J{"description", b.atom("dc")}, cs.sch(b)...)
				defs := J{"Ty", j, "Other", other}
				if at == 1 {
					defs = J{"Other", other, "Ty", j}
				}
				w := cs.want(b)
				w["Description"] = b.atom("dc")
				o.matchesAt(b.swagger(swag("definitions", defs)), "the schemas", M{"Ty", w, "Other", F{"Type": "object"}}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
			})
		}
		c.check("body of type "+cs.name, nil, func(b *B, o *O) {
			d := swag("definitions", J{"Other", other}, "paths", J{"/x", J{"post", J{"operationId", "op", "consumes", JL{"application/json", "text/plain"},
				"parameters", JL{J{"in", "body", "name", "b", "required", true, "description", b.atom("bc"), "schema", cs.sch(b)}}, "responses", J{"200", J{"description", "ok"}}}}})
			mt := F{"Schema": cs.want(b)}
			o.matchesAt(b.swagger(d), "the request body", M{"/x", F{"Post": F{"RequestBody": F{"Required": true, "Description": b.atom("bc"), "Content": M{"application/json", mt, "text/plain", mt}}, "Parameters": nil}}}, pathsOf(b))
		})
		c.check("body that says it is not required, of type "+cs.name, nil, func(b *B, o *O) {
			d := swag("definitions", J{"Other", other}, "paths", J{"/x", J{"post", J{"operationId", "op", "consumes", JL{"application/json"},
				"parameters", JL{J{"in", "body", "name", "b", "required", false, "schema", cs.sch(b)}}, "responses", J{"200", J{"description", "ok"}}}}})
			o.matchesAt(b.swagger(d), "the request body", M{"/x", F{"Post": F{"RequestBody": F{"Required": false, "Content": M{"application/json", F{"Schema": cs.want(b)}}}, "Parameters": nil}}}, pathsOf(b))
		})
		c.check("response of type "+cs.name, nil, func(b *B, o *O) {
			d := swag("produces", JL{"application/json"}, "paths", J{"/x", J{"get", J{"operationId", "op", "responses", J{"200", J{"description", b.atom("rc"), "schema", cs.sch(b)}, "404", J{"description", "none"}}}}})
			o.matchesAt(b.swagger(d), "the responses", M{"/x", F{"Get": F{"RequestBody": nil, "Responses": M{"200", F{"Description": b.atom("rc"), "Content": M{"application/json", F{"Schema": cs.want(b)}}, "Headers": nil}, "404", F{"Description": "none", "Content": nil}}}}}, pathsOf(b))
		})
		if !cs.par {
			continue
		}
		for _, in := range []string{"path", "query", "header"} {
			for _, req := range []bool{false, true} {
				in, req := in, req
				c.check(fmt.Sprintf("%s parameter of type %s, required %v", in, cs.name, req), nil, func(b *B, o *O) {
					p := append(J{"in", in, "name", b.atom("pn"), "description", b.atom("pc")}, cs.sch(b)...)
					if req {
						p = append(p, "required", true)
					}
					d := swag("paths", J{"/x", J{"get", J{"parameters", JL{p}, "responses", J{"200", J{"description", "ok"}}}}})
					w := cs.want(b)
					w["Required"] = nil
					o.matchesAt(b.swagger(d), "the parameter", M{"/x", F{"Get": F{"RequestBody": nil, "Parameters": Seq{F{"In": in, "Name": b.atom("pn"), "Required": req, "Description": b.atom("pc"), "Schema": w}}}}}, pathsOf(b))
				})
			}
		}
		c.check("response header of type "+cs.name, nil, func(b *B, o *O) {
			h := append(J{"description", b.atom("hc")}, cs.sch(b)...)
			d := swag("paths", J{"/x", J{"get", J{"responses", J{"200", J{"description", "ok", "headers", J{"X-A", h, "X-B", J{"type", "boolean"}}}}}}})
			o.matchesAt(b.swagger(d), "the headers", M{"/x", F{"Get": F{"Responses": M{"200", F{"Headers": M{"X-A", F{"Description": b.atom("hc"), "Schema": cs.want(b)}, "X-B", F{"Schema": F{"Type": "boolean"}}}}}}}}, pathsOf(b))
		})
	}
	// operations
	fields := map[string]string{"get": "Get", "put": "Put", "post": "Post", "delete": "Delete", "patch": "Patch", "head": "Head", "options": "Options"}
	order := []string{"get", "put", "post", "delete", "patch", "head", "options"}
	op := func(id interface{}) J { return J{"operationId", id, "responses", J{"200", J{"description", "ok"}}} }
	for i, m := range order {
		for k, m2 := range order {
			if k < i {
				continue
			}
			m, m2 := m, m2
			c.check(fmt.Sprintf("operations %s and %s", m, m2), nil, func(b *B, o *O) {
				item := J{m, append(op(b.atom("op1")), "tags", JL{b.atom("t1"), b.atom("t2")}, "summary", b.atom("sm"), "description", b.atom("ds"))}
				w := F{}
				for _, g := range fields {
					w[g] = nil
				}
				w[fields[m]] = F{"OperationId": b.atom("op1"), "Tags": Seq{b.atom("t1"), b.atom("t2")}, "Summary": b.atom("sm"), "Description": b.atom("ds")}
				if m2 != m {
					item = append(item, m2, op(b.atom("op2")))
					w[fields[m2]] = F{"OperationId": b.atom("op2"), "Tags": nil, "Summary": "", "Description": ""}
				}
				d := swag("paths", J{"/a", J{"get", op("o")}, "/x", item, "/z", J{"put", op("p")}})
				o.matchesAt(b.swagger(d), "the operations", M{"/a", F{"Get": F{"OperationId": "o"}, "Put": nil}, "/x", w, "/z", F{"Put": F{"OperationId": "p"}, "Get": nil}}, pathsOf(b))
			})
		}
	}
	for n := 0; n <= 3; n++ {
		for body := -1; body < n; body++ {
			n, body := n, body
			c.check(fmt.Sprintf("%d parameters, body at %d", n, body), nil, func(b *B, o *O) {
				var ps JL
				var want Seq
				var wb interface{}
				for i := 0; i < n; i++ {
					nm := b.atom(fmt.Sprint("p", i))
					if i == body {
						ps = append(ps, J{"in", "body", "name", nm, "schema", J{"type", "string"}})
						wb = F{"Required": false, "Content": M{"application/json", F{"Schema": F{"Type": "string"}}}}
					} else {
						ps = append(ps, J{"in", "query", "name", nm, "type", "integer"})
						want = append(want, F{"Name": nm, "In": "query", "Required": false, "Schema": F{"Type": "integer"}})
					}
				}
				d := swag("consumes", JL{"application/json"}, "paths", J{"/x", J{"put", append(op("o"), "parameters", ps)}})
				o.matchesAt(b.swagger(d), "the parameters in order", M{"/x", F{"Put": F{"Parameters": want, "RequestBody": wb}}}, pathsOf(b))
			})
		}
	}
	for _, nm := range []string{"pet.Pet", "pet-store", "a/b", "List<Pet>", "_x", "x_1", "été", "A B", "x-pet", "X-Pet", "a", "definitions", "PET"} {
		nm := nm
		c.check(fmt.Sprintf("definition named %q", nm), nil, func(b *B, o *O) {
			d := swag("definitions", J{nm, J{"type", "string"}, "Z", J{"$ref", "#/definitions/Z2"}, "Z2", J{"type", "boolean"}})
			o.matchesAt(b.swagger(d), "the schemas", M{nm, F{"Type": "string"}, "Z", F{"Ref": refTo + "Z2"}, "Z2", F{"Type": "boolean"}}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
		})
		if strings.ContainsAny(nm, "/<> é") {
			continue
		}
		c.check(fmt.Sprintf("reference to a definition named %q", nm), nil, func(b *B, o *O) {
			d := swag("definitions", J{nm, J{"type", "string"}, "Z", J{"$ref", "#/definitions/" + nm}})
			o.matchesAt(b.swagger(d), "the schemas", M{nm, F{"Type": "string"}, "Z", F{"Ref": refTo + nm}}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
		})
	}
	for _, nm := range []string{"/", "/a/{b}", "/a/{b}/c-d", "/a.b/{c}:do", "/{x}/{y}"} {
		nm := nm
		c.check(fmt.Sprintf("path %q", nm), nil, func(b *B, o *O) {
			o.matchesAt(b.swagger(swag("paths", J{nm, J{"get", op("o")}})), "the paths", M{nm, F{"Get": F{"OperationId": "o"}}}, pathsOf(b))
		})
	}
	for _, nm := range []string{"_id", "X-Rate-Limit", "2fa", "a.b", "filter[name]", "$top"} {
		for _, in := range []string{"query", "header"} {
			nm, in := nm, in
			c.check(fmt.Sprintf("%s parameter named %q", in, nm), nil, func(b *B, o *O) {
				d := swag("paths", J{"/x", J{"get", append(op("o"), "parameters", JL{J{"in", in, "name", nm, "type", "string"}})}})
				o.matchesAt(b.swagger(d), "the parameter", M{"/x", F{"Get": F{"Parameters": Seq{F{"In": in, "Name": nm, "Schema": F{"Type": "string"}}}}}}, pathsOf(b))
			})
		}
	}
	for _, t := range []string{"integer", "number"} {
		t := t
		c.check(t+" with keys that change nothing", nil, func(b *B, o *O) {
			j := J{"type", t, "title", b.atom("ti"), "exclusiveMinimum", false, "minimum", b.sym("+lo", tF64), "maximum", b.sym("+hi", tF64), "exclusiveMaximum", false, "x-ext", b.atom("x"), "readOnly", true}
			w := F{"Type": t, "Min": D{b.sym("+lo", tF64)}, "Max": D{b.sym("+hi", tF64)}}
			o.matchesAt(b.swagger(swag("definitions", J{"Ty", j})), "the schema", M{"Ty", w}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
		})
	}
	for _, status := range httpStatuses() {
		status := status
		c.check("response with status "+status, nil, func(b *B, o *O) {
			d := swag("produces", JL{"application/json"}, "paths", J{"/x", J{"get", J{"responses", J{status, J{"description", b.atom("rc"), "schema", J{"type", "boolean"}}}}}})
			o.matchesAt(b.swagger(d), "the response", M{"/x", F{"Get": F{"Responses": M{status, F{"Description": b.atom("rc"), "Content": M{"application/json", F{"Schema": F{"Type": "boolean"}}}}}}}}, pathsOf(b))
		})
	}
	for mask := 0; mask < 4; mask++ {
		mask := mask
		c.check(fmt.Sprintf("media types: of the document %v, of the operation %v", mask&1 != 0, mask&2 != 0), nil, func(b *B, o *O) {
			var parts J
			if mask&1 != 0 {
				parts = append(parts, "consumes", JL{b.atom("dc1"), b.atom("dc2")}, "produces", JL{b.atom("dp")})
			}
			x := J{"parameters", JL{J{"in", "body", "name", "b", "schema", J{"type", "string"}}}, "responses", J{"200", J{"description", "ok", "schema", J{"type", "boolean"}}, "400", J{"description", "bad", "schema", J{"type", "string"}}}}
			s, g := F{"Schema": F{"Type": "string"}}, F{"Schema": F{"Type": "boolean"}}
			in, ok, bad := M{b.atom("dc1"), s, b.atom("dc2"), s}, M{b.atom("dp"), g}, M{b.atom("dp"), s}
			if mask&2 != 0 {
				x = append(x, "consumes", JL{b.atom("oc")}, "produces", JL{b.atom("op1"), b.atom("op2")})
				in, ok, bad = M{b.atom("oc"), s}, M{b.atom("op1"), g, b.atom("op2"), g}, M{b.atom("op1"), s, b.atom("op2"), s}
			}
			if mask == 0 {
				return
			}
			d := swag(append(parts, "paths", J{"/x", J{"post", x}})...)
			o.matchesAt(b.swagger(d), "the contents", M{"/x", F{"Post": F{"RequestBody": F{"Content": in}, "Responses": M{"200", F{"Content": ok}, "400", F{"Content": bad}}}}}, pathsOf(b))
		})
	}
	for _, m := range order {
		for _, n := range []int{1, 2} {
			m, n := m, n
			c.check(fmt.Sprintf("media types of the document in a %s operation, %d each", m, n), nil, func(b *B, o *O) {
				var cons, prod JL
				var in, out M
				for i := 0; i < n; i++ {
					ct, pt := b.atom(fmt.Sprint("c", i)), b.atom(fmt.Sprint("p", i))
					cons, prod = append(cons, ct), append(prod, pt)
					in, out = append(in, ct, F{"Schema": F{"Type": "string"}}), append(out, pt, F{"Schema": F{"Type": "boolean"}})
				}
				x := J{"parameters", JL{J{"in", "body", "name", "b", "schema", J{"type", "string"}}}, "responses", J{"200", J{"description", "ok", "schema", J{"type", "boolean"}}}}
				d := swag("consumes", cons, "produces", prod, "paths", J{"/x", J{m, x}})
				o.matchesAt(b.swagger(d), "the contents", M{"/x", F{fields[m]: F{"RequestBody": F{"Content": in}, "Responses": M{"200", F{"Content": out}}}}}, pathsOf(b))
			})
		}
		m := m
		c.check("one media type of the document and one of the operation in a "+m+" operation", nil, func(b *B, o *O) {
			x := J{"parameters", JL{J{"in", "body", "name", "b", "schema", J{"type", "string"}}}, "responses", J{"200", J{"description", "ok", "schema", J{"type", "boolean"}}}, "consumes", JL{"application/xml"}}
			d := swag("consumes", JL{"application/json"}, "produces", JL{"text/plain"}, "paths", J{"/x", J{m, x}})
			o.matchesAt(b.swagger(d), "the contents", M{"/x", F{fields[m]: F{"RequestBody": F{"Content": M{"application/xml", Whatever{}}}, "Responses": M{"200", F{"Content": M{"text/plain", Whatever{}}}}}}}, pathsOf(b))
		})
	}
	for _, base := range []string{"/", "/v1", "/api/v1.1", "/v2/"} {
		base := base
		c.check(fmt.Sprintf("base path %q", base), nil, func(b *B, o *O) {
			d := swag("host", "api.example.com:8080", "basePath", base)
			o.matches(b.swagger(d), "the document", F{"Servers": Seq{F{"URL": "https://api.example.com:8080" + base}}})
		})
	}
	for n := 0; n <= 3; n++ {
		n := n
		c.check(fmt.Sprintf("%d response headers", n), nil, func(b *B, o *O) {
			var hs J
			var want M
			for i := 0; i < n; i++ {
				hs = append(hs, fmt.Sprintf("X-H-%d", i), J{"type", "string", "description", b.atom(fmt.Sprint("d", i))})
				want = append(want, fmt.Sprintf("X-H-%d", i), F{"Description": b.atom(fmt.Sprint("d", i)), "Schema": F{"Type": "string"}})
			}
			d := swag("paths", J{"/x", J{"get", J{"responses", J{"200", J{"description", "ok", "headers", hs}}}}})
			o.matchesAt(b.swagger(d), "the headers", M{"/x", F{"Get": F{"Responses": M{"200", F{"Headers": want}}}}}, pathsOf(b))
		})
	}
	for _, nm := range []string{"body", "b", "200", "default", "type", "id"} {
		for _, first := range []bool{false, true} {
			nm, first := nm, first
			c.check(fmt.Sprintf("query parameter %q beside a body named body, first %v", nm, first), nil, func(b *B, o *O) {
				ps := JL{J{"in", "body", "name", "body", "schema", J{"type", "string"}}, J{"in", "query", "name", nm, "type", "integer"}}
				if first {
					ps = JL{ps[1], ps[0]}
				}
				d := swag("consumes", JL{"application/json"}, "paths", J{"/x", J{"put", append(op("o"), "parameters", ps)}})
				o.matchesAt(b.swagger(d), "the parameters", M{"/x", F{"Put": F{"Parameters": Seq{F{"Name": nm, "In": "query", "Schema": F{"Type": "integer"}}}, "RequestBody": NotNil{}}}}, pathsOf(b))
			})
		}
	}
	c.check("two parameters of the same name in different places", nil, func(b *B, o *O) {
		d := swag("paths", J{"/x/{id}", J{"get", append(op("o"), "parameters", JL{J{"in", "path", "name", "id", "required", true, "type", "string"}, J{"in", "query", "name", "id", "type", "integer"}, J{"in", "header", "name", "id", "type", "boolean"}})}})
		o.matchesAt(b.swagger(d), "the parameters", M{"/x/{id}", F{"Get": F{"Parameters": Seq{F{"Name": "id", "In": "path", "Required": true, "Schema": F{"Type": "string"}}, F{"Name": "id", "In": "query", "Required": false, "Schema": F{"Type": "integer"}}, F{"Name": "id", "In": "header", "Schema": F{"Type": "boolean"}}}}}}, pathsOf(b))
	})
	for _, vals := range [][]string{{"a", "A"}, {"a b", "a-b"}, {"", "x"}, {"yes", "no"}, {"1", "2"}, {"z", "a", "m"}} {
		vals := vals
		c.check(fmt.Sprintf("enum %q", vals), nil, func(b *B, o *O) {
			var l JL
			var w Seq
			for _, v := range vals {
				l, w = append(l, v), append(w, v)
			}
			d := swag("definitions", J{"Ty", J{"type", "string", "enum", l}})
			o.matchesAt(b.swagger(d), "the schema", M{"Ty", F{"Type": "string", "Enum": w}}, func(r Ret) *Term { return b.get(r.st, valOf(r), "Components.Schemas") })
		})
	}
	for n := 1; n <= 3; n++ {
		n := n
		c.check(fmt.Sprintf("%d responses", n), nil, func(b *B, o *O) {
			var rs J
			var want M
			for i := 0; i < n; i++ {
				rs = append(rs, fmt.Sprint(200+i), J{"description", b.atom(fmt.Sprint("r", i))})
				want = append(want, fmt.Sprint(200+i), F{"Description": b.atom(fmt.Sprint("r", i)), "Content": nil})
			}
			o.matchesAt(b.swagger(swag("paths", J{"/x", J{"get", J{"responses", rs}}})), "the responses", M{"/x", F{"Get": F{"Responses": want}}}, pathsOf(b))
		})
	}
	// document
	for mask := 0; mask < 8; mask++ {
		mask := mask
		c.check(fmt.Sprintf("document: license %v, host %v, base path %v", mask&1 != 0, mask&2 != 0, mask&4 != 0), nil, func(b *B, o *O) {
			info := J{"title", b.atom("ti"), "version", b.atom("ve"), "description", b.atom("de"), "termsOfService", b.atom("to"), "contact", J{"name", b.atom("cn"), "url", b.atom("cu"), "email", b.atom("ce")}}
			w := F{"OpenAPI": "3.0.0", "Info": F{"Title": b.atom("ti"), "Version": b.atom("ve"), "Description": b.atom("de"), "TermsOfService": b.atom("to"), "Contact": F{"Name": b.atom("cn"), "URL": b.atom("cu"), "Email": b.atom("ce")}},
				"ExternalDocs": F{"Description": b.atom("xd"), "URL": b.atom("xu")}, "Servers": nil}
			if mask&1 != 0 {
				info = append(info, "license", J{"name", b.atom("ln"), "url", b.atom("lu")})
				w["Info"] = w["Info"].(F).with("License", F{"Name": b.atom("ln"), "URL": b.atom("lu")})
			}
			parts := J{"info", info, "externalDocs", J{"description", b.atom("xd"), "url", b.atom("xu")}}
			url := []*Term{b.e.T.Str("https://"), b.atom("host")}
			if mask&2 != 0 {
				parts = append(parts, "host", b.atom("host"))
			}
			if mask&4 != 0 {
				parts = append(parts, "basePath", b.atom("base"))
				url = append(url, b.atom("base"))
			}
			if mask&2 != 0 {
				w["Servers"] = Seq{F{"URL": b.e.cat(url...)}}
			}
			o.matches(b.swagger(swag(parts...)), "the document", w)
		})
	}
	for _, v := range []interface{}{nil, "1.2", "3.0.0", "2.0.1", 2} {
		v := v
		c.check(fmt.Sprintf("swagger version %v", v), nil, func(b *B, o *O) { o.reject(b.swagger(swag("swagger", v)), "a document that is not Swagger 2.0") })
	}
	for _, ty := range []interface{}{"file", "null", "bogus"} {
		ty := ty
		c.check(fmt.Sprintf("a schema of type %v does not crash", ty), nil, func(b *B, o *O) {
			d := swag("definitions", J{"Ty", J{"type", ty}}, "paths", J{"/x", J{"get", J{"parameters", JL{J{"in", "query", "name", "p", "type", ty}}}}})
			o.expect(b.swagger(d), "an answer", func(r Ret) int { return boolInt(r.kind == RReturn) })
		})
	}
	c.check("schemas without type do not crash", nil, func(b *B, o *O) {
		d := swag("definitions", J{"Ty", J{"description", "d"}, "Ar", J{"type", "array"}}, "paths", J{"/x", J{"get", J{"parameters", JL{J{"in", "query", "name", "p"}}}}})
		o.expect(b.swagger(d), "an answer", func(r Ret) int { return boolInt(r.kind == RReturn) })
	})
	c.check("an empty document is rejected without crash", nil, func(b *B, o *O) { o.reject(b.swagger(J{}), "an empty document") })
	loading(c, "LoadSwagger", "IsValidSwaggerFile", func(b *B, fn, path string) []Ret {
		return b.loadSwagger(fn, swag("definitions", J{"Ty", J{"type", "boolean"}}), b.e.T.Str(path))
	}, func(b *B) interface{} {
		return F{"Info": F{"Title": "T"}, "Components": F{"Schemas": M{"Ty", F{"Type": "boolean"}}}}
	})
	importing(c, "ImportSwagger", func(b *B, title string, args ...*Term) []Ret {
		return b.loadSwagger("ImportSwagger", swag("info", J{"title", title, "version", "v9"}, "definitions", J{"Ty", J{"type", "boolean"}}), args...)
	})
}

// wide: the number, in any integer type wide enough for a size.
func (b *B) wide(name string) Pred {
	want := b.sym(name, tF64)
	return func(st *State, t *Term) int {
		for t.op == OCall && (t.s == "conv:int64" || t.s == "conv:uint64" || t.s == "conv:int" || t.s == "conv:uint") {
			t = t.args[0]
		}
		return b.same(st, t, want)
	}
}

// httpStatuses: the status codes that the net/http package names, and "default".
func httpStatuses() []string {
	out := []string{"default"}
	for n := 200; n < 600; n++ {
		if http.StatusText(n) != "" {
			out = append(out, fmt.Sprint(n))
		}
	}
	return out
}

func boolInt(v bool) int {
	if v {
		return 1
	}
	return 0
}

func pathsOf(b *B) func(r Ret) *Term {
	return func(r Ret) *Term { return b.get(r.st, valOf(r), "Paths") }
}

// loading: reading a document from a file.
func loading(c *C, load, valid string, run func(b *B, fn, path string) []Ret, want func(b *B) interface{}) {
	for _, ext := range []string{".yaml", ".json", "", ".txt"} {
		for fail := 0; fail < 3; fail++ {
			ext, fail := ext, fail
			kind, other := "json", "yaml"
			if ext == ".yaml" {
				kind, other = other, kind
			}
			fs := map[string]int{"os.ReadFile": 0, kind: 0, other: 1}
			if fail == 1 {
				fs["os.ReadFile"] = 1
			} else if fail == 2 {
				fs[kind] = 1
			}
			c.check(fmt.Sprintf("%s of a %q file, failure %d", load, ext, fail), &Scenario{fails: fs}, func(b *B, o *O) {
				rs := run(b, load, "dir/x"+ext)
				if fail > 0 {
					o.reject(rs, "a failure")
				} else {
					o.matches(rs, "the decoded document", want(b))
				}
				rs = run(b, valid, "dir/x"+ext)
				o.boolean(rs, fail == 0, "validity of the file")
			})
		}
	}
}

// importing: the name of the imported model and the number of files.
func importing(c *C, fn string, run func(b *B, title string, args ...*Term) []Ret) {
	for _, k := range []struct{ path, name string }{{"pet.json", "pet"}, {"a/b/pet.yaml", "pet"}, {"/a.b/pet", "pet"}, {"pet.v1.json", "pet_v1"}, {"./x/pet_store.json", "pet_store"}, {"my-pet-store.json", "my_pet_store"}, {"api-v1.2.3.json", "api_v1_2_3"}, {"A.B/x.y-z.yaml", "x_y_z"}} {
		for _, title := range []string{"PetStore", "The pet store"} {
			k, title := k, title
			c.check(fmt.Sprintf("%s of %s, title %q", fn, k.path, title), &Scenario{fails: map[string]int{"json": 0, "yaml": 0}}, func(b *B, o *O) {
				w := k.name
				if title == "PetStore" {
					w = title
				}
				rs := run(b, title, b.list(b.e.T.Str(k.path)), b.config())
				o.matches(rs, "the model", F{"Name": w, "Version": "v9", "Types": Seq{F{"Name": "Ty", "Type": "Bool"}}})
			})
		}
	}
	for _, n := range []int{0, 2, 3} {
		n := n
		c.check(fmt.Sprintf("%s of %d files", fn, n), &Scenario{fails: map[string]int{"json": 0, "yaml": 0}}, func(b *B, o *O) {
			var xs []*Term
			for i := 0; i < n; i++ {
				xs = append(xs, b.e.T.Str(fmt.Sprintf("f%d.json", i)))
			}
			o.reject(run(b, "T", b.list(xs...), b.config()), "any number of files but one")
		})
	}
	c.check(fn+" of an unreadable file", &Scenario{fails: map[string]int{"os.ReadFile": 1, "json": 0, "yaml": 0}}, func(b *B, o *O) {
		o.reject(run(b, "T", b.list(b.e.T.Str("f.json")), b.config()), "an unreadable file")
	})
}
