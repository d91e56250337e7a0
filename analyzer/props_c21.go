package main

import (
	"fmt"
	"go/types"
)

func (b *B) loadOas(fn string, doc func() *Term, args ...*Term) []Ret {
	d := doc()
	b.e.sc.decoded = func(e *Engine, st *State, kind string, t types.Type) *Term {
		if _, ok := under(t).(*types.Pointer); ok {
			return d
		}
		return e.load(st, d, t)
	}
	return b.call(nil, "openapi", fn, args...)
}

func runC21(c *C) {
	doc := func(b *B, f F) func() *Term {
		return func() *Term {
			return b.oasDoc(b.schemas("Ty", b.sch(F{"Type": "boolean"})), b.mapOf("openapi.PathItem"), f)
		}
	}
	loading(c, "Load", "IsValidFile", func(b *B, fn, path string) []Ret {
		return b.loadOas(fn, doc(b, nil), b.e.T.Str(path))
	}, func(b *B) interface{} {
		return F{"OpenAPI": "3.0.0", "Info": F{"Title": b.atom("Title")}, "Components": F{"Schemas": M{"Ty", F{"Type": "boolean"}}}}
	})
	importing(c, "Import", func(b *B, title string, args ...*Term) []Ret {
		return b.loadOas("Import", doc(b, F{"Info": b.obj("openapi.Info", F{"Title": title, "Version": "v9"})}), args...)
	})
	info := func(b *B, f F) *Term {
		g := F{"Title": b.atom("Title"), "Version": b.atom("vers")}
		for k, v := range f {
			g[k] = v
		}
		return b.obj("openapi.Info", g)
	}
	item := func(b *B) *Term { return b.obj("openapi.PathItem", F{}) }
	for _, k := range []struct {
		name string
		ok   bool
		f    func(b *B) F
	}{
		{"complete", true, func(b *B) F { return nil }},
		{"no openapi version", false, func(b *B) F { return F{"OpenAPI": ""} }},
		{"no info", false, func(b *B) F { return F{"Info": nil} }},
		{"no title", false, func(b *B) F { return F{"Info": info(b, F{"Title": ""})} }},
		{"no version", false, func(b *B) F { return F{"Info": info(b, F{"Version": ""})} }},
		{"license", true, func(b *B) F {
			return F{"Info": info(b, F{"License": b.obj("openapi.License", F{"Name": b.atom("ln")})})}
		}},
		{"license without name", false, func(b *B) F {
			return F{"Info": info(b, F{"License": b.obj("openapi.License", F{"URL": b.atom("lu")})})}
		}},
		{"no paths", false, func(b *B) F { return F{"Paths": nil} }},
		{"no components", true, func(b *B) F { return F{"Components": nil} }},
		{"paths", true, func(b *B) F { return F{"Paths": b.mapOf("openapi.PathItem", "/", item(b), "/a/{b}", item(b))} }},
		{"openapi version 3.1.0", true, func(b *B) F { return F{"OpenAPI": "3.1.0"} }},
		{"openapi version 3.0.3", true, func(b *B) F { return F{"OpenAPI": "3.0.3"} }},
		{"only an extension among the paths", false, func(b *B) F { return F{"Paths": b.mapOf("openapi.PathItem", "x-ext", item(b))} }},
		{"an extension among the paths", false, func(b *B) F { return F{"Paths": b.mapOf("openapi.PathItem", "/a", item(b), "x-ext", item(b))} }},
		{"a templated path without slash", false, func(b *B) F { return F{"Paths": b.mapOf("openapi.PathItem", "{a}", item(b))} }},
		{"a path after a space", false, func(b *B) F { return F{"Paths": b.mapOf("openapi.PathItem", " /a", item(b))} }},
		{"a URL as path", false, func(b *B) F { return F{"Paths": b.mapOf("openapi.PathItem", "http://h/a", item(b))} }},
		{"first path without slash", false, func(b *B) F { return F{"Paths": b.mapOf("openapi.PathItem", "a", item(b), "/b", item(b))} }},
		{"second path without slash", false, func(b *B) F { return F{"Paths": b.mapOf("openapi.PathItem", "/b", item(b), "a/", item(b))} }},
		{"third path empty", false, func(b *B) F {
			return F{"Paths": b.mapOf("openapi.PathItem", "/b", item(b), "/c", item(b), "", item(b))}
		}},
	} {
		k := k
		c.check("document: "+k.name, nil, func(b *B, o *O) {
			rs := b.call(nil, "openapi", "Validate", doc(b, k.f(b))())
			if k.ok {
				o.matches(rs, "the document", F{"Info": F{"Title": b.atom("Title")}})
			} else {
				o.reject(rs, k.name)
			}
			rs = b.loadOas("Load", doc(b, k.f(b)), b.e.T.Str("x.json"))
			if k.ok {
				o.matches(rs, "the document", F{"Info": F{"Title": b.atom("Title")}})
			} else {
				o.reject(rs, k.name)
			}
			rs = b.loadOas("Import", doc(b, k.f(b)), b.list(b.e.T.Str("x.json")), b.config())
			if !k.ok {
				o.reject(rs, k.name)
			}
		})
	}
	// encoding of the document
	parts := []struct {
		key, field string
		v          func(b *B) (*Term, interface{})
	}{
		{"servers", "Servers", func(b *B) (*Term, interface{}) {
			return b.list(b.obj("openapi.Server", F{"URL": b.atom("url")})), Seq{F{"URL": b.atom("url")}}
		}},
		{"paths", "Paths", func(b *B) (*Term, interface{}) {
			return b.mapOf("openapi.PathItem", "/x", b.obj("openapi.PathItem", F{"Summary": b.atom("sm")})), M{"/x", F{"Summary": b.atom("sm")}}
		}},
		{"components", "Components", func(b *B) (*Term, interface{}) {
			return b.obj("openapi.Components", F{"Schemas": b.schemas("Ty", b.sch(F{"Type": "boolean"}))}), F{"Schemas": M{"Ty", F{"Type": "boolean"}}}
		}},
		{"externalDocs", "ExternalDocs", func(b *B) (*Term, interface{}) {
			return b.obj("openapi.ExternalDocumentation", F{"URL": b.atom("xu")}), F{"URL": b.atom("xu")}
		}},
	}
	for mask := 0; mask < 1<<uint(len(parts)); mask++ {
		mask := mask
		c.check(fmt.Sprintf("encoding a document with parts %04b", mask), nil, func(b *B, o *O) {
			f := F{"OpenAPI": b.atom("vv"), "Info": info(b, nil)}
			want := M{"openapi", b.atom("vv"), "info", F{"Title": b.atom("Title")}}
			for i, p := range parts {
				if mask&(1<<uint(i)) != 0 {
					v, w := p.v(b)
					f[p.field] = v
					want = append(want, p.key, w)
				}
			}
			d := b.obj("openapi.Model", f)
			o.matchesAt(b.call(nil, "openapi", "Model.MarshalJSON", d), "the encoded document", want, func(r Ret) *Term {
				v := valOf(r)
				if v.op == OCall && v.s == "json" {
					return b.unsnap(r.st, unIface(v.args[0]))
				}
				return v
			})
		})
	}
	jsonNames(c)
}

// The names of the OpenAPI 3.0 specification, by object, for the parts the exporter and importer use.
var oasNames = map[string]map[string]string{
	"Model":                 {"OpenAPI": "openapi", "Info": "info", "Servers": "servers", "Paths": "paths", "Components": "components", "Security": "security", "ExternalDocs": "externalDocs"},
	"Info":                  {"Title": "title", "Description": "description", "TermsOfService": "termsOfService", "Contact": "contact", "License": "license", "Version": "version"},
	"Contact":               {"Name": "name", "URL": "url", "Email": "email"},
	"License":               {"Name": "name", "URL": "url"},
	"Server":                {"URL": "url", "Description": "description", "Variables": "variables"},
	"PathItem":              {"Summary": "summary", "Description": "description", "Get": "get", "Put": "put", "Post": "post", "Delete": "delete", "Options": "options", "Head": "head", "Patch": "patch", "Trace": "trace", "Servers": "servers", "Parameters": "parameters"},
	"Operation":             {"Tags": "tags", "Summary": "summary", "Description": "description", "OperationId": "operationId", "Parameters": "parameters", "RequestBody": "requestBody", "Responses": "responses", "Callbacks": "callbacks", "Deprecated": "deprecated", "Security": "security", "Servers": "servers"},
	"Parameter":             {"Name": "name", "In": "in", "Description": "description", "Style": "style", "Explode": "explode", "AllowEmptyValue": "allowEmptyValue", "AllowReserved": "allowReserved", "Deprecated": "deprecated", "Required": "required", "Schema": "schema", "Example": "example", "Examples": "examples", "Content": "content"},
	"Response":              {"Description": "description", "Headers": "headers", "Content": "content", "Links": "links"},
	"MediaType":             {"Schema": "schema", "Example": "example", "Examples": "examples", "Encoding": "encoding"},
	"Example":               {"Summary": "summary", "Description": "description", "Value": "value", "ExternalValue": "externalValue"},
	"Header":                {"Description": "description", "Schema": "schema"},
	"Components":            {"Schemas": "schemas", "Parameters": "parameters", "Headers": "headers", "RequestBodies": "requestBodies", "Responses": "responses", "SecuritySchemes": "securitySchemes", "Examples": "examples", "Links": "links", "Callbacks": "callbacks"},
	"RequestBody":           {"Description": "description", "Required": "required", "Content": "content"},
	"ExternalDocumentation": {"Description": "description", "URL": "url"},
	"Schema": {"Ref": "$ref", "OneOf": "oneOf", "AnyOf": "anyOf", "AllOf": "allOf", "Not": "not", "Type": "type", "Format": "format", "Description": "description", "Enum": "enum", "Default": "default", "Example": "example",
		"UniqueItems": "uniqueItems", "ExclusiveMin": "exclusiveMinimum", "ExclusiveMax": "exclusiveMaximum", "Nullable": "nullable", "Min": "minimum", "Max": "maximum", "MultipleOf": "multipleOf", "MinLength": "minLength", "MaxLength": "maxLength", "Pattern": "pattern",
		"MinItems": "minItems", "MaxItems": "maxItems", "Items": "items", "Required": "required", "Properties": "properties", "MinProps": "minProperties", "MaxProps": "maxProperties", "AdditionalProperties": "additionalProperties", "Discriminator": "discriminator"},
	"Discriminator": {"PropertyName": "propertyName", "Mapping": "mapping"},
}

// unsnap rebuilds the objects of an encoded value.
func (b *B) unsnap(st *State, t *Term) *Term {
	switch {
	case t == nil:
		return nil
	case t.op == OCall && t.s == "map":
		o := &Obj{kind: KMap}
		for _, en := range t.args {
			if en.op == OCall && (en.s == "entry" || en.s == "entry?") {
				o.ents = append(o.ents, Ent{b.unsnap(st, en.args[0]), b.unsnap(st, en.args[1]), en.s == "entry"})
			} else {
				o.val = en
			}
		}
		b.n++
		id := fmt.Sprint("m:snap", b.n)
		st.heap[id] = o
		return b.e.T.Ptr(id, nil)
	case t.op == OCall && t.s == "&":
		b.n++
		id := fmt.Sprint("o:snap", b.n)
		ty := t.t
		if p, ok := ty.(*types.Pointer); ok {
			ty = p.Elem()
		}
		st.heap[id] = &Obj{kind: KCell, typ: ty, val: b.unsnap(st, t.args[0])}
		return b.e.T.Ptr(id, t.t)
	case t.op == OStruct || t.op == OIface || t.op == OArr || t.op == OItem || t.op == OCat:
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = b.unsnap(st, a)
		}
		if t.op == OCat {
			return b.e.T.Cat(xs...)
		}
		return b.e.T.mk(t.op, t.s, t.c, t.t, t.fn, xs...)
	}
	return t
}
