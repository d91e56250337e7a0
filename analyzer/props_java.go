package main

// props_java.go: C26 (generated Java model) and C27 (generated Java server and client).

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Property{id: "C26", dress: true, rule: "The Java generated from a model compiles, and declares a class with the same members, limits and JSON form for every type, request and response.", run: runC26})
}

func (b *B) javaExport(m *Term, opts ...string) []Ret {
	var kv []*Term
	for _, o := range opts {
		k, v, _ := strings.Cut(o, "=")
		kv = append(kv, b.e.T.Str(k))
		switch v {
		case "":
			kv = append(kv, b.boolAny(true))
		case "false":
			kv = append(kv, b.boolAny(false))
		default:
			kv = append(kv, b.str(v))
		}
	}
	return b.call(nil, "java", "Export", m, b.e.T.Str("out"), b.config(kv...))
}

// javaCode renders what the generator wrote and compiles it; nil when it cannot be judged.
func (o *O) javaCode(rs []Ret, what string) *GenJava { return o.javaCodeWith(rs, what, nil) }

// tolerate says which compiler messages are not about the generated code.
func (o *O) javaCodeWith(rs []Ret, what string, tolerate func(msg string) bool) *GenJava {
	o.accept(rs, what)
	if o.ob.Status != "" || len(rs) == 0 {
		return nil
	}
	if len(rs) != 1 {
		o.undecided(fmt.Sprintf("%d outcomes of generating", len(rs)))
		return nil
	}
	return o.javaOf(rs[0], what, tolerate)
}

// javaEach judges the code of every outcome; num shows a number as the code has it.
func (o *O) javaEach(rs []Ret, what string, f func(g *GenJava, num func(t *Term) string)) {
	o.accept(rs, what)
	if o.ob.Status != "" || len(rs) == 0 {
		return
	}
	for _, r := range rs {
		r := r
		if g := o.javaOf(r, what, nil); g != nil {
			f(g, func(t *Term) string {
				s, ok := o.b.render(r.st, t)
				if !ok {
					o.undecided("number not determined: " + t.Path())
				}
				return s
			})
		}
	}
}

func (o *O) javaOf(r Ret, what string, tolerate func(msg string) bool) *GenJava {
	b := o.b
	fs := b.fileState(r.st)
	if fs.unknown {
		o.undecided("file effects not determined")
		return nil
	}
	text := map[string]string{}
	for p, t := range fs.content {
		name, ok := b.render(r.st, p)
		if !ok {
			o.undecided("file name not determined: " + p.Path())
			return nil
		}
		s, ok := b.render(r.st, t)
		if !ok {
			o.undecided("text not determined: " + name)
			if o.c.debug {
				fmt.Println("text so far:", s)
				fmt.Println("term", t.Path())
			}
			return nil
		}
		text[name] = s
	}
	if o.c.debug {
		for n, s := range text {
			fmt.Println("-----", n)
			fmt.Println(s)
		}
	}
	java := map[string]string{}
	for n, s := range text {
		if strings.HasSuffix(n, ".java") {
			java[n] = s
		}
	}
	g, errs, err := loadJava(java)
	if err != nil {
		o.undecided("no Java compiler: " + err.Error())
		return nil
	}
	g.text = text
	for _, e := range errs {
		if tolerate != nil && tolerate(e) {
			continue
		}
		if strings.Contains(e, "package ") && strings.Contains(e, " does not exist") {
			o.undecided("generated code uses a library that is not available here: " + e)
			return nil
		}
		o.fail("java.Export (generated code)", what+": the generated Java does not compile: "+e, r.st)
		return nil
	}
	return g
}

func (o *O) javaFail(where, detail string) { o.fail("java.Export (generated "+where+")", detail, nil) }

// javaEval runs an abstract evaluation of generated code.
func (o *O) javaEval(g *GenJava, where string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case jUnknown:
				o.undecided("generated " + where + ": " + x.why)
			case jThrow:
				o.javaFail(where, "an exception is thrown: "+show(x.v))
			default:
				panic(r)
			}
		}
	}()
	f()
}

// javaTypes: the Java type of a field, required and optional.
var javaTypes = map[string][2]string{"Bool": {"boolean", "Boolean"}, "Int8": {"byte", "Byte"}, "Int16": {"short", "Short"}, "Int32": {"int", "Integer"}, "Int64": {"long", "Long"},
	"Float32": {"float", "Float"}, "Float64": {"double", "Double"}, "Decimal": {"BigDecimal", "BigDecimal"}, "Bytes": {"byte[]", "byte[]"}, "String": {"String", "String"},
	"Timestamp": {"Instant", "Instant"}, "UUID": {"UUID", "UUID"}, "Any": {"Object", "Object"},
	"Inner": {"Inner", "Inner"}, "Color": {"Color", "Color"}, "Names": {"List<String>", "List<String>"}, "Index": {"Map<String,Inner>", "Map<String,Inner>"}, "Either": {"Either", "Either"},
	"Money": {"BigDecimal", "BigDecimal"}, "Small": {"short", "Short"}, "Part": {"float", "Float"}, "Label": {"String", "String"}, "Flag": {"boolean", "Boolean"}, "Blob": {"byte[]", "byte[]"},
	"When": {"Instant", "Instant"}, "Ident": {"UUID", "UUID"}, "Thing": {"Object", "Object"}, "Again": {"String", "String"}, "Price": {"Price", "Price"}}

func javaType(t string, req bool) string {
	if req {
		return javaTypes[t][0]
	}
	return javaTypes[t][1]
}

func javaTypeNames() []string {
	var ks []string
	for k := range javaTypes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (b *B) javaOthers() []*Term {
	ts, _ := b.goOthers()
	return append(ts, b.tdef("Price", F{"Type": "UnitValue", "Value": "Float64", "Unit": "Color"}))
}

func sameType(a, b string) bool {
	n := func(s string) string {
		s = strings.ReplaceAll(s, " ", "")
		for _, p := range []string{"java.util.", "java.lang.", "java.math.", "java.time."} {
			s = strings.ReplaceAll(s, p, "")
		}
		return s
	}
	return n(a) == n(b)
}

// class finds a top-level class and where it is.
func (o *O) javaClass(g *GenJava, name, file string) *JN {
	c := g.classes[name]
	if c == nil {
		o.javaFail(name, "the class "+name+" is not generated")
		return nil
	}
	if !c.mod("public") {
		o.javaFail(name, "the class "+name+" must be public")
	}
	if got := strings.TrimPrefix(g.unit[c].Name, "/"); file != "" && got != file {
		o.javaFail(name, "the class "+name+" must be written to "+file+", not "+got)
	}
	return c
}

// javaField requires a property of a class: its type, that it is omitted when absent, and not null when required.
func (o *O) javaField(g *GenJava, c *JN, i int, name, typ string, req bool, annos ...string) {
	fs := c.fields()
	if i >= len(fs) {
		o.javaFail(c.Name, fmt.Sprintf("%s must have a field %s, it has %d fields", c.Name, name, len(fs)))
		return
	}
	f := fs[i]
	if f.Name != name || !sameType(f.Type, typ) {
		o.javaFail(c.Name, fmt.Sprintf("field %d of %s must be %s %s, it is %s %s", i, c.Name, typ, name, f.Type, f.Name))
		return
	}
	inc := f.anno("JsonInclude")
	opt := strings.Contains(inc, "NON_EMPTY") || strings.Contains(inc, "NON_NULL") || strings.Contains(inc, "NON_ABSENT")
	if opt == req {
		o.javaFail(c.Name, fmt.Sprintf("the field %s of %s is required: %v, but its annotation is %q", name, c.Name, req, inc))
	}
	nn := f.anno("NotNull") != ""
	prim := zeroOf(typ) != JV(JNull{})
	if req && !prim && !nn {
		o.javaFail(c.Name, fmt.Sprintf("the required field %s of %s must be @NotNull", name, c.Name))
	}
	if !req && (nn || prim) {
		o.javaFail(c.Name, fmt.Sprintf("the optional field %s of %s must be able to be absent", name, c.Name))
	}
	for _, k := range []string{"Size", "Pattern", "Min", "Max", "DecimalMin", "DecimalMax"} {
		got := f.anno(k)
		want := ""
		for _, a := range annos {
			if strings.HasPrefix(a, "@"+k+"(") {
				want = a
			}
		}
		if got != want {
			o.javaFail(c.Name, fmt.Sprintf("the field %s of %s must be annotated %q, it is %q", name, c.Name, want, got))
		}
	}
}

// javaHolds requires the builder (or setters), getters and copies to keep the values of the fields.
func (o *O) javaHolds(g *GenJava, c *JN, immutable bool, names ...string) {
	o.javaEval(g, c.Name, func() {
		q := g.qname(c)
		val := func(i int) JV { return JSym{"v" + fmt.Sprint(i)} }
		f := &jFrame{g: g, class: c, vars: map[string]JV{}}
		call := func(recv JV, m string, args ...JV) JV {
			f.vars["recv"] = recv
			n := &JN{K: "METHOD_INVOCATION", F: &JN{K: "MEMBER_SELECT", Name: m, E: &JN{K: "IDENTIFIER", Name: "recv"}}}
			for i, a := range args {
				k := fmt.Sprint("arg", i)
				f.vars[k] = a
				n.Args = append(n.Args, &JN{K: "IDENTIFIER", Name: k})
			}
			return f.eval(n)
		}
		check := func(v JV, what string) {
			ob, ok := v.(*JObj)
			if !ok || ob.class != c {
				o.javaFail(c.Name, what+" must give a "+c.Name+", it gives "+show(v))
				return
			}
			for i, n := range names {
				if got := show(ob.fields[n]); got != show(val(i)) {
					o.javaFail(c.Name, fmt.Sprintf("%s: the field %s must hold the value given for it, it holds %s", what, n, got))
				}
				if immutable {
					if got := show(call(v, "get"+strings.ToUpper(n[:1])+n[1:])); got != show(val(i)) {
						o.javaFail(c.Name, fmt.Sprintf("%s: the getter of %s must give its value, it gives %s", what, n, got))
					}
				}
			}
		}
		if !immutable {
			v := g.newObj(c, nil)
			for i, n := range names {
				if r := call(v, n, val(i)); r != v {
					o.javaFail(c.Name, "a setter must give the object itself")
				}
			}
			check(v, "setting the fields")
			return
		}
		bl := call(JClass{c, q}, "builder")
		for i := len(names) - 1; i >= 0; i-- {
			bl = call(bl, names[i], val(i))
		}
		v := call(bl, "build")
		check(v, "building")
		check(call(call(v, "toBuilder"), "build"), "copying")
		var args []JV
		for i := range names {
			args = append(args, val(i))
		}
		check(g.newObj(c, args), "constructing")
		if a := c.anno("JsonDeserialize"); !strings.Contains(a, c.Name+"Builder.class") {
			o.javaFail(c.Name, "the class must be decoded with its builder, it is annotated "+a)
		}
		if bc := g.classes[q+"."+c.Name+"Builder"]; bc == nil || bc.anno("JsonPOJOBuilder") != `@JsonPOJOBuilder(withPrefix="")` {
			o.javaFail(c.Name, "the builder must take the fields under their own names")
		}
	})
}

const javaDir = "out/src/main/java/pkg/model/"

func runC26(c *C) {
	for _, t := range javaTypeNames() {
		t := t
		for _, imm := range []bool{true, false} {
			imm := imm
			var opts []string
			if !imm {
				opts = append(opts, "immutable=false")
			}
			for _, req := range []bool{true, false} {
				req := req
				c.check(fmt.Sprintf("field of type %s, required %v, immutable %v", t, req, imm), nil, func(b *B, o *O) {
					m := b.goModel(append(b.javaOthers(), b.rec(b.field(b.atom("one"), F{"Type": t, "Required": req}), b.field(b.atom("two"), F{"Type": "String", "Required": !req})))...)
					g := o.javaCode(b.javaExport(m, opts...), "a struct with a "+t+" field")
					if g == nil {
						return
					}
					if cl := o.javaClass(g, "Rec", javaDir+"Rec.java"); cl != nil {
						o.javaField(g, cl, 0, "one", javaType(t, req), req)
						o.javaField(g, cl, 1, "two", "String", !req)
						if len(cl.fields()) != 2 {
							o.javaFail("Rec", fmt.Sprintf("Rec must have two fields, it has %d", len(cl.fields())))
						}
						o.javaHolds(g, cl, imm, "one", "two")
					}
				})
			}
			c.check(fmt.Sprintf("arrays and maps of %s, immutable %v", t, imm), nil, func(b *B, o *O) {
				m := b.goModel(append(b.javaOthers(), b.tdef("Arr", F{"Type": "Array", "Items": t}), b.tdef("Mp", F{"Type": "Map", "Keys": "Label", "Items": t}),
					b.rec(b.field(b.atom("arr"), F{"Type": "Array", "Items": t}), b.field(b.atom("mp"), F{"Type": "Map", "Keys": "String", "Items": t, "Required": true}),
						b.field(b.atom("na"), F{"Type": "Arr", "Required": true}), b.field(b.atom("nm"), F{"Type": "Mp"})))...)
				g := o.javaCode(b.javaExport(m, opts...), "a struct with arrays and maps of "+t)
				if g == nil {
					return
				}
				if cl := o.javaClass(g, "Rec", javaDir+"Rec.java"); cl != nil {
					o.javaField(g, cl, 0, "arr", "List<"+javaType(t, false)+">", false)
					o.javaField(g, cl, 1, "mp", "Map<String,"+javaType(t, false)+">", true)
					o.javaField(g, cl, 2, "na", "List<"+javaType(t, false)+">", true)
					o.javaField(g, cl, 3, "nm", "Map<String,"+javaType(t, false)+">", false)
					o.javaHolds(g, cl, imm, "arr", "mp", "na", "nm")
				}
			})
		}
	}
	// maps by their keys
	for _, t := range []string{"Label", "Again", "Color", "String"} {
		for _, how := range []string{"inline", "named"} {
			t, how := t, how
			c.check("map keyed by "+t+", "+how, nil, func(b *B, o *O) {
				ts := b.javaOthers()
				f := F{"Type": "Map", "Keys": t, "Items": "Inner"}
				if how == "named" {
					ts = append(ts, b.tdef("Mp", f))
					f = F{"Type": "Mp"}
				}
				g := o.javaCode(b.javaExport(b.goModel(append(ts, b.rec(b.field(b.atom("one"), f)))...)), "a struct with a map")
				if g == nil {
					return
				}
				if cl := o.javaClass(g, "Rec", javaDir+"Rec.java"); cl != nil {
					o.javaField(g, cl, 0, "one", "Map<"+javaType(t, false)+",Inner>", false)
				}
			})
		}
	}
	// limits that are no whole numbers, or large ones
	for _, t := range []string{"Float32", "Float64", "Decimal", "Int64", "Int32"} {
		for _, lim := range [][2]float64{{-7.5, 99.25}, {0.125, 10000000}, {-123456789012, 123456789012}, {0, 0}, {-0.5, 0}} {
			for _, how := range []string{"inline", "named"} {
				t, lim, how := t, lim, how
				if t[0] == 'I' && (lim[0] != float64(int64(lim[0])) || t == "Int32" && lim[1] > 1e9) {
					continue
				}
				c.check(fmt.Sprintf("%s %s from %v to %v", how, t, lim[0], lim[1]), nil, func(b *B, o *O) {
					an, q := "Decimal", "\""
					if t[0] == 'I' {
						an, q = "", ""
					}
					num := func(x float64) *Term { return b.dec(b.e.T.Const(constant.MakeFloat64(x), types.Typ[types.Float64])) }
					show := func(x float64) string { return q + strconv.FormatFloat(x, 'f', -1, 64) + q }
					o.limited(b, t, F{"Type": t, "Min": num(lim[0]), "Max": num(lim[1])}, how, true, []jlimit{{"@" + an + "Min(" + show(lim[0]) + ")", nil}, {"@" + an + "Max(" + show(lim[1]) + ")", nil}})
				})
			}
		}
	}
	// limits of numbers and texts, written in place or in a named type
	for _, t := range []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"} {
		for _, lim := range []string{"", "min", "max", "min max"} {
			for _, how := range []string{"inline", "named", "twice named"} {
				for _, req := range []bool{true, false} {
					t, lim, how, req := t, lim, how, req
					if how == "twice named" && lim != "min max" {
						continue
					}
					c.check(fmt.Sprintf("%s %s with limits %q, required %v", how, t, lim, req), nil, func(b *B, o *O) {
						spec := F{"Type": t}
						var annos []jlimit
						an, fm := "", "(%s)"
						if t == "Decimal" || strings.HasPrefix(t, "Float") {
							an, fm = "Decimal", `("%s")`
						}
						if strings.Contains(lim, "min") {
							spec["Min"] = b.dec(b.rep(-7, types.Typ[types.Float64]))
							annos = append(annos, jlimit{"@" + an + "Min" + fm, []*Term{b.rep(-7, types.Typ[types.Float64])}})
						}
						if strings.Contains(lim, "max") {
							spec["Max"] = b.dec(b.rep(99, types.Typ[types.Float64]))
							annos = append(annos, jlimit{"@" + an + "Max" + fm, []*Term{b.rep(99, types.Typ[types.Float64])}})
						}
						o.limited(b, t, spec, how, req, annos)
					})
				}
			}
		}
	}
	for _, lim := range []string{"min", "max", "min max", "pattern", "pattern min max"} {
		for _, how := range []string{"inline", "named", "twice named"} {
			for _, req := range []bool{true, false} {
				lim, how, req := lim, how, req
				c.check(fmt.Sprintf("%s text with limits %q, required %v", how, lim, req), nil, func(b *B, o *O) {
					spec := F{"Type": "String"}
					var annos []jlimit
					var size []string
					var nums []*Term
					if strings.Contains(lim, "max") {
						spec["MaxSize"] = b.i64(b.size(9))
						size = append(size, "max=%s")
						nums = append(nums, b.size(9))
					}
					if strings.Contains(lim, "min") {
						spec["MinSize"] = b.i64(b.size(3))
						size = append(size, "min=%s")
						nums = append(nums, b.size(3))
					}
					if len(size) > 0 {
						annos = append(annos, jlimit{"@Size(" + strings.Join(size, ",") + ")", nums})
					}
					if strings.Contains(lim, "pattern") {
						spec["Pattern"] = "^[\"a-z]+\\\\d$"
						annos = append(annos, jlimit{`@Pattern(regexp="^[\"a-z]+\\\\d$")`, nil})
					}
					o.limited(b, "String", spec, how, req, annos)
				})
			}
		}
	}
	// timestamps: Instant with its codec, or the generated Timestamp class
	for _, imm := range []bool{true, false} {
		for _, inst := range []bool{true, false} {
			for _, t := range []string{"Timestamp", "When"} {
				imm, inst, t := imm, inst, t
				c.check(fmt.Sprintf("%s field, immutable %v, instants %v", t, imm, inst), nil, func(b *B, o *O) {
					opts := []string{}
					if !imm {
						opts = append(opts, "immutable=false")
					}
					if !inst {
						opts = append(opts, "instants=false")
					}
					m := b.goModel(b.tdef("When", F{"Type": "Timestamp"}), b.rec(b.field(b.atom("one"), F{"Type": t, "Required": true}), b.field(b.atom("two"), F{"Type": t})))
					g := o.javaCode(b.javaExport(m, opts...), "a struct with timestamps")
					if g == nil {
						return
					}
					cl := o.javaClass(g, "Rec", javaDir+"Rec.java")
					if cl == nil {
						return
					}
					want := "Timestamp"
					if inst {
						want = "Instant"
					}
					o.javaField(g, cl, 0, "one", want, true)
					o.javaField(g, cl, 1, "two", want, false)
					o.javaHolds(g, cl, imm, "one", "two")
					if !inst {
						o.javaClass(g, "Timestamp", javaDir+"Timestamp.java")
						return
					}
					o.javaClass(g, "Util", javaDir+"Util.java")
					for i, f := range cl.fields() {
						if s := f.anno("JsonSerialize"); s != "@JsonSerialize(using=Util.InstantSerializer.class)" {
							o.javaFail("Rec", "a timestamp must be encoded as its text, the field is annotated "+s)
						}
						where := f
						if imm {
							where = g.classes["Rec.RecBuilder"].methods([]string{"one", "two"}[i])[0]
						}
						if s := where.anno("JsonDeserialize"); s != "@JsonDeserialize(using=Util.InstantDeserializer.class)" {
							o.javaFail("Rec", "a timestamp must be decoded from its text, it is annotated "+s)
						}
					}
				})
			}
		}
	}
	c.check("generated Timestamp and Instant codecs", nil, func(b *B, o *O) {
		m := b.goModel(b.rec(b.field(b.atom("one"), F{"Type": "Timestamp"})))
		for _, opt := range []string{"instants=false", "instants"} {
			g := o.javaCode(b.javaExport(m, opt), "a struct with timestamps")
			if g == nil {
				return
			}
			ser, des, holder := g.classes["Timestamp.Serializer"], g.classes["Timestamp.Deserializer"], g.classes["Timestamp"]
			if opt == "instants" {
				ser, des, holder = g.classes["Util.InstantSerializer"], g.classes["Util.InstantDeserializer"], g.classes["Util"]
			}
			if ser == nil || des == nil || holder == nil {
				o.javaFail("Timestamp", "the codec of timestamps is not generated")
				return
			}
			o.javaEval(g, "codec", func() {
				var written []string
				g.call = func(recv JV, name string, args []JV) (JV, JV) {
					if name == "writeString" {
						written = append(written, show(args[0]))
						return JSym{"void"}, nil
					}
					if name == "getText" {
						return JSym{"txt:String"}, nil
					}
					return nil, nil
				}
				in := JV(JSym{"in:Instant"})
				want := "in:Instant.toString()"
				if opt != "instants" {
					in = g.newObj(holder, []JV{"2019-02-03T22:48:19Z"})
					want = `"2019-02-03T22:48:19Z"`
				}
				g.run(ser, &JObj{class: ser, fields: map[string]JV{}}, ser.methods("serialize")[0], []JV{in, JSym{"jgen"}, JSym{"prov"}})
				if strings.Join(written, ";") != want {
					o.javaFail(holder.Name, fmt.Sprintf("encoding must write the text of the timestamp once, it writes %v", written))
				}
				out := g.run(des, &JObj{class: des, fields: map[string]JV{}}, des.methods("deserialize")[0], []JV{JSym{"jp"}, JSym{"ctx"}})
				want = "Instant.parse(txt:String)"
				if opt != "instants" {
					want = "Timestamp{repr: txt:String}"
				}
				if got := show(out); got != want {
					o.javaFail(holder.Name, "decoding must read the text, it gives "+got)
				}
				if cv := g.classes["Util.InstantConverter"]; cv != nil {
					this := &JObj{class: cv, fields: map[string]JV{}}
					if got := show(g.run(cv, this, cv.methods("fromString")[0], []JV{JSym{"txt:String"}})); got != "Instant.parse(txt:String)" {
						o.javaFail("Util", "a timestamp parameter must be the instant its text names, it is "+got)
					}
					if got := g.run(cv, this, cv.methods("fromString")[0], []JV{JNull{}}); show(got) != "null" {
						o.javaFail("Util", "an absent timestamp parameter must be absent, it is "+show(got))
					}
					if got := show(g.run(cv, this, cv.methods("toString")[0], []JV{JSym{"in:Instant"}})); got != "in:Instant.toString()" {
						o.javaFail("Util", "the text of a timestamp parameter must be that of its instant, it is "+got)
					}
				}
				if opt != "instants" {
					f := &jFrame{g: g, class: holder, vars: map[string]JV{"t": in}}
					call := func(m string) string {
						return show(f.eval(&JN{K: "METHOD_INVOCATION", F: &JN{K: "MEMBER_SELECT", Name: m, E: &JN{K: "IDENTIFIER", Name: "t"}}}))
					}
					if got := call("toString"); got != `"2019-02-03T22:48:19Z"` {
						o.javaFail("Timestamp", "the text of a timestamp must be the one it was made of, it is "+got)
					}
					if got := call("asInstant"); got != `Instant.parse("2019-02-03T22:48:19Z")` {
						o.javaFail("Timestamp", "the instant of a timestamp must be the one its text names, it is "+got)
					}
				}
			})
		}
	})
	// structs within structs
	for _, imm := range []bool{true, false} {
		for _, req := range []bool{true, false} {
			imm, req := imm, req
			c.check(fmt.Sprintf("struct written in place, immutable %v, required %v", imm, req), nil, func(b *B, o *O) {
				inner := func(n string) *Term {
					return b.field(n, F{"Type": "Struct", "Required": req, "Fields": b.list(b.field(b.atom("x"), F{"Type": "Int32", "Required": true}), b.field(b.atom("y"), F{"Type": "String"}))})
				}
				m := b.goModel(b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(inner("first"), inner("second"))}))
				var opts []string
				if !imm {
					opts = append(opts, "immutable=false")
				}
				g := o.javaCode(b.javaExport(m, opts...), "a struct with structs in it")
				if g == nil {
					return
				}
				cl := o.javaClass(g, "Rec", javaDir+"Rec.java")
				if cl == nil {
					return
				}
				o.javaField(g, cl, 0, "first", "First", req)
				o.javaField(g, cl, 1, "second", "Second", req)
				o.javaHolds(g, cl, imm, "first", "second")
				for _, n := range []string{"First", "Second"} {
					in := g.classes["Rec."+n]
					if in == nil || !in.mod("public") || !in.mod("static") {
						o.javaFail("Rec."+n, "the inner struct must be a public static class "+n)
						return
					}
					o.javaField(g, in, 0, "x", "int", true)
					o.javaField(g, in, 1, "y", "String", false)
					o.javaHolds(g, in, imm, "x", "y")
				}
			})
		}
	}
	for _, how := range []string{"struct", "union"} {
		how := how
		c.check("a struct in place named like the "+how+" it is in is reported", nil, func(b *B, o *O) {
			fs := b.list(b.field("x", F{"Type": "Int32"}))
			td := b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field("rec", F{"Type": "Struct", "Fields": fs}))})
			if how == "union" {
				td = b.tdef("Rec", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": "rec", "Type": "Struct", "Fields": fs}))})
			}
			o.reject(b.javaExport(b.goModel(td)), "an inner class with the name of the outer one")
		})
	}
	// enums
	for _, green := range []string{"GR", "true", "false", "0", "two words", "green", "null", "say \"hi\"", "a\\b", "x-y.z/1", "é"} {
		green := green
		rule := "enum"
		if green != "GR" {
			rule = fmt.Sprintf("enum with the text %q", green)
		}
		c.check(rule, nil, func(b *B, o *O) {
			els := b.list(b.obj("EnumElementDef", F{"Symbol": b.atom("red")}), b.obj("EnumElementDef", F{"Symbol": b.atom("green"), "Annotations": b.annos("x_enumValue", green)}), b.obj("EnumElementDef", F{"Symbol": b.atom("blue"), "Comment": "the last"}))
			m := b.goModel(b.tdef(b.atom("Color"), F{"Type": "Enum", "Elements": els}))
			g := o.javaCode(b.javaExport(m), "an enum")
			if g == nil {
				return
			}
			cl := o.javaClass(g, "Color", javaDir+"Color.java")
			if cl == nil {
				return
			}
			vals := map[string]string{"red": "red", "green": green, "blue": "blue"}
			o.javaEval(g, "Color", func() {
				var names []string
				for _, v := range g.enumValues(cl) {
					n := v.(*JObj).name
					names = append(names, n)
					f := &jFrame{g: g, class: cl, vars: map[string]JV{}}
					if got := f.text(v); got != JV(vals[n]) {
						o.javaFail("Color", fmt.Sprintf("the text of %s must be %q, it is %s", n, vals[n], show(got)))
					}
					ms := cl.methods("fromString")
					if len(ms) != 1 || ms[0].anno("JsonCreator") == "" || !ms[0].mod("public") || !ms[0].mod("static") {
						o.javaFail("Color", "decoding must use fromString")
						return
					}
					if got := g.run(cl, nil, ms[0], []JV{vals[n]}); got != v {
						o.javaFail("Color", fmt.Sprintf("%q must be read as %s, not %s", vals[n], n, show(got)))
					}
				}
				if strings.Join(names, " ") != "red green blue" {
					o.javaFail("Color", fmt.Sprintf("the symbols must be those of the enum in order, they are %v", names))
				}
				_, t := g.try(func() JV { return g.run(cl, nil, cl.methods("fromString")[0], []JV{"other"}) })
				if t == nil {
					o.javaFail("Color", "a text that is no symbol must be refused")
				}
				if ts := cl.methods("toString"); len(ts) != 1 || ts[0].anno("JsonValue") == "" {
					o.javaFail("Color", "encoding must use the text")
				}
			})
		})
	}
	// unions
	for _, t := range javaTypeNames() {
		t := t
		c.check("union variant of type "+t, nil, func(b *B, o *O) {
			m := b.goModel(append(b.javaOthers(), b.tdef(b.atom("Un"), F{"Type": "Union", "Variants": b.list(
				b.obj("UnionVariantDef", F{"Name": b.atom("left"), "Type": t}), b.obj("UnionVariantDef", F{"Name": b.atom("mid"), "Type": "Inner"}), b.obj("UnionVariantDef", F{"Name": b.atom("right"), "Type": "String"}))}))...)
			g := o.javaCode(b.javaExport(m), "a union with a "+t+" variant")
			if g == nil {
				return
			}
			if cl := o.javaClass(g, "Un", javaDir+"Un.java"); cl != nil {
				o.javaUnion(g, cl, []string{"left", "mid", "right"}, []string{javaType(t, false), "Inner", "String"})
			}
		})
	}
	for _, t := range javaTypeNames() {
		t := t
		c.check("union of nothing but a "+t, nil, func(b *B, o *O) {
			m := b.goModel(append(b.javaOthers(), b.tdef(b.atom("Un"), F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": b.atom("only"), "Type": t}))}))...)
			g := o.javaCode(b.javaExport(m), "a union with a "+t+" variant")
			if g == nil {
				return
			}
			if cl := o.javaClass(g, "Un", javaDir+"Un.java"); cl != nil {
				o.javaUnion(g, cl, []string{"only"}, []string{javaType(t, false)})
			}
		})
	}
	c.check("union with a struct written in place", nil, func(b *B, o *O) {
		m := b.goModel(b.tdef("Un", F{"Type": "Union", "Variants": b.list(
			b.obj("UnionVariantDef", F{"Name": "left", "Type": "Struct", "Fields": b.list(b.field(b.atom("x"), F{"Type": "Int32", "Required": true}))}), b.obj("UnionVariantDef", F{"Name": b.atom("right"), "Type": "String"}))}))
		g := o.javaCode(b.javaExport(m), "a union with a struct in it")
		if g == nil {
			return
		}
		if cl := o.javaClass(g, "Un", javaDir+"Un.java"); cl != nil {
			o.javaUnion(g, cl, []string{"left", "right"}, []string{"Left", "String"})
			if in := g.classes["Un.Left"]; in != nil {
				o.javaField(g, in, 0, "x", "int", true)
				o.javaHolds(g, in, true, "x")
			}
		}
	})
	// unit values
	for _, v := range []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"} {
		for _, u := range []string{"Color", "Label"} {
			v, u := v, u
			c.check("unit value of "+v+" and "+u, nil, func(b *B, o *O) {
				m := b.goModel(append([]*Term{b.tdef(b.atom("Uv"), F{"Type": "UnitValue", "Value": v, "Unit": u})}, b.javaOthers()...)...)
				g := o.javaCode(b.javaExport(m), "a unit value")
				if g == nil {
					return
				}
				cl := o.javaClass(g, "Uv", javaDir+"Uv.java")
				if cl == nil {
					return
				}
				fs := cl.fields()
				if len(fs) != 2 || !sameType(fs[0].Type, javaType(v, true)) || !sameType(fs[1].Type, javaType(u, true)) {
					o.javaFail("Uv", "the value and the unit must have their types")
					return
				}
				o.javaEval(g, "Uv", func() {
					text, unit := "12 red", JV("red")
					if u == "Color" {
						unit = g.enumConst(g.classes["Color"], "red")
					}
					x := g.newObj(cl, []JV{text}).(*JObj)
					box := map[string]string{"byte": "Byte.parseByte", "short": "Short.parseShort", "int": "Integer.parseInt", "long": "Long.parseLong", "float": "Float.parseFloat", "double": "Double.parseDouble", "BigDecimal": "new BigDecimal"}
					if got := show(x.fields[fs[0].Name]); got != box[javaType(v, true)]+`("12")` {
						o.javaFail("Uv", "the value must be read from the text, it is "+got)
					}
					if got := x.fields[fs[1].Name]; show(got) != show(unit) {
						o.javaFail("Uv", "the unit must be read from the text, it is "+show(got))
					}
					var ctor *JN
					for _, m := range cl.methods("<init>") {
						if len(m.Params) == 1 {
							ctor = m
						}
					}
					if ctor == nil || ctor.anno("JsonCreator") == "" {
						o.javaFail("Uv", "decoding must use the text")
					}
					y := g.newObj(cl, []JV{JSym{"val:" + javaType(v, true)}, unit})
					f := &jFrame{g: g, class: cl, vars: map[string]JV{}}
					if got := show(f.text(y)); got != `+(val:`+javaType(v, true)+`, " ", "red")` && got != `+(val:`+javaType(v, true)+`, " red")` {
						o.javaFail("Uv", "the text must be the value and the unit, it is "+got)
					}
					if ts := cl.methods("toString"); len(ts) != 1 || ts[0].anno("JsonValue") == "" {
						o.javaFail("Uv", "encoding must use the text")
					}
				})
			})
		}
	}
	for _, text := range []string{"12 fluid ounces", "12 m", "12 a b c", "12  x", "12 m ", "12 a-b", "12 É"} {
		text := text
		c.check(fmt.Sprintf("unit value text %q", text), nil, func(b *B, o *O) {
			m := b.goModel(append([]*Term{b.tdef(b.atom("Uv"), F{"Type": "UnitValue", "Value": "Int32", "Unit": "Label"})}, b.javaOthers()...)...)
			g := o.javaCode(b.javaExport(m), "a unit value")
			if g == nil {
				return
			}
			cl := o.javaClass(g, "Uv", javaDir+"Uv.java")
			if cl == nil || len(cl.fields()) != 2 {
				return
			}
			o.javaEval(g, "Uv", func() {
				x := g.newObj(cl, []JV{text}).(*JObj)
				if got := show(x.fields[cl.fields()[0].Name]); got != `Integer.parseInt("12")` {
					o.javaFail("Uv", "the value must be read from the text, it is "+got)
				}
				if got := show(x.fields[cl.fields()[1].Name]); got != show(JV(text[3:])) {
					o.javaFail("Uv", "the unit must be all of the text after the value, it is "+got)
				}
			})
		})
	}
	for _, names := range [][]string{{"red", "Red", "RED", "rED"}, {"a", "ab", "abc"}, {"x_1", "x1", "X1"}} {
		names := names
		c.check(fmt.Sprintf("enum %v", names), nil, func(b *B, o *O) {
			var es []interface{}
			for _, n := range names {
				es = append(es, n)
			}
			g := o.javaCode(b.javaExport(b.goModel(append(b.javaOthers(), b.tdef(b.atom("En"), F{"Type": "Enum", "Elements": b.elems(es...)}))...)), "an enum")
			if g == nil {
				return
			}
			cl := o.javaClass(g, "En", javaDir+"En.java")
			if cl == nil {
				return
			}
			o.javaEval(g, "En", func() {
				ms := cl.methods("fromString")
				if len(ms) != 1 {
					o.javaFail("En", "decoding must use fromString")
					return
				}
				for _, n := range names {
					v := g.enumConst(cl, n)
					if v == nil {
						o.javaFail("En", "there must be a symbol "+n)
						continue
					}
					if got := g.run(cl, nil, ms[0], []JV{n}); got != v {
						o.javaFail("En", fmt.Sprintf("%q must be read as %s, not %s", n, n, show(got)))
					}
				}
				for _, n := range []string{"ReD", "", "A", " a", "x", "X_1", "abcd"} {
					n := n
					if _, t := g.try(func() JV { return g.run(cl, nil, ms[0], []JV{n}) }); t == nil {
						o.javaFail("En", fmt.Sprintf("%q must be refused", n))
					}
				}
			})
		})
	}
	for _, fields := range [][]string{{"m"}, {"stack", "caus"}, {"Message"}, {"cause"}, {"suppressed", "e"}, {"localizedMessage"}, {"messages"}, {"stackTrace"}} {
		for _, req := range []bool{false, true} {
			for _, opt := range []string{"", "immutable=false"} {
				fields, req, opt := fields, req, opt
				c.check(fmt.Sprintf("exception with fields %v, required %v, option %q", fields, req, opt), nil, func(b *B, o *O) {
					var fs []*Term
					for _, f := range fields {
						fs = append(fs, b.field(f, F{"Type": "String", "Required": req}))
					}
					act := b.action(b.atom("act"), F{"Expected": b.expected(200), "Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": b.code(404), "Type": "Gone"}))})
					m := b.newModel(F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Http": b.list(act), "Types": b.list(append(b.javaOthers(), b.tdef("Gone", F{"Type": "Struct", "Fields": b.list(fs...)}))...)})
					var opts []string
					if opt != "" {
						opts = append(opts, opt)
					}
					g := o.javaCodeWith(b.javaExport(m, opts...), "an exception", func(msg string) bool { return true })
					if g == nil {
						return
					}
					cl := o.javaClass(g, "Gone", javaDir+"Gone.java")
					if cl == nil {
						return
					}
					ig := cl.anno("JsonIgnoreProperties")
					for _, p := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
						want := true
						for _, f := range fields {
							want = want && f != p
						}
						if strings.Contains(ig, `"`+p+`"`) != want {
							o.javaFail("Gone", fmt.Sprintf("the encoding must leave out %s: %v, it has %s", p, want, ig))
						}
					}
				})
			}
		}
	}
	for _, k := range []struct {
		class, field string
		ok           bool
	}{{"Zing", "zing", false}, {"Zing", "Zing", false}, {"zing", "zing", false}, {"Zing", "zings", true}, {"Zing", "ZING", true}, {"Zing", "zin", true}} {
		k := k
		c.check(fmt.Sprintf("struct %s with a struct %s in it", k.class, k.field), nil, func(b *B, o *O) {
			m := b.goModel(append(b.javaOthers(), b.tdef(k.class, F{"Type": "Struct", "Fields": b.list(b.field(k.field, F{"Type": "Struct", "Fields": b.list(b.field("x", F{"Type": "Int32"}))}))}))...)
			if !k.ok {
				o.reject(b.javaExport(m), "an inner class named like its class")
				return
			}
			g := o.javaCode(b.javaExport(m), "a struct with a struct in it")
			if g == nil {
				return
			}
			if in := g.classes["Zing."+strings.ToUpper(k.field[:1])+k.field[1:]]; in != nil || k.field == "ZING" {
				if in == nil {
					in = g.classes["Zing.THING"]
				}
				if in == nil {
					o.javaFail("Zing", "there must be an inner class")
					return
				}
				o.javaField(g, in, 0, "x", "Integer", false)
			} else {
				o.javaFail("Zing", "there must be an inner class")
			}
		})
	}
	// service interface, requests, responses, exceptions
	for n := 0; n <= 3; n++ {
		for _, imm := range []bool{true, false} {
			for _, se := range []bool{true, false} {
				n, imm, se := n, imm, se
				c.check(fmt.Sprintf("service with %d actions, immutable %v, service exception %v", n, imm, se), nil, func(b *B, o *O) {
					var acts []*Term
					for i := 0; i < n; i++ {
						ins := b.list(b.param(F{"Name": b.atom("id"), "Type": "Label", "Path": true, "Required": true}), b.param(F{"Name": b.atom("limit"), "Type": "Int32", "Query": b.atom("lim")}), b.param(F{"Name": b.atom("body"), "Type": "Inner", "Required": true}))
						acts = append(acts, b.action(b.atom(fmt.Sprint("act", i)), F{"Method": "PUT", "Path": "/x/{id}", "Inputs": ins,
							"Expected":   b.expected(200, b.param(F{"Name": b.atom("thing"), "Type": "Inner"}), b.param(F{"Name": b.atom("mod"), "Type": "Timestamp", "Header": b.atom("Mod")})),
							"Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": 404, "Type": "NotFound"}))}))
					}
					others := append(b.javaOthers(), b.tdef("NotFound", F{"Type": "Struct", "Fields": b.list(b.field("message", F{"Type": "String"}), b.field("code", F{"Type": "Int32"}))}), b.tdef("Unrelated", F{"Type": "Struct", "Fields": b.list(b.field("msg", F{"Type": "String"}))}))
					m := b.newModel(F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Types": b.list(others...), "Http": b.list(acts...)})
					var opts []string
					if !imm {
						opts = append(opts, "immutable=false")
					}
					if se {
						opts = append(opts, "service-exception")
					}
					g := o.javaCode(b.javaExport(m, opts...), "a service")
					if g == nil {
						return
					}
					it := o.javaClass(g, "Svc", javaDir+"Svc.java")
					if it == nil {
						return
					}
					if it.K != "INTERFACE" || len(it.Members) != n {
						o.javaFail("Svc", fmt.Sprintf("the service must be an interface with %d methods, it has %d", n, len(it.Members)))
					}
					for i := 0; i < n; i++ {
						a := fmt.Sprint("act", i)
						up := fmt.Sprint("Act", i)
						ms := it.methods(a)
						if len(ms) != 1 || ms[0].Type != up+"Response" || len(ms[0].Params) != 1 || ms[0].Params[0].Type != up+"Request" {
							o.javaFail("Svc", "the interface must have "+up+"Response "+a+"("+up+"Request)")
						}
						if rq := o.javaClass(g, up+"Request", javaDir+up+"Request.java"); rq != nil {
							o.javaField(g, rq, 0, "id", "String", true)
							o.javaField(g, rq, 1, "limit", "Integer", false)
							o.javaField(g, rq, 2, "body", "Inner", true)
							o.javaHolds(g, rq, imm, "id", "limit", "body")
						}
						if rs := o.javaClass(g, up+"Response", javaDir+up+"Response.java"); rs != nil {
							o.javaField(g, rs, 0, "thing", "Inner", false)
							o.javaField(g, rs, 1, "mod", "Instant", false)
							o.javaHolds(g, rs, imm, "thing", "mod")
						}
					}
					nf, un := o.javaClass(g, "NotFound", javaDir+"NotFound.java"), o.javaClass(g, "Unrelated", javaDir+"Unrelated.java")
					if nf == nil || un == nil {
						return
					}
					o.javaHolds(g, nf, imm, "message", "code")
					if is := g.isA(nf, "RuntimeException"); is != (n > 0 && !se) {
						o.javaFail("NotFound", fmt.Sprintf("an exception type must be throwable exactly without service exceptions: %v", is))
					}
					if g.isA(un, "Throwable") {
						o.javaFail("Unrelated", "a type that is no exception must not be one")
					}
					if n > 0 && !se {
						ig := nf.anno("JsonIgnoreProperties")
						for _, p := range []string{"stackTrace", "cause", "localizedMessage", "suppressed"} {
							if !strings.Contains(ig, `"`+p+`"`) {
								o.javaFail("NotFound", "the encoding of an exception must not have its "+p+": "+ig)
							}
						}
						if strings.Contains(ig, `"message"`) || strings.Contains(ig, `"code"`) {
							o.javaFail("NotFound", "the encoding of an exception must have all its fields, it ignores "+ig)
						}
					}
					sx := g.classes["ServiceException"]
					if (sx != nil) != se {
						o.javaFail("ServiceException", "the service exception must be generated exactly when asked for")
					}
					if sx != nil {
						o.javaEval(g, "ServiceException", func() {
							x := g.newObj(sx, nil).(*JObj)
							g.run(sx, x, sx.methods("entity")[0], []JV{JSym{"ent"}})
							var wrote []string
							g.call = func(recv JV, name string, args []JV) (JV, JV) {
								if name == "writeObject" {
									wrote = append(wrote, show(args[0]))
								}
								return nil, nil
							}
							js := g.classes["ServiceException.JSONSerializer"]
							g.run(js, &JObj{class: js, fields: map[string]JV{}}, js.methods("serialize")[0], []JV{x, JSym{"jgen"}, JSym{"p"}})
							if strings.Join(wrote, ";") != "ent" {
								o.javaFail("ServiceException", fmt.Sprintf("a service exception must be encoded as its entity, it writes %v", wrote))
							}
							x = g.newObj(sx, []JV{"no such thing"}).(*JObj)
							wrote = nil
							g.run(js, &JObj{class: js, fields: map[string]JV{}}, js.methods("serialize")[0], []JV{x, JSym{"jgen"}, JSym{"p"}})
							if len(wrote) != 1 || !strings.Contains(wrote[0], "error") || !strings.Contains(wrote[0], "no such thing") {
								o.javaFail("ServiceException", fmt.Sprintf("a service exception without an entity must be encoded as an object with its message as the error, it writes %v", wrote))
							}
						})
					}
				})
			}
		}
	}
	// all at once, in the other modes
	for _, mode := range []string{"json", "getters", "immutable=false json", "instants=false", "instants=false immutable=false json", "service-exception json"} {
		mode := mode
		c.check("all types together, "+mode, nil, func(b *B, o *O) {
			var fs []*Term
			for i, t := range javaTypeNames() {
				fs = append(fs, b.field("f"+strings.ToLower(t), F{"Type": t, "Required": i%2 == 0}))
			}
			m := b.goModel(append(b.javaOthers(), b.rec(fs...))...)
			g := o.javaCode(b.javaExport(m, strings.Fields(mode)...), "all types together")
			if g == nil {
				return
			}
			if strings.Contains(mode, "json") {
				for _, n := range []string{"Rec", "Either"} {
					cl := g.classes[n]
					o.javaEval(g, n, func() {
						f := &jFrame{g: g, class: cl, vars: map[string]JV{}}
						var got JV
						g.call = func(recv JV, name string, args []JV) (JV, JV) {
							if name == "writeValueAsString" {
								return JSym{"json of " + show(args[0])}, nil
							}
							return nil, nil
						}
						x := &JObj{class: cl, fields: map[string]JV{}}
						got = f.text(x)
						if s := show(got); !strings.HasPrefix(s, "json of "+n) {
							o.javaFail(n, "the text of an object must be its JSON, it is "+s)
						}
					})
				}
			}
		})
	}
	// each one alone: what one class needs must not come from another
	c.dress = false
	for _, mode := range []string{"", "json", "immutable=false", "instants=false json"} {
		for _, t := range []string{"Bool", "Int8", "Int64", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Any"} {
			for _, how := range []string{"required field", "optional field", "variant", "item"} {
				mode, t, how := mode, t, how
				c.check(fmt.Sprintf("a model of nothing but a %s of type %s, %s", how, t, mode), nil, func(b *B, o *O) {
					var td *Term
					f := F{"Type": t, "Required": how == "required field"}
					if t == "Array" || t == "Map" {
						f["Items"], f["Keys"] = "Int32", "String"
						if t == "Array" {
							delete(f, "Keys")
						}
					}
					switch how {
					case "variant":
						delete(f, "Required")
						f["Name"] = "vone"
						td = b.tdef("Un", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", f))})
					case "item":
						td = b.rec(b.field("x", F{"Type": "Array", "Items": t, "Required": true}))
					default:
						td = b.rec(b.field("x", f))
					}
					o.javaCode(b.javaExport(b.goModel(td), strings.Fields(mode)...), "the only type")
				})
			}
		}
	}
	c.dress = true
	c.check("lombok", nil, func(b *B, o *O) {
		m := b.goModel(append(b.javaOthers(), b.tdef("Rec", F{"Type": "Struct", "Fields": b.list(b.field(b.atom("one"), F{"Type": "Int32", "Required": true}), b.field(b.atom("two"), F{"Type": "String"}), b.field("three", F{"Type": "Struct", "Fields": b.list(b.field(b.atom("x"), F{"Type": "Int32"}))}))}))...)
		g := o.javaCodeWith(b.javaExport(m, "lombok"), "a struct", func(msg string) bool {
			return strings.Contains(msg, "Builder") || strings.Contains(msg, "not initialized") || strings.Contains(msg, "might not have been")
		})
		if g == nil {
			return
		}
		if cl := o.javaClass(g, "Rec", javaDir+"Rec.java"); cl != nil {
			o.javaField(g, cl, 0, "one", "int", true)
			o.javaField(g, cl, 1, "two", "String", false)
			o.javaField(g, cl, 2, "three", "Three", false)
			for _, a := range []string{"Data", "AllArgsConstructor", "Builder", "NoArgsConstructor"} {
				if cl.anno(a) == "" {
					o.javaFail("Rec", "with Lombok the class must be annotated @"+a)
				}
			}
			if in := g.classes["Rec.Three"]; in == nil {
				o.javaFail("Rec.Three", "the inner struct must be generated")
			} else {
				o.javaField(g, in, 0, "x", "Integer", false)
			}
		}
	})
	for n := 0; n <= 3; n++ {
		for _, opts := range [][]string{{}, {"lombok"}, {"immutable=false"}, {"lombok", "immutable=false"}, {"json"}, {"getters"}} {
			n, opts := n, opts
			c.check(fmt.Sprintf("exception of %d fields %v", n, opts), nil, func(b *B, o *O) {
				var fs []*Term
				var names []string
				for i := 0; i < n; i++ {
					names = append(names, []string{"code", "whyNot", "message"}[i])
					fs = append(fs, b.field(names[i], F{"Type": []string{"Int32", "Inner", "String"}[i], "Required": i == 0}))
				}
				act := b.action(b.atom("act"), F{"Expected": b.expected(200), "Exceptions": b.list(b.obj("HttpExceptionSpec", F{"Status": b.code(404), "Type": "Gone"}))})
				m := b.newModel(F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Http": b.list(act), "Types": b.list(append(b.javaOthers(), b.tdef("Gone", F{"Type": "Struct", "Fields": b.list(fs...)}))...)})
				g := o.javaCodeWith(b.javaExport(m, opts...), "an exception", func(msg string) bool {
					return strings.Contains(strings.Join(opts, " "), "lombok") && (strings.Contains(msg, "Builder") || strings.Contains(msg, "not initialized") || strings.Contains(msg, "might not have been")) && !strings.Contains(msg, "Gone.java")
				})
				if g == nil {
					return
				}
				cl := o.javaClass(g, "Gone", javaDir+"Gone.java")
				if cl == nil {
					return
				}
				if !g.isA(cl, "RuntimeException") {
					o.javaFail("Gone", "an exception type must be throwable")
				}
				if len(cl.fields()) != n {
					o.javaFail("Gone", fmt.Sprintf("Gone must have %d fields, it has %d", n, len(cl.fields())))
					return
				}
				for i, f := range names {
					o.javaField(g, cl, i, f, javaType([]string{"Int32", "Inner", "String"}[i], i == 0), i == 0)
				}
				o.javaHolds(g, cl, !strings.Contains(strings.Join(opts, " "), "immutable=false"), names...)
				ig := cl.anno("JsonIgnoreProperties")
				for _, p := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
					if want := p != "message" || n < 3; strings.Contains(ig, `"`+p+`"`) != want {
						o.javaFail("Gone", fmt.Sprintf("the encoding must leave out %s: %v, it has %s", p, want, ig))
					}
				}
			})
		}
	}
	// what is not supported is an error
	for _, t := range []string{"Enum", "Union", "UnitValue"} {
		for _, how := range []string{"field", "array", "map", "variant"} {
			t, how := t, how
			c.check("a "+t+" "+how+" is reported", nil, func(b *B, o *O) {
				var td *Term
				switch how {
				case "field":
					td = b.rec(b.field("x", F{"Type": t}))
				case "array":
					td = b.rec(b.field("x", F{"Type": "Array", "Items": t}))
				case "map":
					td = b.rec(b.field("x", F{"Type": "Map", "Keys": "String", "Items": t}))
				case "variant":
					td = b.tdef("Un", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": "x", "Type": t}))})
				}
				o.reject(b.javaExport(b.goModel(td)), "a type that Java does not have")
			})
		}
	}
	for _, k := range strings.Fields("abstract assert boolean break byte case catch char class const continue default do double else enum extends final finally float for goto if implements import instanceof int interface long native new package private protected public return short static strictfp super switch synchronized this throw throws transient try void volatile while true false null _") {
		k := k
		c.check("a member named "+k+" is reported", nil, func(b *B, o *O) {
			o.reject(b.javaExport(b.goModel(b.rec(b.field(k, F{"Type": "String"})))), "a field named like a Java keyword")
			o.reject(b.javaExport(b.goModel(b.tdef("En", F{"Type": "Enum", "Elements": b.elems(k)}))), "a symbol named like a Java keyword")
			o.reject(b.javaExport(b.goModel(b.tdef("Un", F{"Type": "Union", "Variants": b.list(b.obj("UnionVariantDef", F{"Name": k, "Type": "String"}))}))), "a variant named like a Java keyword")
		})
	}
	// where the code goes
	for _, k := range []struct{ name, ns, conf, dir, pkg string }{
		{"", "a", "", "src/main/java/a/model", "a.model"}, {"", "a.b", "", "src/main/java/a/b/model", "a.b.model"}, {"", "a.b.c", "", "src/main/java/a/b/c/model", "a.b.c.model"},
		{"", "org.z.www", "", "src/main/java/org/z/www/model", "org.z.www.model"}, {"", "www.z.org", "", "src/main/java/www/z/org/model", "www.z.org.model"}, {"", "a", "domain=www.z.org", "src/main/java/org/z/www/model", "org.z.www.model"}, {"", "com.a", "package=www.z", "src/main/java/www/z/model", "www.z.model"},
		{"", "a.b", "package=x.y", "src/main/java/x/y/model", "x.y.model"}, {"", "a.b", "domain=z.org", "src/main/java/org/z/model", "org.z.model"}, {"", "", "domain=z.org", "src/main/java/org/z/model", "org.z.model"},
		{"", "a.b", "model-package=q.r", "src/main/java/q/r", "q.r"}, {"", "a", "source=code", "code/a/model", "a.model"}, {"Other", "a", "", "src/main/java/a/model", "a.model"}, {"", "a", "header=/*head*/", "src/main/java/a/model", "a.model"}} {
		k := k
		c.check(fmt.Sprintf("namespace %q, option %q, name %q", k.ns, k.conf, k.name), nil, func(b *B, o *O) {
			m := b.newModel(F{"Name": "svc", "Namespace": k.ns, "Types": b.list(b.rec(b.field("x", F{"Type": "String"}), b.field("t", F{"Type": "Timestamp"})))})
			var opts []string
			if k.conf != "" {
				opts = append(opts, k.conf)
			}
			if k.name != "" {
				opts = append(opts, "name="+k.name)
			}
			svc := "Svc"
			if k.name != "" {
				svc = k.name
			}
			g := o.javaCode(b.javaExport(m, opts...), "the model")
			if g == nil {
				return
			}
			var names []string
			for n := range g.text {
				names = append(names, n)
			}
			sort.Strings(names)
			dir := "out/" + k.dir + "/"
			want := []string{dir + "Rec.java", dir + svc + ".java", dir + "Util.java"}
			sort.Strings(want)
			if strings.Join(names, " ") != strings.Join(want, " ") {
				o.javaFail(path.Base(dir), fmt.Sprintf("the files must be %v, they are %v", want, names))
				return
			}
			for _, u := range g.units {
				if u.Pkg != k.pkg {
					o.javaFail(u.Name, "the package must be "+k.pkg+", not "+u.Pkg)
				}
			}
			if strings.HasPrefix(k.conf, "header=") {
				for n, s := range g.text {
					if !strings.HasPrefix(s, "/*head*/") {
						o.javaFail(n, "the file must start with the configured header")
					}
				}
			}
		})
	}
	c.check("no model wanted", nil, func(b *B, o *O) {
		m := b.goModel(b.rec(b.field("x", F{"Type": "String"})))
		rs := b.javaExport(m, "model=false")
		o.accept(rs, "nothing to generate")
		o.expect(rs, "nothing must be written", func(r Ret) int {
			fs := b.fileState(r.st)
			if fs.unknown {
				return -1
			}
			return boolInt(len(fs.content) == 0)
		})
	})
	for _, op := range []string{"os.MkdirAll", "os.Create", "write"} {
		op := op
		c.check("failing "+op+" is reported", &Scenario{fails: map[string]int{op: 1}}, func(b *B, o *O) {
			m := b.goModel(b.rec(b.field("x", F{"Type": "String"})))
			o.reject(b.javaExport(m), "a failure of the file system")
		})
	}
	for _, text := range []string{"two\nlines", "one\n\nand\nmore\n", "} {", "private int x;\nprivate int y;", "a */ b /* c", "100%d %s", "{{x}} {{.}}", strings.Repeat("many words of it ", 8), "carriage\r\nreturn", "return\ronly", "C:\\users\\x", "\\u0041", "ends with \\", "é", " padded "} {
		text := text
		for _, opts := range [][]string{{}, {"lombok"}, {"immutable=false"}, {"getters"}} {
			opts := opts
			c.check(fmt.Sprintf("comment %q %v", text, opts), nil, func(b *B, o *O) {
				els := func() *Term {
					return b.list(b.obj("EnumElementDef", F{"Symbol": b.atom("red"), "Comment": text}), b.obj("EnumElementDef", F{"Symbol": b.atom("blue"), "Comment": text}))
				}
				fs := func() *Term {
					return b.list(b.field("one", F{"Type": "String", "Comment": text}), b.field("two", F{"Type": "Int32", "Required": true, "Comment": text}), b.field("three", F{"Type": "Struct", "Comment": text, "Fields": b.list(b.field("x", F{"Type": "Int32", "Comment": text}))}))
				}
				m := b.goModel(b.tdef("Rec", F{"Type": "Struct", "Comment": text, "Fields": fs()}), b.tdef("Color", F{"Type": "Enum", "Comment": text, "Elements": els()}),
					b.tdef("Un", F{"Type": "Union", "Comment": text, "Variants": b.list(b.obj("UnionVariantDef", F{"Name": "left", "Type": "String", "Comment": text}), b.obj("UnionVariantDef", F{"Name": "right", "Type": "Rec", "Comment": text}))}))
				g := o.javaCodeWith(b.javaExport(m, opts...), "comments", func(msg string) bool {
					return len(opts) > 0 && opts[0] == "lombok" && (strings.Contains(msg, "Builder") || strings.Contains(msg, "not initialized") || strings.Contains(msg, "might not have been"))
				})
				if g == nil {
					return
				}
				if cl := o.javaClass(g, "Rec", javaDir+"Rec.java"); cl != nil {
					o.javaField(g, cl, 0, "one", "String", false)
					o.javaField(g, cl, 1, "two", "int", true)
					o.javaField(g, cl, 2, "three", "Three", false)
					if len(cl.fields()) != 3 {
						o.javaFail("Rec", "the class must have exactly its three fields")
					}
				}
				if cl := o.javaClass(g, "Color", javaDir+"Color.java"); cl != nil {
					o.javaEval(g, "Color", func() {
						var names []string
						for _, v := range g.enumValues(cl) {
							names = append(names, v.(*JObj).name)
						}
						if strings.Join(names, " ") != "red blue" {
							o.javaFail("Color", fmt.Sprintf("the symbols must be those of the enum in order, they are %v", names))
						}
					})
				}
				o.javaClass(g, "Un", javaDir+"Un.java")
			})
		}
	}
	for _, n := range []int{0, 1, 2, 3} {
		n := n
		c.check(fmt.Sprintf("every one of %d structs with all its fields", n), nil, func(b *B, o *O) {
			var ts []*Term
			for i := 0; i < n; i++ {
				var fs []*Term
				for j := 0; j <= i; j++ {
					fs = append(fs, b.field(b.atom(fmt.Sprint("fd", j)), F{"Type": "Int64", "Required": j%2 == 0, "Comment": "some words"}))
				}
				ts = append(ts, b.tdef(b.atom(fmt.Sprint("Rec", i)), F{"Type": "Struct", "Fields": b.list(fs...), "Comment": "a record"}))
			}
			g := o.javaCode(b.javaExport(b.goModel(ts...)), "several structs")
			if g == nil {
				return
			}
			for i := 0; i < n; i++ {
				cl := o.javaClass(g, fmt.Sprint("Rec", i), javaDir+fmt.Sprint("Rec", i)+".java")
				if cl == nil {
					return
				}
				if len(cl.fields()) != i+1 {
					o.javaFail(cl.Name, "the class must have all the fields and no other")
				}
				var names []string
				for j := 0; j <= i; j++ {
					o.javaField(g, cl, j, fmt.Sprint("fd", j), javaType("Int64", j%2 == 0), j%2 == 0)
					names = append(names, fmt.Sprint("fd", j))
				}
				o.javaHolds(g, cl, true, names...)
			}
			if len(g.text) != n+1 {
				o.javaFail("files", fmt.Sprintf("%d structs and the interface give %d files", n, len(g.text)))
			}
		})
	}
}

// jlimit is an annotation with numbers in it.
type jlimit struct {
	form string
	nums []*Term
}

// limited generates a struct with a field of a limited type.
func (o *O) limited(b *B, base string, spec F, how string, req bool, annos []jlimit) {
	f := F{"Required": req}
	var ts []*Term
	switch how {
	case "inline":
		for k, v := range spec {
			f[k] = v
		}
	case "named":
		ts = append(ts, b.tdef("Lim", spec))
		f["Type"] = "Lim"
	case "twice named":
		ts = append(ts, b.tdef("Lim", spec), b.tdef("Lim2", F{"Type": "Lim"}))
		f["Type"] = "Lim2"
	}
	m := b.goModel(append(ts, b.rec(b.field(b.atom("one"), f), b.field(b.atom("two"), F{"Type": "String"})))...)
	o.javaEach(b.javaExport(m), "a struct with a limited field", func(g *GenJava, num func(*Term) string) {
		if cl := o.javaClass(g, "Rec", javaDir+"Rec.java"); cl != nil {
			var want []string
			for _, a := range annos {
				s := a.form
				for _, n := range a.nums {
					s = strings.Replace(s, "%s", num(n), 1)
				}
				want = append(want, s)
			}
			o.javaField(g, cl, 0, "one", javaType(base, req), req, want...)
			o.javaField(g, cl, 1, "two", "String", false)
		}
	})
}

// javaUnion requires the variants of a union, and each of its makers to set exactly its variant.
func (o *O) javaUnion(g *GenJava, cl *JN, names, types []string) {
	vt := g.classes[g.qname(cl)+".Variant"]
	if vt == nil || vt.K != "ENUM" {
		o.javaFail(cl.Name, "the union must have an enum of its variants")
		return
	}
	byName := map[string]*JN{}
	n := 0
	for _, f := range cl.fields() {
		byName[f.Name] = f
		if f.Name != "variant" {
			n++
		}
	}
	if n != len(names) {
		o.javaFail(cl.Name, fmt.Sprintf("the union must have %d variants, it has %d", len(names), n))
	}
	for i, v := range names {
		f := byName[v]
		if f == nil || !sameType(f.Type, types[i]) {
			o.javaFail(cl.Name, "the variant "+v+" must be a field of type "+types[i])
			return
		}
		if !strings.Contains(f.anno("JsonInclude"), "NON_") {
			o.javaFail(cl.Name, "the variant "+v+" must be left out of the JSON unless it is set")
		}
	}
	if f := byName["variant"]; f == nil || f.anno("JsonIgnore") == "" {
		o.javaFail(cl.Name, "the tag must not be in the JSON")
	}
	o.javaEval(g, cl.Name, func() {
		var tags []string
		for _, v := range g.enumValues(vt) {
			tags = append(tags, v.(*JObj).name)
		}
		if strings.Join(tags, " ") != strings.Join(names, " ") {
			o.javaFail(cl.Name, fmt.Sprintf("the tags must be the variants, they are %v", tags))
		}
		check := func(x JV, i int, how string) {
			ob, ok := x.(*JObj)
			if !ok {
				jfail("not an object")
			}
			for j, n := range names {
				want := "null"
				if i == j {
					want = "val"
				}
				if got := show(ob.fields[n]); got != want {
					o.javaFail(cl.Name, fmt.Sprintf("%s %s: the variant %s must be %s, it is %s", how, names[i], n, want, got))
				}
			}
			if got := ob.fields["variant"]; got != g.enumConst(vt, names[i]) {
				o.javaFail(cl.Name, fmt.Sprintf("%s %s: the tag is %s", how, names[i], show(got)))
			}
		}
		for i, v := range names {
			ms := cl.methods("of" + strings.ToUpper(v[:1]) + v[1:])
			if len(ms) != 1 || !ms[0].mod("static") || !ms[0].mod("public") || len(ms[0].Params) != 1 || !sameType(ms[0].Params[0].Type, types[i]) {
				o.javaFail(cl.Name, "the variant "+v+" must have a maker")
				return
			}
			check(g.run(cl, nil, ms[0], []JV{JSym{"val"}}), i, "making")
			// decoding
			cs := cl.methods("<init>")
			if len(cs) != 1 || cs[0].anno("JsonCreator") == "" || len(cs[0].Params) != len(names) {
				o.javaFail(cl.Name, "the union must be decoded from its variants")
				return
			}
			args := make([]JV, len(names))
			for j, p := range cs[0].Params {
				args[j] = JNull{}
				if p.anno("JsonProperty") == fmt.Sprintf("@JsonProperty(%q)", v) {
					args[j] = JSym{"val"}
				}
			}
			check(g.newObj(cl, args), i, "decoding")
		}
	})
}
