package main

// props_sadl.go: C31, the model that a SADL text means.

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register(&Property{id: "C31", rule: "ParseSadlString gives exactly the types, actions, operations, examples and attributes that the text declares.", run: runC31})
}

// src puts a source text together: strings and terms.
func (b *B) src(xs ...interface{}) *Term {
	var ts []*Term
	for _, x := range xs {
		switch x := x.(type) {
		case string:
			ts = append(ts, b.e.T.Str(x))
		case *Term:
			ts = append(ts, x)
		case []interface{}:
			ts = append(ts, b.src(x...))
		default:
			panic(fmt.Sprintf("src: %T", x))
		}
	}
	return b.e.cat(ts...)
}

func (b *B) parse(xs ...interface{}) []Ret {
	return b.call(nil, "", "ParseSadlString", b.src(xs...), b.config(), b.e.T.Nil())
}

// full is the struct with the given fields, all others empty.
func (b *B) full(typ string, f F) F {
	out := F{}
	var add func(t types.Type)
	add = func(t types.Type) {
		s, ok := under(t).(*types.Struct)
		if !ok {
			panic(anchorLost{"struct " + typ})
		}
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			if fd.Embedded() {
				add(fd.Type())
				continue
			}
			switch u := under(fd.Type()).(type) {
			case *types.Basic:
				switch {
				case u.Info()&types.IsString != 0:
					out[fd.Name()] = ""
				case u.Info()&types.IsBoolean != 0:
					out[fd.Name()] = false
				default:
					out[fd.Name()] = 0
				}
			default:
				out[fd.Name()] = nil
			}
		}
	}
	add(b.typ(typ))
	for k, v := range f {
		if _, ok := out[k]; !ok {
			panic(anchorLost{"field " + typ + "." + k})
		}
		out[k] = v
	}
	return out
}

func (b *B) wantType(name interface{}, f F) F { return b.full("TypeDef", f.with("Name", name)) }

// itoa is the text of a number.
func (b *B) numText(x *Term) *Term { return b.e.itoa(x) }

type sadlCase struct {
	name string
	tmpl string // after "type T "
	want func(b *B) F
	line bool // on one line
}

// sadlCases are the type specifications.
func sadlCases() []sadlCase {
	var cs []sadlCase
	for _, k := range []string{"Bool", "Bytes", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Any"} {
		k := k
		cs = append(cs, sadlCase{name: k, tmpl: k, want: func(b *B) F { return F{"Type": k} }, line: true})
	}
	opt := func(k string, opts ...string) {
		for mask := 1; mask < 1<<len(opts); mask++ {
			mask := mask
			name := k
			for i, o := range opts {
				if mask>>i&1 != 0 {
					name += " " + o
				}
			}
			tmpl, sep := k+" (", ""
			for i, o := range opts {
				if mask>>i&1 != 0 {
					tmpl += sep + o + "=" + map[string]string{"min": "%min", "max": "%max", "minsize": "^minsize", "maxsize": "^maxsize", "pattern": `"$pattern"`, "values": `["$v0", "$v1"]`, "reference": "Other"}[o]
					sep = ", "
				}
			}
			cs = append(cs, sadlCase{name: name, line: true, tmpl: tmpl + ")", want: func(b *B) F {
				f := F{"Type": k}
				switch k {
				case "Array":
					f["Items"] = "Any"
				case "Map":
					f["Keys"], f["Items"] = "String", "Any"
				case "Array<Other>", "List<Other>":
					f["Type"], f["Items"] = "Array", "Other"
				case "Map<String,Other>":
					f["Type"], f["Keys"], f["Items"] = "Map", "String", "Other"
				}
				for i, o := range opts {
					if mask>>i&1 == 0 {
						continue
					}
					switch o {
					case "min":
						f["Min"] = b.decIs(b.num(o))
					case "max":
						f["Max"] = b.decIs(b.num(o))
					case "minsize":
						f["MinSize"] = D{b.sym("++"+o, types.Typ[types.Int64])}
					case "maxsize":
						f["MaxSize"] = D{b.sym("++"+o, types.Typ[types.Int64])}
					case "pattern":
						f["Pattern"] = b.atom("pattern")
					case "values":
						f["Values"] = Seq{b.atom("v0"), b.atom("v1")}
					case "reference":
						f["Reference"] = "Other"
					}
				}
				return f
			}})
		}
	}
	for _, k := range []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"} {
		opt(k, "min", "max")
	}
	opt("Bytes", "minsize", "maxsize")
	opt("String", "minsize", "maxsize", "pattern", "reference")
	opt("String", "values", "minsize", "maxsize")
	opt("UUID", "reference")
	for _, k := range []string{"Array", "Array<Other>", "List<Other>", "Map", "Map<String,Other>"} {
		k := k
		opt(k, "minsize", "maxsize")
		cs = append(cs, sadlCase{name: k, line: true, tmpl: k, want: func(b *B) F {
			switch k {
			case "Array":
				return F{"Type": "Array", "Items": "Any"}
			case "Map":
				return F{"Type": "Map", "Keys": "String", "Items": "Any"}
			case "Map<String,Other>":
				return F{"Type": "Map", "Keys": "String", "Items": "Other"}
			}
			return F{"Type": "Array", "Items": "Other"}
		}})
	}
	cs = append(cs, sadlCase{name: "UnitValue", line: true, tmpl: "UnitValue", want: func(b *B) F {
		return F{"Type": "UnitValue", "Value": "Decimal", "Unit": "String"}
	}})
	cs = append(cs, sadlCase{name: "UnitValue of its own types", line: true, tmpl: "UnitValue<Int32,Str>", want: func(b *B) F {
		return F{"Type": "UnitValue", "Value": "Int32", "Unit": "Str"}
	}})
	return cs
}

const sadlOthers = "type Str String\ntype Other Struct {\n  of String\n}\n"

func (b *B) wantOthers() []interface{} {
	return []interface{}{b.wantType("Str", F{"Type": "String"}), b.wantType("Other", F{"Type": "Struct", "Fields": Seq{b.full("StructFieldDef", F{"Name": "of", "Type": "String"})}})}
}

// sadl puts a source text together from a template: $name is an arbitrary name or text, %name an arbitrary number,
// ^name an arbitrary size, !404 an arbitrary status.
func (b *B) sadl(t string) *Term {
	var xs []interface{}
	last := 0
	for _, m := range sadlHole.FindAllStringIndex(t, -1) {
		xs = append(xs, t[last:m[0]])
		n := t[m[0]+1 : m[1]]
		switch t[m[0]] {
		case '$':
			xs = append(xs, b.atom(n))
		case '^':
			xs = append(xs, b.numText(b.sym("++"+n, types.Typ[types.Int64])))
		case '%':
			xs = append(xs, b.numText(b.num(n)))
		default:
			k, _ := strconv.Atoi(n)
			xs = append(xs, b.numText(b.code(k)))
		}
		last = m[1]
	}
	return b.src(append(xs, t[last:])...)
}

var sadlHole = regexp.MustCompile(`\$[A-Za-z][A-Za-z0-9]*|[%^][A-Za-z]+|![0-9]+`)

// wantModel is the model with the given parts and nothing else.
func (b *B) wantModel(f F) F {
	out := b.full("Schema", f)
	delete(out, "Sadl")
	return out
}

// names of a document that is parsed
type sadlDocCase struct {
	name, text string
	want       func(b *B) F
}

// layouts of the same text that mean the same
var sadlLayouts = []struct {
	name string
	f    func(string) string
}{
	{"", func(s string) string { return s }},
	{", blank lines", func(s string) string { return strings.ReplaceAll(s, "\n", "\n\n \t\n") }},
	{", block comments", func(s string) string {
		var out []string
		for _, l := range strings.SplitAfter(s, "\n") {
			if !strings.Contains(l, "//") && l != "" {
				l = strings.TrimSuffix(l, "\n") + " /* more\nof them */\n"
			}
			out = append(out, "/**/"+l)
		}
		return strings.Join(out, "")
	}},
	{", no newline at the end", func(s string) string { return strings.TrimSuffix(s, "\n") }},
}

func sadlDocs() []sadlDocCase {
	var cs []sadlDocCase
	add := func(name, text string, want func(b *B) F) { cs = append(cs, sadlDocCase{name, text, want}) }
	a := func(b *B, n string) *Term { return b.atom(n) }
	str := func(name interface{}) F { return F{"Name": name, "Type": "String"} }
	// directives
	add("empty text", "\n", func(b *B) F { return F{} })
	add("name", "name $n\n", func(b *B) F { return F{"Name": a(b, "n")} })
	add("name in quotes", "name \"$n\"\n", func(b *B) F { return F{"Name": a(b, "n")} })
	add("namespace", "namespace $n\n", func(b *B) F { return F{"Namespace": a(b, "n")} })
	add("namespace of three parts", "namespace $n.$m.$o\n", func(b *B) F { return F{"Namespace": b.src(a(b, "n"), ".", a(b, "m"), ".", a(b, "o"))} })
	add("version text", "version \"$v\"\n", func(b *B) F { return F{"Version": a(b, "v")} })
	add("version number", "version %v\n", func(b *B) F { return F{"Version": b.numText(b.num("v"))} })
	add("version symbol", "version $v\n", func(b *B) F { return F{"Version": a(b, "v")} })
	add("base", "base \"/$p\"\n", func(b *B) F { return F{"Base": b.src("/", a(b, "p"))} })
	add("annotations of the model", "x_$k \"$v\"\nx_$l\nx_$m=\"$w\"\n", func(b *B) F {
		return F{"Annotations": M{b.src("x_", a(b, "k")), a(b, "v"), b.src("x_", a(b, "l")), "", b.src("x_", a(b, "m")), a(b, "w")}}
	})
	for _, d := range []struct {
		n, t string
		f    func(b *B) F
	}{
		{"name", "name $n", func(b *B) F { return F{"Name": a(b, "n")} }},
		{"namespace", "namespace $n", func(b *B) F { return F{"Namespace": a(b, "n")} }},
		{"version", "version \"$v\"", func(b *B) F { return F{"Version": a(b, "v")} }},
		{"base", "base \"/$p\"", func(b *B) F { return F{"Base": b.src("/", a(b, "p"))} }},
		{"annotation", "x_$k \"$v\"", func(b *B) F { return F{"Annotations": M{b.src("x_", a(b, "k")), a(b, "v")}} }},
	} {
		d := d
		add(d.n+" with comments", "// $a\n//$b \n"+d.t+"\n", func(b *B) F { return d.f(b).with("Comment", b.src(a(b, "a"), " ", a(b, "b"))) })
	}
	add("all directives", "//$a\nname $n;\n//$b\nnamespace $s;\nversion \"$v\";\nbase \"/$p\";\nx_$k \"$w\"\ntype $T String\n", func(b *B) F {
		return F{"Name": a(b, "n"), "Namespace": a(b, "s"), "Version": a(b, "v"), "Base": b.src("/", a(b, "p")), "Annotations": M{b.src("x_", a(b, "k")), a(b, "w")},
			"Comment": b.src(a(b, "a"), " ", a(b, "b")), "Types": Seq{b.wantType(a(b, "T"), F{"Type": "String"})}}
	})
	// remarks on types
	for _, k := range []string{"Bool", "Int32", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any", "Array<String>", "Map<String,Int32>", "UnitValue<Decimal,String>", "Union<String,Int32>"} {
		k := k
		want := func(b *B, f F) F {
			switch k {
			case "Array<String>":
				f["Type"], f["Items"] = "Array", "String"
			case "Map<String,Int32>":
				f["Type"], f["Keys"], f["Items"] = "Map", "String", "Int32"
			case "UnitValue<Decimal,String>":
				f["Type"], f["Value"], f["Unit"] = "UnitValue", "Decimal", "String"
			case "Union<String,Int32>":
				f["Type"], f["Variants"] = "Union", Seq{b.full("UnionVariantDef", str("String")), b.full("UnionVariantDef", F{"Name": "Int32", "Type": "Int32"})}
			default:
				f["Type"] = k
			}
			return F{"Types": Seq{b.wantType(a(b, "T"), f)}}
		}
		add("remarks on "+k, "//$a\n// $b\ntype $T "+k+" (x_$k=\"$v\", x_$l) //$c\n", func(b *B) F {
			return want(b, F{"Comment": b.src(a(b, "a"), " ", a(b, "b"), " ", a(b, "c")), "Annotations": M{b.src("x_", a(b, "k")), a(b, "v"), b.src("x_", a(b, "l")), ""}})
		})
		add("semicolon after "+k, "type $T "+k+";\n", func(b *B) F { return want(b, F{}) })
		add("two of "+k, "type $T "+k+" // $c\n//$d\ntype $U "+k+"\n", func(b *B) F {
			t1 := want(b, F{"Comment": a(b, "c")})["Types"].(Seq)[0]
			t2 := want(b, F{"Comment": a(b, "d")})["Types"].(Seq)[0].(F)
			t2["Name"] = a(b, "U")
			return F{"Types": Seq{t1, t2}}
		})
	}
	// blocks
	type blk struct {
		k, inner string
		f        func(b *B) F
	}
	for _, k := range []blk{
		{"Struct", "$f String", func(b *B) F { return F{"Fields": Seq{b.full("StructFieldDef", str(a(b, "f")))}} }},
		{"Enum", "$f", func(b *B) F { return F{"Elements": Seq{b.full("EnumElementDef", F{"Symbol": a(b, "f")})}} }},
		{"Union", "$f String", func(b *B) F { return F{"Variants": Seq{b.full("UnionVariantDef", str(a(b, "f")))}} }},
	} {
		k := k
		want := func(b *B, f F) F {
			for n, v := range k.f(b) {
				f[n] = v
			}
			f["Type"] = k.k
			return F{"Types": Seq{b.wantType(a(b, "T"), f)}}
		}
		annos := func(b *B) M { return M{b.src("x_", a(b, "k")), a(b, "v"), b.src("x_", a(b, "l")), ""} }
		add(k.k, "type $T "+k.k+" {\n  "+k.inner+"\n}\n", func(b *B) F { return want(b, F{}) })
		add(k.k+" with semicolons", "type $T "+k.k+" {\n  "+k.inner+";\n};\n", func(b *B) F { return want(b, F{}) })
		add("comments on "+k.k, "//$a\n// $b\ntype $T "+k.k+" { //$c\n  "+k.inner+"\n}\n", func(b *B) F {
			return want(b, F{"Comment": b.src(a(b, "a"), " ", a(b, "b"), " ", a(b, "c"))})
		})
		add("annotations before "+k.k, "type $T "+k.k+" (x_$k=\"$v\", x_$l) {\n  "+k.inner+"\n}\n", func(b *B) F { return want(b, F{"Annotations": annos(b)}) })
		add("annotations after "+k.k, "type $T "+k.k+" {\n  "+k.inner+"\n} (x_$k=\"$v\", x_$l)\n", func(b *B) F { return want(b, F{"Annotations": annos(b)}) })
		add("type after "+k.k, "type $T "+k.k+" {\n  "+k.inner+"\n}\n//$c\ntype $U Bool\n", func(b *B) F {
			w := want(b, F{})
			w["Types"] = append(w["Types"].(Seq), b.wantType(a(b, "U"), F{"Type": "Bool", "Comment": a(b, "c")}))
			return w
		})
	}
	add("empty Struct", "type $T Struct {\n}\n", func(b *B) F { return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Struct"})}} })
	add("Struct without a block", "type $T Struct\n", func(b *B) F { return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Struct"})}} })
	// fields, elements and variants
	fields := func(b *B, fs ...interface{}) F {
		return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Struct", "Fields": Seq(fs)})}}
	}
	field := func(b *B, n string, f F) F { return b.full("StructFieldDef", f.with("Name", a(b, n))) }
	for _, k := range []struct {
		n, t string
		f    func(b *B) F
	}{
		{"no remarks", "$f String\n", func(b *B) F { return F{} }},
		{"semicolon", "$f String ; \n", func(b *B) F { return F{} }},
		{"leading comment", "//$a \n $f String\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"two leading comments", "//$a \n // $b\n $f String\n", func(b *B) F { return F{"Comment": b.src(a(b, "a"), " ", a(b, "b"))} }},
		{"trailing comment", "$f String //$a\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"semicolon and trailing comment", "$f String; //$a\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"comments on both sides", "//$a \n $f String // $b\n", func(b *B) F { return F{"Comment": b.src(a(b, "a"), " ", a(b, "b"))} }},
		{"required", "$f String (required)\n", func(b *B) F { return F{"Required": true} }},
		{"required with comments", "//$a\n$f String (required) // $b\n", func(b *B) F {
			return F{"Required": true, "Comment": b.src(a(b, "a"), " ", a(b, "b"))}
		}},
		{"annotations", "$f String (x_$k, x_$l=\"$v\")\n", func(b *B) F {
			return F{"Annotations": M{b.src("x_", a(b, "k")), "", b.src("x_", a(b, "l")), a(b, "v")}}
		}},
		{"default", "$f String (default=\"$v\")\n", func(b *B) F { return F{"Default": D{a(b, "v")}} }},
		{"every option", "$f String (required, pattern=\"$p\", minsize=1, maxsize=9, reference=Bool, x_$l=\"$v\") // $c\n", func(b *B) F {
			return F{"Required": true, "Pattern": a(b, "p"), "MinSize": D{1}, "MaxSize": D{9}, "Reference": "Bool", "Annotations": M{b.src("x_", a(b, "l")), a(b, "v")}, "Comment": a(b, "c")}
		}},
		{"options in other letters", "$f String (Required, minSize=1, maxSize=9)\n", func(b *B) F { return F{"Required": true, "MinSize": D{1}, "MaxSize": D{9}} }},
		{"values", "$f String (values=[\"$p\",\"$q\"], required)\n", func(b *B) F { return F{"Values": Seq{a(b, "p"), a(b, "q")}, "Required": true} }},
	} {
		k := k
		add("field, "+k.n, "type $T Struct {\n"+k.t+"}\n", func(b *B) F { return fields(b, field(b, "f", k.f(b).with("Type", "String"))) })
		add("field before and after another, "+k.n, "type $T Struct {\n$g Int32\n"+k.t+"$h Bool\n}\n", func(b *B) F {
			return fields(b, field(b, "g", F{"Type": "Int32"}), field(b, "f", k.f(b).with("Type", "String")), field(b, "h", F{"Type": "Bool"}))
		})
	}
	// field types
	for _, k := range sadlCases() {
		k := k
		add("field of "+k.name, "type Str String\ntype Other Struct {\n  of String\n}\ntype $T Struct {\n  $f "+k.tmpl+" // $c\n}\n", func(b *B) F {
			return F{"Types": Seq(append(b.wantOthers(), b.wantType(a(b, "T"), F{"Type": "Struct", "Fields": Seq{field(b, "f", k.want(b).with("Comment", a(b, "c")))}})))}
		})
	}
	inl := "{ //$d\n $g String (required) //$e\n//$h\n $i Int32\n }"
	inlWant := func(b *B) Seq {
		return Seq{field(b, "g", F{"Type": "String", "Required": true, "Comment": a(b, "e")}), field(b, "i", F{"Type": "Int32", "Comment": a(b, "h")})}
	}
	add("inline Struct", "type $T Struct {\n  $f Struct "+inl+"\n  $z Bool\n}\n", func(b *B) F {
		return fields(b, field(b, "f", F{"Type": "Struct", "Fields": inlWant(b), "Comment": a(b, "d")}), field(b, "z", F{"Type": "Bool"}))
	})
	add("inline Struct with remarks", "type $T Struct {\n//$a\n  $f Struct "+inl+" (required, x_$k=\"$v\") //$b\n  $z Bool\n}\n", func(b *B) F {
		return fields(b, field(b, "f", F{"Type": "Struct", "Fields": inlWant(b), "Comment": b.src(a(b, "a"), " ", a(b, "d"), " ", a(b, "b")), "Required": true,
			"Annotations": M{b.src("x_", a(b, "k")), a(b, "v")}}), field(b, "z", F{"Type": "Bool"}))
	})
	add("inline Struct with options before it", "type $T Struct {\n  $f Struct (x_$k=\"$v\") "+inl+"\n  $z Bool\n}\n", func(b *B) F {
		return fields(b, field(b, "f", F{"Type": "Struct", "Fields": inlWant(b), "Comment": a(b, "d"), "Annotations": M{b.src("x_", a(b, "k")), a(b, "v")}}), field(b, "z", F{"Type": "Bool"}))
	})
	add("Struct inside an inline Struct", "type $T Struct {\n  $f Struct {\n $y Struct "+inl+"\n $w Bool\n}\n  $z Bool\n}\n", func(b *B) F {
		return fields(b, field(b, "f", F{"Type": "Struct", "Fields": Seq{field(b, "y", F{"Type": "Struct", "Fields": inlWant(b), "Comment": a(b, "d")}), field(b, "w", F{"Type": "Bool"})}}), field(b, "z", F{"Type": "Bool"}))
	})
	el := func(b *B, n string, f F) F { return b.full("EnumElementDef", f.with("Symbol", a(b, n))) }
	add("inline Enum", "type $T Struct {\n  $f Enum {\n $g\n $h // $c\n } (required) //$d\n  $z Bool\n}\n", func(b *B) F {
		return fields(b, field(b, "f", F{"Type": "Enum", "Elements": Seq{el(b, "g", F{}), el(b, "h", F{"Comment": a(b, "c")})}, "Comment": a(b, "d"), "Required": true}), field(b, "z", F{"Type": "Bool"}))
	})
	// elements
	for _, k := range []struct {
		n, t string
		f    func(b *B) F
	}{
		{"no remarks", "$f\n", func(b *B) F { return F{} }},
		{"comma", "$f,\n", func(b *B) F { return F{} }},
		{"semicolon", "$f;\n", func(b *B) F { return F{} }},
		{"leading comment", "//$a \n $f\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"two leading comments", "//$a \n // $b\n $f\n", func(b *B) F { return F{"Comment": b.src(a(b, "a"), " ", a(b, "b"))} }},
		{"trailing comment", "$f //$a\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"comma and trailing comment", "$f, //$a\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"semicolon and trailing comment", "$f; //$a\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"comments on both sides", "//$a \n $f // $b\n", func(b *B) F { return F{"Comment": b.src(a(b, "a"), " ", a(b, "b"))} }},
		{"annotations", "$f (x_$k, x_$l=\"$v\")\n", func(b *B) F {
			return F{"Annotations": M{b.src("x_", a(b, "k")), "", b.src("x_", a(b, "l")), a(b, "v")}}
		}},
		{"annotations and comments", "//$a\n$f (x_$k=\"$v\") // $b\n", func(b *B) F {
			return F{"Annotations": M{b.src("x_", a(b, "k")), a(b, "v")}, "Comment": b.src(a(b, "a"), " ", a(b, "b"))}
		}},
	} {
		k := k
		add("element, "+k.n, "type $T Enum {\n"+k.t+"}\n", func(b *B) F {
			return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Enum", "Elements": Seq{el(b, "f", k.f(b))}})}}
		})
		add("element before and after another, "+k.n, "type $T Enum {\n$g\n"+k.t+"$h\n}\n", func(b *B) F {
			return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Enum", "Elements": Seq{el(b, "g", F{}), el(b, "f", k.f(b)), el(b, "h", F{})}})}}
		})
	}
	add("elements on one line", "type $T Enum {\n$g, $h, $i\n}\n", func(b *B) F {
		return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Enum", "Elements": Seq{el(b, "g", F{}), el(b, "h", F{}), el(b, "i", F{})}})}}
	})
	add("Enum on one line", "type $T Enum { $g, $h }\n", func(b *B) F {
		return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Enum", "Elements": Seq{el(b, "g", F{}), el(b, "h", F{})}})}}
	})
	// variants
	vd := func(b *B, n string, f F) F { return b.full("UnionVariantDef", f.with("Name", a(b, n))) }
	for _, k := range []struct {
		n, t string
		f    func(b *B) F
	}{
		{"no remarks", "$f String\n", func(b *B) F { return F{} }},
		{"leading comment", "//$a \n $f String\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"trailing comment", "$f String //$a\n", func(b *B) F { return F{"Comment": a(b, "a")} }},
		{"comments on both sides", "//$a \n $f String // $b\n", func(b *B) F { return F{"Comment": b.src(a(b, "a"), " ", a(b, "b"))} }},
		{"annotations", "$f String (x_$k, x_$l=\"$v\")\n", func(b *B) F {
			return F{"Annotations": M{b.src("x_", a(b, "k")), "", b.src("x_", a(b, "l")), a(b, "v")}}
		}},
		{"constraints", "$f String (pattern=\"$p\", minsize=1, maxsize=9)\n", func(b *B) F { return F{"Pattern": a(b, "p"), "MinSize": D{1}, "MaxSize": D{9}} }},
		{"values", "$f String (values=[\"$p\",\"$q\"])\n", func(b *B) F { return F{"Values": Seq{a(b, "p"), a(b, "q")}} }},
	} {
		k := k
		add("variant, "+k.n, "type $T Union {\n"+k.t+"}\n", func(b *B) F {
			return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Union", "Variants": Seq{vd(b, "f", k.f(b).with("Type", "String"))}})}}
		})
		add("variant before and after another, "+k.n, "type $T Union {\n$g Int32\n"+k.t+"$h Bool\n}\n", func(b *B) F {
			return F{"Types": Seq{b.wantType(a(b, "T"), F{"Type": "Union", "Variants": Seq{vd(b, "g", F{"Type": "Int32"}), vd(b, "f", k.f(b).with("Type", "String")), vd(b, "h", F{"Type": "Bool"})}})}}
		})
	}
	for _, k := range sadlCases() {
		k := k
		add("variant of "+k.name, "type Str String\ntype Other Struct {\n  of String\n}\ntype $T Union {\n  $f "+k.tmpl+" // $c\n}\n", func(b *B) F {
			return F{"Types": Seq(append(b.wantOthers(), b.wantType(a(b, "T"), F{"Type": "Union", "Variants": Seq{vd(b, "f", k.want(b).with("Comment", a(b, "c")))}})))}
		})
	}
	add("variant of a declared type", sadlOthers+"type $T Union {\n  $f Other\n $g Str\n}\n", func(b *B) F {
		return F{"Types": Seq(append(b.wantOthers(), b.wantType(a(b, "T"), F{"Type": "Union", "Variants": Seq{vd(b, "f", F{"Type": "Other"}), vd(b, "g", F{"Type": "Str"})}})))}
	})
	add("field of a declared type", sadlOthers+"type $T Struct {\n  $f Other (required)\n $g Str\n}\n", func(b *B) F {
		return F{"Types": Seq(append(b.wantOthers(), b.wantType(a(b, "T"), F{"Type": "Struct", "Fields": Seq{field(b, "f", F{"Type": "Other", "Required": true}), field(b, "g", F{"Type": "Str"})}})))}
	})
	add("Union of declared types", sadlOthers+"type $T Union<Other,Str>\n", func(b *B) F {
		return F{"Types": Seq(append(b.wantOthers(), b.wantType(a(b, "T"), F{"Type": "Union", "Variants": Seq{b.full("UnionVariantDef", F{"Name": "Other", "Type": "Other"}), b.full("UnionVariantDef", F{"Name": "Str", "Type": "Str"})}})))}
	})
	// actions
	x := func(b *B, n string) *Term { return b.src("x_", a(b, n)) }
	param := func(b *B, n string, f F) F { return b.full("HttpParamSpec", f.with("Name", a(b, n))) }
	act := func(b *B, f F) F {
		d := b.full("HttpDef", F{"Name": a(b, "n"), "Method": "GET", "Path": "/p"})
		for k, v := range f {
			d[k] = v
		}
		return F{"Http": Seq{d}}
	}
	ok200 := func(b *B, outs ...interface{}) D {
		return D{b.full("HttpExpectedSpec", F{"Status": 200, "Outputs": Seq(outs)})}
	}
	for _, m := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		m := m
		for _, w := range []string{m, strings.ToLower(m)} {
			add("http "+w, "http "+w+" \"/p\" (operation=$n) {\n  expect 200 {\n  }\n}\n", func(b *B) F { return act(b, F{"Method": m, "Expected": ok200(b)}) })
		}
		add("http "+m+" without a name", "http "+m+" \"/a/{$p}/$q/{$r}?x={$y}\" {\n$p String\n$r String\n$y String\n  expect 200 {\n  }\n}\n", func(b *B) F {
			return act(b, F{"Method": m, "Name": b.src(strings.ToLower(m), b.capital(a(b, "q"))), "Resource": a(b, "q"), "Path": b.sadl("/a/{$p}/$q/{$r}?x={$y}"), "Expected": ok200(b), "Inputs": Seq{
				param(b, "p", F{"Type": "String", "Path": true, "Required": true}), param(b, "r", F{"Type": "String", "Path": true, "Required": true}), param(b, "y", F{"Type": "String", "Query": "x"})}})
		})
	}
	add("http without a name, with a query", "http GET \"/$q?x={$y}\" {\n$y String\n  expect 200 {\n  }\n}\n", func(b *B) F {
		return act(b, F{"Name": b.src("get", b.capital(a(b, "q"))), "Resource": a(b, "q"), "Path": b.sadl("/$q?x={$y}"), "Expected": ok200(b), "Inputs": Seq{param(b, "y", F{"Type": "String", "Query": "x"})}})
	})
	add("http action", "http GET \"/p\" (action=$n) {\n  expect 200 {\n  }\n}\n", func(b *B) F { return act(b, F{"Expected": ok200(b)}) })
	add("http resource", "http GET \"/p\" (operation=$n, resource=$r) {\n  expect 200 {\n  }\n}\n", func(b *B) F { return act(b, F{"Resource": a(b, "r"), "Expected": ok200(b)}) })
	add("http resource without a name", "http GET \"/p\" (resource=$r) {\n  expect 200 {\n  }\n}\n", func(b *B) F {
		return act(b, F{"Name": b.src("get", b.capital(a(b, "r"))), "Resource": a(b, "r"), "Expected": ok200(b)})
	})
	add("remarks on http", "//$a\n//$b\nhttp GET \"/p\" (operation=$n, x_$k=\"$v\", x_$l) { //$c\n  expect 200 {\n  }\n} //$d\n", func(b *B) F {
		return act(b, F{"Comment": b.src(a(b, "a"), " ", a(b, "b"), " ", a(b, "c"), " ", a(b, "d")), "Annotations": M{x(b, "k"), a(b, "v"), x(b, "l"), ""}, "Expected": ok200(b)})
	})
	add("http without expect", "http GET \"/p\" (operation=$n) {\n}\n", func(b *B) F { return act(b, F{}) })
	add("two http actions", "//$a\nhttp GET \"/p\" (operation=$n) {\n  expect 200 {\n  }\n}\n//$b\nhttp PUT \"/q\" (operation=$m) {\n  expect 200 {\n  }\n}\ntype $T Bool\n", func(b *B) F {
		return F{"Http": Seq{b.full("HttpDef", F{"Name": a(b, "n"), "Method": "GET", "Path": "/p", "Expected": ok200(b), "Comment": a(b, "a")}),
			b.full("HttpDef", F{"Name": a(b, "m"), "Method": "PUT", "Path": "/q", "Expected": ok200(b), "Comment": a(b, "b")})}, "Types": Seq{b.wantType(a(b, "T"), F{"Type": "Bool"})}}
	})
	// inputs
	for _, k := range []struct {
		n, path, t string
		f          func(b *B) F
	}{
		{"path", "/a/{$i}", "$i String\n", func(b *B) F { return F{"Path": true, "Required": true} }},
		{"path in the middle", "/a/{$i}/b?z={$z}", "$i String\n", func(b *B) F { return F{"Path": true, "Required": true} }},
		{"path, said to be required", "/a/{$i}", "$i String (required)\n", func(b *B) F { return F{"Path": true, "Required": true} }},
		{"query", "/a?$q={$i}", "$i String\n", func(b *B) F { return F{"Query": a(b, "q")} }},
		{"first query", "/a?$q={$i}&$r={$s}", "$i String\n", func(b *B) F { return F{"Query": a(b, "q")} }},
		{"second query", "/a?$r={$s}&$q={$i}", "$i String\n", func(b *B) F { return F{"Query": a(b, "q")} }},
		{"query of its own name", "/a?$i={$i}", "$i String\n", func(b *B) F { return F{"Query": a(b, "i")} }},
		{"required query", "/a?$q={$i}", "$i String (required)\n", func(b *B) F { return F{"Query": a(b, "q"), "Required": true} }},
		{"query with a default", "/a?$q={$i}", "$i String (default=\"$v\")\n", func(b *B) F { return F{"Query": a(b, "q"), "Default": D{a(b, "v")}} }},
		{"query with remarks", "/a?$q={$i}", "//$a\n$i String (x_$k=\"$v\", x_$l) //$b\n", func(b *B) F {
			return F{"Query": a(b, "q"), "Comment": b.src(a(b, "a"), " ", a(b, "b")), "Annotations": M{x(b, "k"), a(b, "v"), x(b, "l"), ""}}
		}},
		{"query with two comments before it", "/a?$q={$i}", "//$a\n//$b\n$i String;\n", func(b *B) F { return F{"Query": a(b, "q"), "Comment": b.src(a(b, "a"), " ", a(b, "b"))} }},
		{"header", "/a", "$i String (header=\"$h\")\n", func(b *B) F { return F{"Header": a(b, "h")} }},
		{"required header", "/a", "$i String (header=\"$h\", required)\n", func(b *B) F { return F{"Header": a(b, "h"), "Required": true} }},
		{"header with a default", "/a", "$i String (header=\"$h\", default=\"$v\")\n", func(b *B) F { return F{"Header": a(b, "h"), "Default": D{a(b, "v")}} }},
		{"header of a path with its own name", "/a/$i", "$i String (header=\"$h\")\n", func(b *B) F { return F{"Header": a(b, "h")} }},
		{"body", "/a", "$i String\n", func(b *B) F { return F{"Required": true} }},
		{"body beside a query", "/a?$q={$z}", "$i String // $c\n", func(b *B) F { return F{"Required": true, "Comment": a(b, "c")} }},
	} {
		k := k
		add("input, "+k.n, "http PUT \""+k.path+"\" (operation=$n) {\n"+k.t+"  expect 200 {\n  }\n}\n", func(b *B) F {
			return act(b, F{"Method": "PUT", "Path": b.sadl(k.path), "Expected": ok200(b), "Inputs": Seq{param(b, "i", k.f(b).with("Type", "String"))}})
		})
		add("input before and after another, "+k.n, "http PUT \""+k.path+"\" (operation=$n) {\n$g Int32 (header=\"$x\") //$m\n"+k.t+"//$o\n$h Bool (header=\"$y\")\n  expect 200 {\n  }\n}\n", func(b *B) F {
			return act(b, F{"Method": "PUT", "Path": b.sadl(k.path), "Expected": ok200(b), "Inputs": Seq{param(b, "g", F{"Type": "Int32", "Header": a(b, "x"), "Comment": a(b, "m")}),
				param(b, "i", k.f(b).with("Type", "String")), param(b, "h", F{"Type": "Bool", "Header": a(b, "y"), "Comment": a(b, "o")})}})
		})
	}
	for _, k := range []struct {
		n, t string
		f    func(b *B) F
	}{
		{"of a declared type", "Str", func(b *B) F { return F{"Type": "Str"} }},
		{"of an Array", "Array<Other>", func(b *B) F { return F{"Type": "Array", "Items": "Other"} }},
		{"of a Map", "Map<String,Other>", func(b *B) F { return F{"Type": "Map", "Keys": "String", "Items": "Other"} }},
		{"of an untyped Array", "Array", func(b *B) F { return F{"Type": "Array", "Items": "Any"} }},
		{"of an untyped Map", "Map", func(b *B) F { return F{"Type": "Map", "Keys": "String", "Items": "Any"} }},
		{"of a UnitValue", "UnitValue<Decimal,Str>", func(b *B) F { return F{"Type": "UnitValue", "Value": "Decimal", "Unit": "Str"} }},
		{"of an inline Struct", "Struct {\n $f String\n }", func(b *B) F { return F{"Type": "Struct", "Fields": Seq{field(b, "f", F{"Type": "String"})}} }},
		{"of an inline Enum", "Enum {\n $f\n }", func(b *B) F { return F{"Type": "Enum", "Elements": Seq{el(b, "f", F{})}} }},
	} {
		k := k
		add("body "+k.n, sadlOthers+"http PUT \"/a\" (operation=$n) {\n$i "+k.t+"\n  expect 200 {\n$j "+k.t+"\n  }\n}\n", func(b *B) F {
			return act(b, F{"Method": "PUT", "Path": "/a", "Expected": ok200(b, param(b, "j", k.f(b).with("Required", true))), "Inputs": Seq{param(b, "i", k.f(b).with("Required", true))}}).with("Types", Seq(b.wantOthers()))
		})
	}
	// outcomes
	outcome := func(n, t string, f func(b *B) F) {
		add("expect "+n, sadlOthers+"http GET \"/p\" (operation=$n) {\n"+t+"}\n", func(b *B) F {
			return act(b, f(b)).with("Types", Seq(b.wantOthers()))
		})
	}
	exp := func(b *B, f F) F { return F{"Expected": D{b.full("HttpExpectedSpec", f)}} }
	outcome("any status", "expect !299 {\n}\n", func(b *B) F { return exp(b, F{"Status": b.code(299)}) })
	outcome("without a block", "expect 204\n", func(b *B) F { return exp(b, F{"Status": 204}) })
	outcome("without a block, with remarks", "//$a\nexpect 204 (x_$k=\"$v\") //$b\n", func(b *B) F {
		return exp(b, F{"Status": 204, "Comment": b.src(a(b, "a"), " ", a(b, "b")), "Annotations": M{x(b, "k"), a(b, "v")}})
	})
	outcome("with a type", "expect 200 Other\n", func(b *B) F {
		return exp(b, F{"Status": 200, "Outputs": Seq{b.full("HttpParamSpec", F{"Name": "entity", "Type": "Other", "Required": true})}})
	})
	outcome("with a type and remarks", "//$a\nexpect 200 (x_$k=\"$v\") Other //$b\n", func(b *B) F {
		return exp(b, F{"Status": 200, "Comment": b.src(a(b, "a"), " ", a(b, "b")), "Annotations": M{x(b, "k"), a(b, "v")}, "Outputs": Seq{b.full("HttpParamSpec", F{"Name": "entity", "Type": "Other", "Required": true})}})
	})
	outcome("with a body", "expect 200 {\n $o Other\n}\n", func(b *B) F {
		return exp(b, F{"Status": 200, "Outputs": Seq{param(b, "o", F{"Type": "Other", "Required": true})}})
	})
	outcome("with remarks", "//$a\nexpect 200 (x_$k=\"$v\", x_$l) { //$b\n //$c\n $o Other (x_$m) //$d\n} //$e\n", func(b *B) F {
		return exp(b, F{"Status": 200, "Comment": b.src(a(b, "a"), " ", a(b, "b"), " ", a(b, "e")), "Annotations": M{x(b, "k"), a(b, "v"), x(b, "l"), ""},
			"Outputs": Seq{param(b, "o", F{"Type": "Other", "Required": true, "Comment": b.src(a(b, "c"), " ", a(b, "d")), "Annotations": M{x(b, "m"), ""}})}})
	})
	outcome("with headers", "expect 200 {\n $h Str (header=\"$g\")\n $o Other\n $i Int32 (header=\"$j\", required)\n}\n", func(b *B) F {
		return exp(b, F{"Status": 200, "Outputs": Seq{param(b, "h", F{"Type": "Str", "Header": a(b, "g")}), param(b, "o", F{"Type": "Other", "Required": true}), param(b, "i", F{"Type": "Int32", "Header": a(b, "j"), "Required": true})}})
	})
	for _, st := range []string{"204", "304"} {
		st := st
		outcome(st+" with a header", "expect "+st+" {\n $h Str (header=\"$g\")\n}\n", func(b *B) F {
			n, _ := strconv.Atoi(st)
			return exp(b, F{"Status": n, "Outputs": Seq{param(b, "h", F{"Type": "Str", "Header": a(b, "g")})}})
		})
	}
	exc := func(b *B, f F) F { return b.full("HttpExceptionSpec", f) }
	outcome("and except", "expect 204 {\n}\nexcept !404 Other\n", func(b *B) F {
		return exp(b, F{"Status": 204}).with("Exceptions", Seq{exc(b, F{"Status": b.code(404), "Type": "Other"})})
	})
	outcome("and except without a status", "expect 204 {\n}\nexcept Other\n", func(b *B) F { return exp(b, F{"Status": 204}).with("Exceptions", Seq{exc(b, F{"Type": "Other"})}) })
	outcome("and two exceptions with remarks", "//$a\nexcept !404 Other (x_$k=\"$v\", x_$l); //$b\nexpect 204 {\n}\n//$c\n//$d\nexcept !500 Str\n", func(b *B) F {
		return exp(b, F{"Status": 204}).with("Exceptions", Seq{exc(b, F{"Status": b.code(404), "Type": "Other", "Comment": b.src(a(b, "a"), " ", a(b, "b")), "Annotations": M{x(b, "k"), a(b, "v"), x(b, "l"), ""}}),
			exc(b, F{"Status": b.code(500), "Type": "Str", "Comment": b.src(a(b, "c"), " ", a(b, "d"))})})
	})
	// operations
	oper := func(n, t string, f func(b *B) F) {
		add("operation "+n, sadlOthers+t, func(b *B) F {
			return F{"Types": Seq(b.wantOthers()), "Operations": Seq{b.full("OperationDef", f(b).with("Name", a(b, "n")))}}
		})
	}
	oin := func(b *B, n string, f F) F { return b.full("OperationInput", f.with("Name", a(b, n))) }
	out := func(b *B, n string, f F) F { return b.full("OperationOutput", f.with("Name", a(b, n))) }
	oper("without parts", "operation $n {\n}\n", func(b *B) F { return F{} })
	oper("with remarks", "//$a\n// $b\noperation $n (x_$k=\"$v\", x_$l) {\n}\n", func(b *B) F {
		return F{"Comment": b.src(a(b, "a"), " ", a(b, "b")), "Annotations": M{x(b, "k"), a(b, "v"), x(b, "l"), ""}}
	})
	oper("with inputs", "operation $n {\n inputs {\n $i String\n $j Other (required)\n $k Int32\n }\n}\n", func(b *B) F {
		return F{"Inputs": Seq{oin(b, "i", F{"Type": "String"}), oin(b, "j", F{"Type": "Other", "Required": true}), oin(b, "k", F{"Type": "Int32"})}}
	})
	oper("with outputs", "operation $n {\n outputs {\n $i String\n $j Other\n }\n}\n", func(b *B) F {
		return F{"Outputs": Seq{out(b, "i", F{"Type": "String"}), out(b, "j", F{"Type": "Other"})}}
	})
	oper("with exceptions", "operation $n {\n exceptions {\n Other\n Str\n }\n}\n", func(b *B) F { return F{"Exceptions": Seq{"Other", "Str"}} })
	oper("with empty parts", "operation $n {\n inputs {\n }\n outputs {\n }\n exceptions {\n }\n}\n", func(b *B) F { return F{} })
	oper("with all parts", "operation $n {\n exceptions {\n Other\n }\n outputs {\n $o Str\n }\n inputs {\n $i Str (required)\n }\n}\n", func(b *B) F {
		return F{"Inputs": Seq{oin(b, "i", F{"Type": "Str", "Required": true})}, "Outputs": Seq{out(b, "o", F{"Type": "Str"})}, "Exceptions": Seq{"Other"}}
	})
	oper("with comments", "operation $n {\n inputs { \n//$a\n $i Str //$b\n $j Str (required) // $c\n }\n outputs { \n//$d\n $o Str //$e\n }\n}\n", func(b *B) F {
		return F{"Inputs": Seq{oin(b, "i", F{"Type": "Str", "Comment": b.src(a(b, "a"), " ", a(b, "b"))}), oin(b, "j", F{"Type": "Str", "Required": true, "Comment": a(b, "c")})},
			"Outputs": Seq{out(b, "o", F{"Type": "Str", "Comment": b.src(a(b, "d"), " ", a(b, "e"))})}}
	})
	oper("with annotations of its parts", "operation $n {\n inputs {\n $i Str (required, x_$k=\"$v\")\n }\n outputs {\n $o Str (x_$l) //$c\n }\n}\n", func(b *B) F {
		return F{"Inputs": Seq{oin(b, "i", F{"Type": "Str", "Required": true, "Annotations": M{x(b, "k"), a(b, "v")}})}, "Outputs": Seq{out(b, "o", F{"Type": "Str", "Comment": a(b, "c"), "Annotations": M{x(b, "l"), ""}})}}
	})
	add("two operations", "//$a\noperation $n {\n}\n//$b\noperation $m {\n}\ntype $T Bool\n", func(b *B) F {
		return F{"Operations": Seq{b.full("OperationDef", F{"Name": a(b, "n"), "Comment": a(b, "a")}), b.full("OperationDef", F{"Name": a(b, "m"), "Comment": a(b, "b")})}, "Types": Seq{b.wantType(a(b, "T"), F{"Type": "Bool"})}}
	})
	// examples
	for _, k := range []struct {
		n, t string
		f    func(b *B) interface{}
	}{
		{"text", "\"$s\"", func(b *B) interface{} { return D{a(b, "s")} }},
		{"number", "%n", func(b *B) interface{} { return b.decIs(b.num("n")) }},
		{"true", "true", func(b *B) interface{} { return true }},
		{"false", "false", func(b *B) interface{} { return false }},
		{"null", "null", func(b *B) interface{} { return nil }},
		{"array", "[\"$s\", true,\n %n]", func(b *B) interface{} { return Seq{D{a(b, "s")}, true, b.decIs(b.num("n"))} }},
		{"empty array", "[]", func(b *B) interface{} { return emptyList }},
		{"object", "{\n \"$k\": \"$s\",\n \"$l\": %n\n}", func(b *B) interface{} { return M{a(b, "k"), D{a(b, "s")}, a(b, "l"), b.decIs(b.num("n"))} }},
		{"empty object", "{}", func(b *B) interface{} { return M{} }},
		{"nested", "{\n \"$k\": [\"$s\", {\"$m\": false}],\n \"$l\": {\"$o\": []}\n}", func(b *B) interface{} {
			return M{a(b, "k"), Seq{D{a(b, "s")}, M{a(b, "m"), false}}, a(b, "l"), M{a(b, "o"), emptyList}}
		}},
	} {
		k := k
		add("example, "+k.n, "type T Any\n//$c\n//$d\nexample T (name=$e) "+k.t+"\n//$f\ntype $U Bool\n", func(b *B) F {
			return F{"Types": Seq{b.wantType("T", F{"Type": "Any"}), b.wantType(a(b, "U"), F{"Type": "Bool", "Comment": a(b, "f")})},
				"Examples": Seq{b.full("ExampleDef", F{"Target": "T", "Name": a(b, "e"), "Example": k.f(b), "Comment": b.src(a(b, "c"), " ", a(b, "d"))})}}
		})
	}
	add("example without a name", "type T String\nexample T \"$s\"\nexample T (name=$e) \"$t\"\n", func(b *B) F {
		return F{"Types": Seq{b.wantType("T", F{"Type": "String"})}, "Examples": Seq{b.full("ExampleDef", F{"Target": "T", "Example": D{a(b, "s")}}), b.full("ExampleDef", F{"Target": "T", "Name": a(b, "e"), "Example": D{a(b, "t")}})}}
	})
	add("example of a field", "type T Struct {\n  f String\n}\nexample T.f \"$s\"\n", func(b *B) F {
		return F{"Types": Seq{b.wantType("T", F{"Type": "Struct", "Fields": Seq{b.full("StructFieldDef", F{"Name": "f", "Type": "String"})}})}, "Examples": Seq{b.full("ExampleDef", F{"Target": "T.f", "Example": D{a(b, "s")}})}}
	})
	add("examples of a request and its response", "http GET \"/p?q={q}\" (operation=getIt) {\n q String\n expect 200 {\n it String\n }\n}\nexample GetItRequest (name=$e) {\n \"q\": \"$s\"\n}\nexample GetItResponse (name=$e) {\n \"it\": \"$t\"\n}\n", func(b *B) F {
		return F{"Http": Seq{b.full("HttpDef", F{"Name": "getIt", "Method": "GET", "Path": "/p?q={q}", "Inputs": Seq{b.full("HttpParamSpec", F{"Name": "q", "Type": "String", "Query": "q"})},
			"Expected": ok200(b, b.full("HttpParamSpec", F{"Name": "it", "Type": "String", "Required": true}))})},
			"Examples": Seq{b.full("ExampleDef", F{"Target": "GetItRequest", "Name": a(b, "e"), "Example": M{"q", D{a(b, "s")}}}), b.full("ExampleDef", F{"Target": "GetItResponse", "Name": a(b, "e"), "Example": M{"it", D{a(b, "t")}}})}}
	})
	return cs
}

func runC31(c *C) {
	for _, k := range sadlCases() {
		k := k
		c.check("type "+k.name, &Scenario{follow: true}, func(b *B, o *O) {
			rs := b.parse(b.sadl(sadlOthers + "type $T " + k.tmpl + "\n"))
			o.matches(rs, "the model", b.wantModel(F{"Types": Seq(append(b.wantOthers(), b.wantType(b.atom("T"), k.want(b))))}))
		})
	}
	for _, k := range sadlDocs() {
		k := k
		for _, l := range sadlLayouts {
			l := l
			c.check(k.name+l.name, &Scenario{follow: true}, func(b *B, o *O) {
				o.matches(b.parse(b.sadl(l.f(k.text))), "the model", b.wantModel(k.want(b)))
			})
		}
	}
	// the configuration
	for _, t := range []struct{ n, text string }{{"named text", "name $n\nnamespace $s\ntype $T Bool\n"}, {"unnamed text", "type $T Bool\n"}} {
		t := t
		for mask := 0; mask < 4; mask++ {
			mask := mask
			c.check(fmt.Sprintf("%s, configuration with name: %v, namespace: %v", t.n, mask&1 != 0, mask&2 != 0), &Scenario{follow: true}, func(b *B, o *O) {
				f := F{"Types": Seq{b.wantType(b.atom("T"), F{"Type": "Bool"})}}
				if t.n == "named text" {
					f["Name"], f["Namespace"] = b.atom("n"), b.atom("s")
				}
				kv := []*Term{}
				if mask&1 != 0 {
					kv = append(kv, b.e.T.Str("name"), b.any(tString, b.atom("cn")))
					f["Name"] = b.atom("cn")
				}
				if mask&2 != 0 {
					kv = append(kv, b.e.T.Str("namespace"), b.any(tString, b.atom("cs")))
					f["Namespace"] = b.atom("cs")
				}
				o.matches(b.call(nil, "", "ParseSadlString", b.sadl(t.text), b.config(kv...), b.e.T.Nil()), "the model", b.wantModel(f))
			})
		}
	}
	// files
	files := func(m map[string]string) *Scenario {
		sc := &Scenario{follow: true}
		read := func(e *Engine, c *callCtx, a []*Term) []Ret {
			n, _ := a[0].isStr()
			if text, ok := m[n]; ok {
				return one(c, e.T.Tuple((&B{e: e}).sadl(text), e.T.Nil()))
			}
			return one(c, e.T.Tuple(e.T.Nil(), e.T.Err(e.T.Str("no such file"))))
		}
		sc.calls = map[string]model{"io/ioutil.ReadFile": read, "os.ReadFile": read}
		return sc
	}
	for _, k := range []struct{ path, name string }{{"/dir/the.sadl", "the"}, {"the.sadl", "the"}, {"a.b/the", "the"}, {"dir/a.b.sadl", "a.b"}} {
		k := k
		c.check("file "+k.path, files(map[string]string{k.path: "type $T Bool\n"}), func(b *B, o *O) {
			o.matches(b.call(nil, "", "ParseSadlFile", b.e.T.Str(k.path), b.config(), b.e.T.Nil()), "the model", b.wantModel(F{"Name": k.name, "Types": Seq{b.wantType(b.atom("T"), F{"Type": "Bool"})}}))
		})
		c.check("file "+k.path+" with a name of its own", files(map[string]string{k.path: "name $n\ntype $T Bool\n"}), func(b *B, o *O) {
			o.matches(b.call(nil, "", "ParseSadlFile", b.e.T.Str(k.path), b.config(), b.e.T.Nil()), "the model", b.wantModel(F{"Name": b.atom("n"), "Types": Seq{b.wantType(b.atom("T"), F{"Type": "Bool"})}}))
		})
	}
	c.check("file that cannot be read", files(nil), func(b *B, o *O) {
		o.reject(b.call(nil, "", "ParseSadlFile", b.e.T.Str("a.sadl"), b.config(), b.e.T.Nil()), "a missing file")
	})
	inc := "name $m\nnamespace $o\n//$e\ntype $U String (x_$k=\"$v\") //$f\ntype $V Bool\nhttp GET \"/p\" (operation=$h) {\n expect 204\n}\noperation $p {\n}\n"
	c.check("included file", files(map[string]string{"dir/inc.sadl": inc}), func(b *B, o *O) {
		a := b.atom
		mark := M{"x_include", "dir/inc.sadl"}
		o.matches(b.parse(b.sadl("//$c\ninclude \"dir/inc.sadl\"\nname $n\n//$d\ntype $T Bool\n")), "the model", b.wantModel(F{"Name": a("n"), "Comment": a("c"), "Types": Seq{
			b.wantType(a("U"), F{"Type": "String", "Comment": b.src(a("e"), " ", a("f")), "Annotations": M{b.src("x_", a("k")), a("v"), "x_include", "dir/inc.sadl"}}),
			b.wantType(a("V"), F{"Type": "Bool", "Annotations": mark}),
			b.wantType(a("T"), F{"Type": "Bool", "Comment": a("d")})},
			"Http":       Seq{b.full("HttpDef", F{"Name": a("h"), "Method": "GET", "Path": "/p", "Expected": D{b.full("HttpExpectedSpec", F{"Status": 204})}, "Annotations": mark})},
			"Operations": Seq{b.full("OperationDef", F{"Name": a("p"), "Annotations": mark})}}))
	})
	c.check("file that includes one which includes another", files(map[string]string{"a": "include \"b\"\ntype $U Bool\n", "b": "type $V Bool\n"}), func(b *B, o *O) {
		a := b.atom
		o.matches(b.parse(b.sadl("include \"a\"\ntype $T Bool\n")), "the model", b.wantModel(F{"Types": Seq{
			b.wantType(a("V"), F{"Type": "Bool", "Annotations": NotNil{}}), b.wantType(a("U"), F{"Type": "Bool", "Annotations": M{"x_include", "a"}}), b.wantType(a("T"), F{"Type": "Bool"})}}))
	})
	c.check("type of the including and the included file", files(map[string]string{"a": "type $T Bool\n"}), func(b *B, o *O) {
		o.reject(b.parse(b.sadl("type $T Bool\ninclude \"a\"\n")), "a type declared twice")
	})
	c.check("type of the included and then the including file", files(map[string]string{"a": "type $T Bool\n"}), func(b *B, o *O) {
		o.reject(b.parse(b.sadl("include \"a\"\ntype $T Bool\n")), "a type declared twice")
	})
	c.check("type that uses one of an included file", files(map[string]string{"a": "type $U Bool\n"}), func(b *B, o *O) {
		a := b.atom
		o.matches(b.parse(b.sadl("include \"a\"\ntype $T Struct {\n $f $U\n}\n")), "the model", b.wantModel(F{"Types": Seq{
			b.wantType(a("U"), F{"Type": "Bool", "Annotations": M{"x_include", "a"}}), b.wantType(a("T"), F{"Type": "Struct", "Fields": Seq{b.full("StructFieldDef", F{"Name": a("f"), "Type": a("U")})}})}}))
	})
	c.check("included file that cannot be read", files(nil), func(b *B, o *O) { o.reject(b.parse(b.sadl("include \"a\"\n")), "a missing file") })
	c.check("included file that is malformed", files(map[string]string{"a": "type T ?\n"}), func(b *B, o *O) { o.reject(b.parse(b.sadl("include \"a\"\n")), "a malformed included file") })
}

// capital is the name with a capital first letter.
func (b *B) capital(x *Term) *Term { return b.e.T.Call("cap", tString, x) }

// emptyList is a list without items, not nothing.
var emptyList = Pred(func(st *State, t *Term) int {
	if t.op == OIface {
		t = t.args[0]
	}
	switch {
	case t.op == ONil || t.op == OZero:
		return 0
	case t.op == OCat && len(t.args) == 0:
		return 1
	}
	return -1
})
