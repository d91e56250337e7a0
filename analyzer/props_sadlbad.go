package main

// props_sadlbad.go: C34, texts that are no SADL or contradict themselves.

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

func init() {
	register(&Property{id: "C34", rule: "ParseSadlString refuses every malformed or inconsistent text with an error, and no text makes it crash.", run: runC34})
}

// typeOptions are the options that each type takes.
var typeOptions = map[string]string{
	"Any": "", "Bool": "", "Timestamp": "", "UnitValue": "", "Struct": "", "Enum": "", "Union<String,Bool>": "",
	"Int8": "min max", "Int16": "min max", "Int32": "min max", "Int64": "min max", "Float32": "min max", "Float64": "min max", "Decimal": "min max",
	"Bytes": "minsize maxsize", "Array": "minsize maxsize", "Map": "minsize maxsize", "Array<String>": "minsize maxsize", "Map<String,String>": "minsize maxsize",
	"String": "minsize maxsize pattern values reference", "UUID": "reference",
}

var optionForms = map[string]string{"min": "min=1", "max": "max=1", "minsize": "minsize=1", "maxsize": "maxsize=1", "pattern": `pattern="a"`, "values": `values=["a"]`, "reference": "reference=String",
	"required": "required", "default": "default=1", "header": `header="a"`, "name": "name=a", "action": "action=a", "operation": "operation=a", "resource": "resource=a", "http": "http=a", "other": "other=1"}

func sortedNames(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// badTexts are the texts that have to be refused, by what is wrong with them.
func badTexts() [][2]string {
	var cs [][2]string
	add := func(what, text string) { cs = append(cs, [2]string{what, text}) }
	// options
	for _, t := range sortedNames(typeOptions) {
		for _, o := range sortedNames(optionForms) {
			ok := false
			for _, x := range strings.Fields(typeOptions[t]) {
				ok = ok || x == o
			}
			if ok {
				continue
			}
			src := "type $T " + t + " (" + optionForms[o] + ")"
			if t == "Struct" || t == "Enum" {
				src += " {\n}"
			}
			add("option "+o+" of type "+t, src+"\n")
			if o != "required" && o != "default" && t != "Enum" && t != "Struct" && !strings.HasPrefix(t, "Union") {
				add("option "+o+" of field "+t, "type $T Struct {\n $f "+t+" ("+optionForms[o]+")\n}\n")
			}
		}
	}
	for _, o := range sortedNames(optionForms) {
		if o != "action" && o != "operation" && o != "resource" {
			add("option "+o+" of an action", "http GET \"/p\" ("+optionForms[o]+") {\n expect 204\n}\n")
		}
		if o != "header" && o != "default" && o != "required" {
			add("option "+o+" of an input", "http GET \"/p?q={$i}\" (operation=$n) {\n $i String ("+optionForms[o]+")\n expect 204\n}\n")
		}
		add("option "+o+" of an expectation", "http GET \"/p\" (operation=$n) {\n expect 204 ("+optionForms[o]+")\n}\n")
		add("option "+o+" of an exception", "type E Struct {\n}\nhttp GET \"/p\" (operation=$n) {\n expect 204\n except 404 E ("+optionForms[o]+")\n}\n")
		add("option "+o+" of an enum element", "type $T Enum {\n $e ("+optionForms[o]+")\n}\n")
		if o != "http" {
			add("option "+o+" of an operation", "operation $n ("+optionForms[o]+") {\n}\n")
		}
		if o != "required" {
			add("option "+o+" of an operation's input", "operation $n {\n inputs {\n $i String ("+optionForms[o]+")\n }\n}\n")
		}
		add("option "+o+" of an operation's output", "operation $n {\n outputs {\n $i String ("+optionForms[o]+")\n }\n}\n")
		if o != "name" {
			add("option "+o+" of an example", "type T String\nexample T ("+optionForms[o]+") \"a\"\n")
		}
	}
	// values of options
	for _, x := range []string{`"a"`, "a", "[1]", "", "{", "true"} {
		add("min of "+x, "type $T Int32 (min="+x+")\n")
		add("max of "+x, "type $T Decimal (max="+x+")\n")
		add("minsize of "+x, "type $T String (minsize="+x+")\n")
		add("maxsize of "+x, "type $T Bytes (maxsize="+x+")\n")
	}
	for _, x := range []string{"1.5", "99999999999999999999"} {
		add("minsize of "+x, "type $T String (minsize="+x+")\n")
		add("maxsize of "+x, "type $T Array (maxsize="+x+")\n")
	}
	for _, x := range []string{"a", "1", "", "[\"a\"]"} {
		add("pattern of "+x, "type $T String (pattern="+x+")\n")
		add("header of "+x, "http GET \"/p\" (operation=$n) {\n $i String (header="+x+")\n expect 204\n}\n")
		add("annotation of "+x, "type $T String (x_a="+x+")\n")
	}
	for _, x := range []string{"\"a\"", "1", "", "a", "[1]", "[a]", "[\"a\"", "{}"} {
		add("values of "+x, "type $T String (values="+x+")\n")
	}
	for _, x := range []string{"\"a\"", "1", "", "[a]"} {
		add("reference of "+x, "type $T String (reference="+x+")\n")
		add("operation of "+x, "http GET \"/p\" (operation="+x+") {\n expect 204\n}\n")
		add("resource of "+x, "http GET \"/p\" (resource="+x+") {\n expect 204\n}\n")
		add("example name of "+x, "type T String\nexample T (name="+x+") \"a\"\n")
	}
	add("options without an end", "type $T String (minsize=1\n")
	add("field options without an end", "type $T Struct {\n $f String (required\n}\n")
	add("options with a semicolon", "type $T String (minsize=1; maxsize=2)\n")
	// types
	add("unknown base type", "type $T $B\n")
	add("declared type as base type", "type Other String\ntype $T Other\n")
	add("own name as base type", "type $T $T\n")
	add("type without a name", "type\n")
	add("type without a definition", "type $T\n")
	add("name in quotes", "type \"$T\" String\n")
	add("number as a name", "type 12 String\n")
	add("type declared twice", "type $T String\ntype $U String\ntype $T Bool\n")
	for _, t := range []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"} {
		add("declaration of "+t, "type "+t+" String\n")
		switch t {
		case "Array", "Map", "UnitValue", "Union":
		default:
			add("parameter of "+t, "type $T "+t+"<String>\n")
		}
	}
	for _, x := range []string{"Array<>", "Array<String,String>", "List<String,Bool>", "Map<>", "Map<String>", "Map<String,Bool,Bool>", "UnitValue<>", "UnitValue<Decimal>", "UnitValue<Decimal,String,String>", "Array<String", "Map<String,", "Array<1>", "Array<\"a\">", "Array<Array<String>>", "Union<String"} {
		add("type "+x, "type $T "+x+"\n")
		if !strings.HasPrefix(x, "Union") {
			add("field type "+x, "type $T Struct {\n $f "+x+"\n}\n")
			add("input type "+x, "http PUT \"/p\" (operation=$n) {\n $f "+x+"\n expect 204\n}\n")
		}
	}
	add("Union without variants", "type $T Union\n")
	for _, t := range []string{"Array<$U>", "Map<String,$U>", "Map<$U,String>", "UnitValue<$U,String>", "UnitValue<Decimal,$U>", "Union<$U,String>", "Union<String,$U>", "String (reference=$U)", "UUID (reference=$U)"} {
		add("undeclared type in "+t, "type $T "+t+"\n")
		if !strings.HasPrefix(t, "Union") {
			add("undeclared type in field "+t, "type $T Struct {\n $a String\n $f "+t+"\n}\n")
			add("undeclared type in variant "+t, "type $T Union {\n $a String\n $f "+t+"\n}\n")
			add("undeclared type in inline field "+t, "type $T Struct {\n $a Struct {\n $b String\n $f "+t+"\n }\n}\n")
		}
		if !strings.Contains(t, "(") && !strings.HasPrefix(t, "Union") {
			add("undeclared type in input "+t, "http PUT \"/p\" (operation=$n) {\n $f "+t+"\n expect 204\n}\n")
			add("undeclared type in output "+t, "http PUT \"/p\" (operation=$n) {\n expect 200 {\n $f "+t+"\n }\n}\n")
		}
	}
	add("undeclared type of a field", "type $T Struct {\n $a String\n $f $U\n}\n")
	add("undeclared type of an inline field", "type $T Struct {\n $a Struct {\n $b String\n $f $U\n }\n}\n")
	add("undeclared type of a variant", "type $T Union {\n $a String\n $f $U\n}\n")
	for _, v := range []string{"String", "Bool", "Bytes", "Timestamp", "Any", "$S"} {
		add("UnitValue of "+v, "type $S String\ntype $T UnitValue<"+v+",String>\n")
	}
	for _, v := range []string{"Int32", "Bool", "Bytes", "Timestamp", "Any", "$S"} {
		add("UnitValue in "+v, "type $S Bool\ntype $T UnitValue<Decimal,"+v+">\n")
	}
	add("pattern and values", "type $T String (pattern=\"a\", values=[\"a\"])\n")
	add("values and pattern of a field", "type $T Struct {\n $f String (values=[\"a\"], pattern=\"a\")\n}\n")
	for _, k := range []string{"Struct", "Enum", "Union"} {
		add(k+" without an end", "type $T "+k+" {\n")
		add(k+" with something after its block", "type $T "+k+" {\n $f String\n} $x\n")
		add(k+" that starts wrongly", "type $T "+k+" [\n]\n")
	}
	for _, t := range []string{"Bool", "Int32", "String", "Array<String>", "Union<String,Bool>"} {
		add("something after "+t, "type $T "+t+" $x\n")
		add("text after "+t, "type $T "+t+" \"a\"\n")
		add("options twice after "+t, "type $T "+t+" () ()\n")
		if !strings.HasPrefix(t, "Union") {
			add("something after a field "+t, "type $T Struct {\n $f "+t+" $x\n}\n")
			add("something after an input "+t, "http PUT \"/p\" (operation=$n) {\n $f "+t+" $x\n expect 204\n}\n")
		}
	}
	add("field without a type", "type $T Struct {\n $f\n}\n")
	add("field with a text as name", "type $T Struct {\n \"f\" String\n}\n")
	add("field that is a number", "type $T Struct {\n 1\n}\n")
	add("element that is a text", "type $T Enum {\n \"a\"\n}\n")
	add("element that is a number", "type $T Enum {\n 1\n}\n")
	// defaults
	add("default of a required field", "type $T Struct {\n $f String (required, default=\"a\")\n}\n")
	for _, k := range []struct{ t, bad string }{
		{"String", "1|true|[]|{}|[\"a\"]"}, {"Int32", "\"a\"|true|[]|{}|1.5|2147483648"}, {"Int8", "128|-129|\"a\""}, {"Bool", "1|\"true\"|[]"}, {"Decimal", "true|[]|{}"}, {"Float64", "\"a\"|true|[]"},
		{"Array<String>", "\"a\"|1|[1]|{}"}, {"Map<String,Int32>", "\"a\"|1|[]|{\"a\": \"b\"}"}, {"Timestamp", "1|\"a\"|true"}, {"UUID", "1|\"a\""}, {"$E", "\"x\"|1"}, {"$S", "1|{}|{\"g\": 1}|{\"f\": 1}"},
	} {
		for _, v := range strings.Split(k.bad, "|") {
			decl := "type $E Enum {\n one\n two\n}\ntype $S Struct {\n f String (required)\n}\n"
			add("default "+v+" of a field "+k.t, decl+"type $T Struct {\n $f "+k.t+" (default="+v+")\n}\n")
			add("default "+v+" of an inline field "+k.t, decl+"type $T Struct {\n $a Struct {\n $f "+k.t+" (default="+v+")\n }\n}\n")
			add("default "+v+" of a query "+k.t, decl+"http GET \"/p?q={$i}\" (operation=$n) {\n $i "+k.t+" (default="+v+")\n expect 204\n}\n")
			add("example "+v+" of "+k.t, decl+"type $T Struct {\n fi "+k.t+"\n}\ntype T Struct {\n fi "+k.t+"\n}\nexample T.fi "+v+"\n")
		}
	}
	add("default beyond its field's constraints", "type $T Struct {\n $f Int32 (min=1, max=5, default=6)\n}\n")
	add("default shorter than its field's size", "type $T Struct {\n $f String (minsize=2, default=\"a\")\n}\n")
	add("default without a value", "type $T Struct {\n $f String (default)\n}\n")
	add("default that is no literal", "type $T Struct {\n $f String (default=a)\n}\n")
	add("default of an unclosed array", "type $T Struct {\n $f Array (default=[1)\n}\n")
	// directives
	add("unknown directive", "$d\n")
	add("unknown directive with a value", "$d $v\n")
	for _, d := range []string{"name", "namespace", "version", "base", "include", "type", "example", "operation", "http"} {
		add(d+" without a value", d)
		add(d+" without a value on its line", d+"\n")
		add(d+" of a brace", d+" {\n}\n")
	}
	for _, x := range []string{"{", "}", "(", ")", "=", "\"a\"", "12", "[", "]", ":", ",", "?", "<"} {
		add("text that starts with "+x, x+"\ntype $T String\n")
		add("text that ends with "+x, "type $T String\n"+x+"\n")
	}
	add("name that is a number", "name 12\n")
	add("namespace with two dots", "namespace $a..$b\n")
	add("namespace that ends in a dot", "namespace $a.\n")
	add("base that is no path", "base \"$p\"\n")
	add("base that is a name", "base $p\n")
	add("include of a name", "include $p\n")
	add("annotation of a number", "x_$a 12\n")
	add("annotation of two texts", "x_$a \"b\" \"c\"\n")
	// actions
	for _, m := range []string{"$m", "TRACE", "get1", "\"GET\"", "12"} {
		add("action of the method "+m, "http "+m+" \"/p\" (operation=$n) {\n expect 204\n}\n")
	}
	add("action whose path is a name", "http GET p (operation=$n) {\n expect 204\n}\n")
	add("action without a path", "http GET (operation=$n) {\n expect 204\n}\n")
	add("action without a block", "http GET \"/p\" (operation=$n)\n")
	add("action without a block at the end", "http GET \"/p\" (operation=$n)")
	add("action without an end", "http GET \"/p\" (operation=$n) {\n expect 204\n")
	add("something after an action", "http GET \"/p\" (operation=$n) {\n expect 204\n} $x\n")
	for _, p := range []string{"/a/{$i", "/a/$i}", "/a/{{$i}}", "/a/{$i/b}", "/{$i}/{", "/}{"} {
		add("path "+p, "http GET \""+p+"\" (operation=$n) {\n expect 204\n}\n")
	}
	add("action declared twice", "http GET \"/p\" (operation=$n) {\n expect 204\n}\nhttp PUT \"/q\" (operation=$n) {\n expect 204\n}\n")
	for _, m := range []string{"GET", "DELETE", "HEAD", "OPTIONS"} {
		add(m+" with a body", "http "+m+" \"/p\" (operation=$n) {\n $i String\n expect 204\n}\n")
	}
	for _, m := range []string{"PUT", "POST", "PATCH"} {
		add(m+" with two bodies", "http "+m+" \"/p\" (operation=$n) {\n $i String\n $j String\n expect 204\n}\n")
	}
	add("undeclared type of an input", "http PUT \"/p\" (operation=$n) {\n $i $U\n expect 204\n}\n")
	add("undeclared type of an input without an expectation", "http PUT \"/p\" (operation=$n) {\n $i $U\n}\n")
	add("undeclared type of a header", "http GET \"/p\" (operation=$n) {\n $i $U (header=\"h\")\n expect 204\n}\n")
	add("undeclared type of an output", "http GET \"/p\" (operation=$n) {\n expect 200 {\n $i $U\n }\n}\n")
	add("undeclared type of an output header", "http GET \"/p\" (operation=$n) {\n expect 204 {\n $i $U (header=\"h\")\n }\n}\n")
	add("undeclared type of an expectation", "http GET \"/p\" (operation=$n) {\n expect 200 $U\n}\n")
	add("undeclared type of an exception", "http GET \"/p\" (operation=$n) {\n expect 204\n except 404 $U\n}\n")
	add("undeclared type of an exception without an expectation", "http GET \"/p\" (operation=$n) {\n except 404 $U\n}\n")
	add("two output bodies", "http GET \"/p\" (operation=$n) {\n expect 200 {\n $i String\n $j String\n }\n}\n")
	for _, st := range []string{"204", "304"} {
		add(st+" with a body", "http GET \"/p\" (operation=$n) {\n expect "+st+" {\n $i String\n }\n}\n")
	}
	add("two expectations", "http GET \"/p\" (operation=$n) {\n expect 204\n expect 200\n}\n")
	add("expectation without a status", "http GET \"/p\" (operation=$n) {\n expect\n}\n")
	add("expectation of a name", "http GET \"/p\" (operation=$n) {\n expect $s\n}\n")
	add("expectation of a status that is no number of its size", "http GET \"/p\" (operation=$n) {\n expect 99999999999\n}\n")
	add("expectation of a broken status", "http GET \"/p\" (operation=$n) {\n expect 200.5\n}\n")
	add("expectation without an end", "http GET \"/p\" (operation=$n) {\n expect 200 {\n $i String\n")
	add("expectation inside an expectation", "http GET \"/p\" (operation=$n) {\n expect 200 {\n expect 200\n }\n}\n")
	add("exception inside an expectation", "type E Struct {\n}\nhttp GET \"/p\" (operation=$n) {\n expect 200 {\n except 404 E\n }\n}\n")
	add("exception without a type", "http GET \"/p\" (operation=$n) {\n expect 204\n except 404\n}\n")
	add("exception of a text", "http GET \"/p\" (operation=$n) {\n expect 204\n except 404 \"a\"\n}\n")
	add("exception of a status that is no number of its size", "type E Struct {\n}\nhttp GET \"/p\" (operation=$n) {\n expect 204\n except 99999999999 E\n}\n")
	add("exception type twice", "type E Struct {\n}\nhttp GET \"/p\" (operation=$n) {\n expect 204\n except 404 E\n except 500 E\n}\n")
	add("something after an expectation", "http GET \"/p\" (operation=$n) {\n expect 200 String $x\n}\n")
	add("something after an exception", "type E Struct {\n}\nhttp GET \"/p\" (operation=$n) {\n expect 204\n except 404 E $x\n}\n")
	// operations
	add("operation without a block", "operation $n\n")
	add("operation without an end", "operation $n {\n")
	add("operation with an unknown part", "operation $n {\n $p {\n }\n}\n")
	for _, part := range []string{"inputs", "outputs", "exceptions"} {
		add("operation's "+part+" without a block", "operation $n {\n "+part+"\n}\n")
		add("operation's "+part+" without an end", "operation $n {\n "+part+" {\n")
		add("operation's "+part+" with a text", "operation $n {\n "+part+" {\n \"a\"\n }\n}\n")
		if part != "exceptions" {
			add("operation's "+part+" without a type", "operation $n {\n "+part+" {\n $i\n }\n}\n")
			add("operation's "+part+" of an undeclared type", "operation $n {\n "+part+" {\n $i $U\n }\n}\n")
		} else {
			add("operation's "+part+" of an undeclared type", "operation $n {\n "+part+" {\n $U\n }\n}\n")
		}
	}
	add("text in an operation", "operation $n {\n \"a\"\n}\n")
	// examples
	add("example of an undeclared type", "example $U \"a\"\n")
	add("example of an undeclared field", "type T Struct {\n f String\n}\nexample T.g \"a\"\n")
	add("example of an undeclared request", "example NoneRequest {}\n")
	add("example of an undeclared response", "example NoneResponse {}\n")
	add("example without a value", "type T String\nexample T\n")
	add("example of a name", "type T String\nexample T $a\n")
	add("example with a key that is a name", "type T Any\nexample T {\n a: 1\n}\n")
	add("example with a key without a value", "type T Any\nexample T {\n \"a\"\n}\n")
	add("example without an end", "type T Any\nexample T {\n \"a\": 1\n")
	add("example with an unclosed array", "type T Any\nexample T [1\n")
	it := "http PUT \"/p?q={q}\" (operation=getIt) {\n q Int32 (required)\n b String\n expect 200 {\n it Int32\n h String (header=\"h\", required)\n }\n}\n"
	add("example of a request that is no object", it+"example GetItRequest \"a\"\n")
	add("example of a request without a required input", it+"example GetItRequest {\n \"q\": 1\n}\n")
	add("example of a request with a wrong input", it+"example GetItRequest {\n \"q\": \"x\", \"b\": \"a\"\n}\n")
	add("example of a response that is no object", it+"example GetItResponse 1\n")
	add("example of a response without a required output", it+"example GetItResponse {\n \"it\": 1\n}\n")
	add("example of a response with a wrong output", it+"example GetItResponse {\n \"it\": \"a\", \"h\": \"b\"\n}\n")
	add("example of a response of an action without one", "http GET \"/p\" (operation=getIt) {\n}\nexample GetItResponse {\n \"it\": 1\n}\n")
	return cs
}

func runC34(c *C) {
	for _, k := range badTexts() {
		k := k
		c.check(k[0], &Scenario{follow: true}, func(b *B, o *O) { o.reject(b.parse(b.sadl(k[1])), fmt.Sprintf("the text %q", k[1])) })
	}
	// damaged texts: parsed or refused, but never a crash
	var damaged func(rule string, texts []string)
	damaged = func(rule string, texts []string) {
		if len(texts) > 40 {
			damaged(rule, texts[:40])
			damaged(rule+" (further)", texts[40:])
			return
		}
		c.check(rule, &Scenario{follow: true}, func(b *B, o *O) {
			for _, t := range texts {
				o.expect(b.parse(b.sadl(t)), fmt.Sprintf("the text %q must give either a model or an error", t), func(r Ret) int {
					if r.kind != RReturn || r.val == nil || r.val.op != OTuple || len(r.val.args) != 2 {
						return 0
					}
					n := b.accepts(r)
					if n < 0 {
						return -1
					}
					if n == 1 && r.val.args[0].op == ONil {
						return 0
					}
					return 1
				})
			}
		})
	}
	seen := map[string]bool{}
	for _, k := range sadlDocs() {
		if seen[k.text] {
			continue
		}
		seen[k.text] = true
		ps := sadlPiece.FindAllString(k.text, -1)
		var cuts, gaps []string
		for i := range ps {
			cuts = append(cuts, strings.Join(ps[:i], " "))
			gaps = append(gaps, edited(ps, i, 1, ""))
		}
		damaged("cut anywhere: "+k.name, cuts)
		damaged("a token missing: "+k.name, gaps)
	}
	for i, t := range richTexts {
		ps := sadlPiece.FindAllString(t, -1)
		for _, x := range []string{"{", "}", "(", ")", "=", ",", "x", "\"s\"", "1", "\n", "[", "]", "<", ">", ":", "// c\n", "type", "expect", "?", ";", ".", "required", "default", "-"} {
			var rs, is []string
			for j := range ps {
				rs = append(rs, edited(ps, j, 1, x))
				is = append(is, edited(ps, j, 0, x))
			}
			damaged(fmt.Sprintf("text %d, %q for a token", i+1, x), rs)
			damaged(fmt.Sprintf("text %d, %q before a token", i+1, x), is)
		}
		var two, swap []string
		for j := range ps {
			two = append(two, edited(ps, j, 0, ps[j]))
			if j+1 < len(ps) {
				swap = append(swap, edited(ps, j, 2, ps[j+1]+" "+ps[j]))
			}
		}
		damaged(fmt.Sprintf("text %d, a token twice", i+1), two)
		damaged(fmt.Sprintf("text %d, neighbours exchanged", i+1), swap)
	}
}

// sadlPiece are the tokens of a text in the notation of b.sadl.
var sadlPiece = regexp.MustCompile("//[^\n]*|/\\*(?s:.*?)\\*/|\"[^\"]*\"|x_\\$\\w+|\\$\\w+|[%^]\\w+|![0-9]+|[A-Za-z_]\\w*|-?[0-9][0-9.]*|\n|[^\\s]")

// edited is the text of the tokens with n of them, from the i-th on, replaced.
func edited(ps []string, i, n int, by string) string {
	xs := append([]string{}, ps[:i]...)
	xs = append(xs, by)
	return strings.Join(append(xs, ps[i+n:]...), " ")
}

// richTexts use the whole language.
var richTexts = []string{
	"// $a\nname $n\nnamespace $b.$c\nversion \"$v\"\nbase \"/$p\"\nx_$k \"$w\"\ntype $T String (minsize=1, maxsize=^m, pattern=\"$q\", x_$l) // $d\n",
	"type $T Struct { // $a\n// $b\n$f String (required, x_$k=\"$v\") // $c\n$g Array<Int32> (default=[1,2])\n$h Map<String,Bool> (default={\"a\": true})\n$i Struct {\n$j Enum {\n$e // $d\n$o\n}\n}\n}\n",
	"type $T Enum { // $a\n$e (x_$k=\"$v\") // $b\n$f,\n$g\n}\ntype $U Union<String,Int32>\ntype $V Union {\n$h String // $c\n$i Decimal (min=0, max=^m)\n}\ntype $W UnitValue<Decimal,String>\n",
	"type $T Bytes (maxsize=9)\ntype $U String (values=[\"$a\", \"$b\"])\ntype $V UUID (reference=$U)\ntype $W Array<$U> (minsize=1)\ntype $X Map<$U,$W>\ntype $Y Any\n",
	"// $a\nhttp GET \"/p/{$i}?q={$j}\" (operation=$n, resource=$r, x_$k=\"$v\") { // $b\n$i String (required)\n$j Int32 (default=5) // $c\n$h String (header=\"$g\")\nexpect 200 { // $d\n$o String // $e\n$l String (header=\"$m\")\n}\nexcept 404 E // $f\n}\ntype E Struct {\n}\n",
	"type E Struct {\nm String\n}\nhttp PUT \"/p\" (action=$n) {\n$b E\nexpect 200 (x_$k=\"$v\") E // $c\nexcept 400 E\n}\nhttp DELETE \"/q\" {\nexpect 204\n}\n",
	"operation $n (x_$k=\"$v\") {\ninputs {\n// $a\n$i String (required) // $b\n$j Int32\n}\noutputs {\n$o E\n}\nexceptions {\nE\n}\n}\ntype E Struct {\n}\n",
	"type T Struct {\nf String\ng Array<Int32>\nh Bool\n}\n// $c\nexample T (name=$n) {\n\"f\": \"$v\",\n\"g\": [1, 2],\n\"h\": true\n}\nexample T.f \"$w\"\nhttp PUT \"/p\" (operation=do) {\nb T\nexpect 200 {\nc T\n}\n}\nexample DoRequest {\n\"b\": {\n\"f\": \"$x\"\n}\n}\nexample DoResponse {\n\"c\": {}\n}\n",
}
