package main

// props_sadltext.go: C35, the SADL text of a model.

import (
	"fmt"
	"regexp"
	"strings"
)

func init() {
	register(&Property{id: "C35", rule: "The SADL text that DecompileSadl gives for a model is read by ParseSadlString as the same model, in every order in which maps are visited.", run: runC35})
}

// printed checks that the model that the text means is printed as a text that means the wanted model, or the same one.
func (b *B) printed(o *O, src *Term, want func(b *B) F) {
	for _, r := range b.parse(src) {
		if r.kind != RReturn || b.accepts(r) != 1 {
			o.undecided("the text is not read: " + r.where(o.c.p) + " " + r.msg + " " + b.e.res(r.st, r.val).Path())
			continue
		}
		m := valOf(r)
		same := b.canon(r.st, m)
		for _, t := range b.callIn(r.st, func() []Ret { return b.call(nil, "", "DecompileSadl", m) }) {
			if t.kind != RReturn {
				if t.kind == RPanic || t.kind == RExit {
					o.fail(t.where(o.c.p), "the model is not printed: "+t.msg, t.st)
				} else {
					o.undecided("the model is not printed: " + t.where(o.c.p) + " " + t.msg)
				}
				continue
			}
			text := b.e.res(t.st, t.val)
			rs := b.callIn(t.st, func() []Ret { return b.parse(text) })
			if want != nil {
				o.matches(rs, "the model that the printed text means", b.wantModel(want(b)))
				continue
			}
			for _, u := range rs {
				switch {
				case u.kind == RReturn && b.accepts(u) == 1:
					if got := b.canon(u.st, valOf(u)); got != same {
						o.fail("DecompileSadl", "the printed text means another model: "+firstDiff(same, got), u.st)
					}
				case u.st != nil && u.st.opaque != nil:
					o.undecided("depends on an uninterpreted decision at " + u.st.opaque.text)
				default:
					o.fail("DecompileSadl", "the printed text is not read: "+b.e.res(u.st, u.val).Path(), u.st)
				}
			}
		}
	}
}

func runC35(c *C) {
	for _, k := range sadlCases() {
		k := k
		c.check("type "+k.name, &Scenario{follow: true, printed: true}, func(b *B, o *O) {
			b.printed(o, b.sadl(sadlOthers+"type $T "+k.tmpl+"\n"), func(b *B) F {
				return F{"Types": Seq(append(b.wantOthers(), b.wantType(b.atom("T"), k.want(b))))}
			})
		})
	}
	for _, k := range sadlDocs() {
		k := k
		c.check(k.name, &Scenario{follow: true, printed: true}, func(b *B, o *O) {
			if k.name == "operation with comments" { // the lengths of three remarks decide the layout: known ones
				b.printed(o, b.sadl(literalRemark.ReplaceAllStringFunc(k.text, knownRemark)), nil)
				return
			}
			b.printed(o, b.sadl(k.text), k.want)
		})
	}
	for i, t := range append(append([]string{}, richTexts...), printTexts...) {
		t := literalRemark.ReplaceAllStringFunc(t, knownRemark)
		for order := 0; order < 3; order++ {
			c.check(fmt.Sprintf("text %d, maps visited in order %d", i+1, order), &Scenario{follow: true, printed: true, mapOrder: order}, func(b *B, o *O) { b.printed(o, b.sadl(t), nil) })
		}
	}
}

func knownRemark(s string) string { return "// remark " + s[strings.Index(s, "$")+1:] }

var literalRemark = regexp.MustCompile(`//\s*\$\w+\n`)

// printTexts have known texts of unusual forms.
var printTexts = []string{
	"name svc\nnamespace a.b.c\nversion 12\nbase \"/v1/x\"\nx_b \"two words\"\nx_a\nx_c \"1=2, (3)\"\n",
	"type T String (values=[\"a\", \"b\", \"c d\", \"e\", \"f\", \"g\", \"h\"], x_b=\"two\", x_a=\"one\", x_c) // about T\ntype U Decimal (min=-12.75, max=1000000000000000000000.5)\ntype V Int64 (min=-9223372036854775808, max=9223372036854775807)\ntype W Float64 (min=0.001, max=99999999)\n",
	"type T Struct {\n// a long remark that goes on and on, far beyond the end of the line, and has still more words to say before it ends here, at last\nf String (x_b=\"two\", x_a=\"one\", default=\"x y\")\ng Int32 (min=-3, max=4, default=-2) // short\nh Decimal (default=12.5)\ni Bool (default=false)\nj List<String> (minsize=1, maxsize=4, default=[\"a\", \"b\"])\nk Map<String,T> (maxsize=3)\nl Struct {\nm Enum {\nA // first\nB (x_e=\"f\")\n} (required)\n} (x_q=\"r\")\nn UnitValue<Decimal,String>\no Struct\np Struct {\n} (required)\n}\n",
	"type T Union {\na String (minsize=2) // short\nb Struct {\nc Bytes (maxsize=7)\n} (x_k=\"v\")\n// a long remark that goes on and on, far beyond the end of the line, and has still more words to say before it ends here, at last\nd Array<T>\n} (x_a=\"b\")\ntype U Union<T,String>\n",
	"type E Struct {\n}\ntype F Struct {\nm String\n}\n// a long remark that goes on and on, far beyond the end of the line, and has still more words to say before it ends here, at last\nhttp POST \"/a/{i}?n={n}&m={m}\" (resource=Thing, x_t=\"a,b\") {\ni String // a long remark that goes on and on, far beyond the end of the line, and has still more words to say before it ends here, at last\nn Int32 (default=7, x_p=\"q\")\nm String (required) // the m\nh String (header=\"X-H\", default=\"d e\")\nb List<F>\n// fine\nexpect 201 (x_r=\"s\") {\nb F // the body\nl String (header=\"Location\", required)\n}\nexcept 404 E // gone\n// odd\nexcept 409 F (x_u=\"v\", x_s)\n}\nhttp GET \"/things\" (x_a=\"b\") {\nexpect 200 {\nb List<F>\n}\n}\nhttp GET \"/others\" (operation=getOthers2) {\nexpect 304\n}\nhttp GET \"/more\" (operation=getMore, resource=More) {\n}\nhttp GET \"/most\" (operation=listMost, resource=most) {\n}\nhttp GET \"/least\" (operation=getLeast) {\n}\nhttp GET \"/x/last?q={q}\" (operation=getLast) {\nq String\nexpect 200 {\n}\n}\n",
	"type E Struct {\n}\ntype G Struct {\n}\n// does it\noperation doIt (x_b=\"1\", x_a=\"2\") {\ninputs {\n// a long remark that goes on and on, far beyond the end of the line, and has still more words to say before it ends here, at last\na E (required, x_c=\"d\") // more\nb String\n}\noutputs {\nc E (x_e=\"f\") // out\nd Int32\n}\nexceptions {\nE\nG\n}\n}\noperation other {\n}\n",
	"type T Struct {\nf String\ng Array<Int32>\nh Bool\ni Map<String,Decimal>\nj Struct {\nk String\n}\n}\n// first\nexample T (name=one) {\n\"f\": \"a b, {c}\",\n\"g\": [1, -2, 3],\n\"h\": false,\n\"i\": {\"x\": 1.5, \"y\": 2},\n\"j\": {\"k\": \"\"}\n}\nexample T.f \"text\"\nexample T.g []\nexample T.h true\nexample T.i {}\n",
	"type T Enum {\n// a\nred // b\ngreen (x_b=\"2\", x_a=\"1\") // c\nblue,\n} (x_c=\"d\")\ntype U UUID (reference=T)\ntype V String (reference=T, pattern=\"^[a-z]*$\")\ntype W Timestamp (x_a=\"b\")\ntype X Any (x_a=\"b\")\ntype Y Bool (x_a=\"b\")\ntype Z Bytes (minsize=1, maxsize=8, x_a=\"b\")\ntype M Map<V,W> (minsize=1, maxsize=2, x_a=\"b\")\ntype L List<V> (minsize=1, maxsize=2, x_a=\"b\")\ntype N UnitValue<Decimal,V> (x_a=\"b\")\n",
	"name \"my-service\"\nversion \"1.0 beta\"\ntype T String\n",
}
