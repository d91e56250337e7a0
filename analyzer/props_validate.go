package main

// props_validate.go: C01..C05, validation of values against types.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// pin fixes the value of a term, named by its path, for this scenario.
func (b *B) pin(path string, v interface{}) {
	if b.e.sc.pins == nil {
		b.e.sc.pins = map[string]*Term{}
	}
	b.e.sc.pins[path] = b.term(v, nil)
}

func (b *B) tdef(name interface{}, f F) *Term {
	g := F{"Name": name}
	for k, v := range f {
		g[k] = v
	}
	return b.obj("TypeDef", g)
}

func (b *B) field(name interface{}, f F) *Term {
	g := F{"Name": name}
	for k, v := range f {
		g[k] = v
	}
	return b.obj("StructFieldDef", g)
}

func (b *B) elems(syms ...interface{}) *Term {
	var xs []*Term
	for _, s := range syms {
		xs = append(xs, b.obj("EnumElementDef", F{"Symbol": s}))
	}
	return b.list(xs...)
}

// types builds a model with the given type definitions.
func (b *B) types(tds ...*Term) *Term {
	return b.newModel(F{"Name": b.atom("Svc"), "Types": b.list(tds...)})
}

func (b *B) validate(m *Term, name, value *Term) []Ret {
	return b.call(nil, "", "Model.Validate", m, b.e.T.Str("ctx"), name, value)
}

// strForm passes a string as a string or as a pointer to one.
func (b *B) strForm(form string, s *Term) *Term {
	if form == "*string" {
		return b.any(types.NewPointer(tString), b.newObj("s", s, tString))
	}
	return b.any(tString, s)
}

var strForms = []string{"string", "*string"}

func nope(b *B, v *Term) *Term { return v }

// sizes enumerates the positions of a size relative to symbolic bounds.
type sizeCase struct {
	name     string
	min, max bool
	size     func(b *B, lo, hi *Term) *Term
	ok       bool
}

func posInt(b *B, n string) *Term { return b.sym("++"+n, types.Typ[types.Int64]) }
func nnInt(b *B, n string) *Term  { return b.sym("+"+n, types.Typ[types.Int64]) }

// lo and hi are the bounds; hi = lo + gap
var sizeCases = []sizeCase{
	{"min only, one below", true, false, func(b *B, lo, hi *Term) *Term { return b.sub(lo, 1) }, false},
	{"min only, exactly the minimum", true, false, func(b *B, lo, hi *Term) *Term { return lo }, true},
	{"min only, any amount above", true, false, func(b *B, lo, hi *Term) *Term { return b.e.arith("+", lo, nnInt(b, "k"), types.Typ[types.Int64]) }, true},
	{"max only, one above", false, true, func(b *B, lo, hi *Term) *Term { return b.add(hi, 1) }, false},
	{"max only, any amount above", false, true, func(b *B, lo, hi *Term) *Term { return b.e.arith("+", hi, posInt(b, "k"), types.Typ[types.Int64]) }, false},
	{"max only, exactly the maximum", false, true, func(b *B, lo, hi *Term) *Term { return hi }, true},
	{"max only, empty", false, true, func(b *B, lo, hi *Term) *Term { return b.e.T.Int(0) }, true},
	{"min and max, one below", true, true, func(b *B, lo, hi *Term) *Term { return b.sub(lo, 1) }, false},
	{"min and max, the minimum", true, true, func(b *B, lo, hi *Term) *Term { return lo }, true},
	{"min and max, the maximum", true, true, func(b *B, lo, hi *Term) *Term { return hi }, true},
	{"min and max, one above", true, true, func(b *B, lo, hi *Term) *Term { return b.add(hi, 1) }, false},
	{"no bounds", false, false, func(b *B, lo, hi *Term) *Term { return nnInt(b, "k") }, true},
}

func (b *B) bounds(sc sizeCase, path string) F {
	lo := posInt(b, "lo")
	hi := b.e.arith("+", lo, nnInt(b, "gap"), types.Typ[types.Int64])
	f := F{}
	if sc.min {
		f["MinSize"] = b.i64(lo)
	}
	if sc.max {
		f["MaxSize"] = b.i64(hi)
	}
	b.pin("len("+path+")", sc.size(b, lo, hi))
	return f
}

func (f F) with(k string, v interface{}) F {
	g := F{}
	for a, x := range f {
		g[a] = x
	}
	g[k] = v
	return g
}

func (o *O) verdict(rs []Ret, ok bool, what string) {
	if ok {
		o.accept(rs, what)
	} else {
		o.reject(rs, what)
	}
}

func init() {
	register(&Property{id: "C01", dress: true, rule: "For String types, Model.Validate accepts a value exactly when its size lies within the declared inclusive bounds, it is a member of the declared value list, and it matches the declared pattern.", run: runC01})
	register(&Property{id: "C02", dress: true, rule: "For numeric types, Model.Validate accepts a Decimal exactly when it lies within the declared inclusive bounds, and, for the sized integers with no declared bound, within the range of the type.", run: runC02})
	register(&Property{id: "C03", dress: true, rule: "For Array and Map types, Model.Validate accepts a value exactly when it has the right kind, its size lies within the declared bounds and every item validates against the item type.", run: runC03})
	register(&Property{id: "C04", dress: true, rule: "For Struct types, Model.Validate accepts a value exactly when every required field is present, no undeclared field is present, and every present field validates against its type.", run: runC04})
	register(&Property{id: "C05", dress: true, rule: "Model.Validate accepts a value only in the forms of its type, resolves type names through the model, and reports undefined types.", run: runC05})
}

// viaWays are the ways of reaching a constrained type.
var viaWays = []string{"named type", "alias of a named type", "struct field", "array item", "map item"}

// via wraps a definition and value so that the constrained type T is reached indirectly.
func (b *B) via(how string, td *Term, T, v *Term) (tds []*Term, name, val *Term) {
	switch how {
	case "alias of a named type":
		return []*Term{td, b.tdef(b.atom("A"), F{"Type": T})}, b.atom("A"), v
	case "struct field":
		return []*Term{td, b.tdef(b.atom("R"), F{"Type": "Struct", "Fields": b.list(b.field(b.atom("g"), F{"Type": "Any"}), b.field(b.atom("f"), F{"Type": T}))})}, b.atom("R"), b.mapAny(b.atom("f"), v)
	case "array item":
		return []*Term{td, b.tdef(b.atom("L"), F{"Type": "Array", "Items": T})}, b.atom("L"), b.listAny(v)
	case "map item":
		return []*Term{td, b.tdef(b.atom("M"), F{"Type": "Map", "Items": T, "Keys": "String"})}, b.atom("M"), b.mapAny(b.atom("k"), v)
	}
	return []*Term{td}, T, v
}

func runC01(c *C) {
	for _, form := range strForms {
		for _, sc := range sizeCases {
			sc := sc
			for _, how := range viaWays {
				if how != "named type" && form != "string" {
					continue
				}
				how := how
				c.check(fmt.Sprintf("string size: %s, %s as %s", sc.name, how, form), &Scenario{}, func(b *B, o *O) {
					f := b.bounds(sc, "S").with("Type", "String")
					T := b.atom("T")
					tds, name, v := b.via(how, b.tdef(T, f), T, b.strForm(form, b.sym("S", tString)))
					m := b.types(tds...)
					o.verdict(b.validate(m, name, v), sc.ok, "a string with size "+sc.name)
				})
			}
		}
		// value lists
		for n := 1; n <= 3; n++ {
			for i := 0; i <= n; i++ {
				n, i := n, i
				c.check(fmt.Sprintf("string value list of %d, value %d, as %s", n, i, form), &Scenario{}, func(b *B, o *O) {
					var vals []*Term
					for j := 0; j < n; j++ {
						vals = append(vals, b.atom(fmt.Sprint("v", j)))
					}
					v := b.atom("other")
					if i < n {
						v = vals[i]
					}
					m := b.types(b.tdef(b.atom("T"), F{"Type": "String", "Values": b.list(vals...)}))
					o.verdict(b.validate(m, b.atom("T"), b.strForm(form, v)), i < n, "a string of a value list")
				})
			}
		}
		for _, l := range []struct {
			vals, ok, no []string
		}{{[]string{"a", "B", "c d"}, []string{"a", "B", "c d"}, []string{"A", "b", "", "c", "d", "c  d", " a", "a ", "ab", "cd", "a,B", "é"}},
			{[]string{"", "x"}, []string{"", "x"}, []string{"X", " ", "xx"}},
			{[]string{"10", "1.0"}, []string{"10", "1.0"}, []string{"1", "1.00", "010", "+10"}},
			{[]string{"été", "^a.*$", "*"}, []string{"été", "^a.*$", "*"}, []string{"Été", "abc", "ete", "a", ""}}} {
			l := l
			c.check(fmt.Sprintf("string value list %q as %s", l.vals, form), nil, func(b *B, o *O) {
				var vals []*Term
				for _, v := range l.vals {
					vals = append(vals, b.e.T.Str(v))
				}
				m := b.types(b.tdef(b.atom("T"), F{"Type": "String", "Values": b.list(vals...)}))
				for i, v := range append(append([]string{}, l.ok...), l.no...) {
					o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.e.T.Str(v))), i < len(l.ok), fmt.Sprintf("the text %q", v))
				}
			})
		}
		c.check("empty string against a value list, as "+form, &Scenario{}, func(b *B, o *O) {
			m := b.types(b.tdef(b.atom("T"), F{"Type": "String", "Values": b.list(b.atom("v0"), b.atom("v1"))}))
			o.reject(b.validate(m, b.atom("T"), b.strForm(form, b.e.T.Str(""))), "the empty string, not in the value list,")
		})
		for _, match := range []bool{true, false} {
			for _, sz := range []int{0, 1, 2} { // no bounds, satisfied, violated
				match, sz := match, sz
				c.check(fmt.Sprintf("string pattern match=%v size=%d as %s", match, sz, form), &Scenario{fails: map[string]int{"regexp.Compile": 0}}, func(b *B, o *O) {
					f := F{"Type": "String", "Pattern": b.sym("@P", tString)}
					lo := posInt(b, "lo")
					if sz > 0 {
						f["MinSize"] = b.i64(lo)
						if sz == 1 {
							b.pin("len(S)", lo)
						} else {
							b.pin("len(S)", b.sub(lo, 1))
						}
					}
					b.pin("match(@P,S)", match)
					m := b.types(b.tdef(b.atom("T"), f))
					o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.sym("S", tString))), match && sz != 2, "a string against a pattern")
				})
			}
		}
		c.check("string with an invalid pattern, as "+form, &Scenario{fails: map[string]int{"regexp.Compile": 1}}, func(b *B, o *O) {
			m := b.types(b.tdef(b.atom("T"), F{"Type": "String", "Pattern": b.sym("@P", tString)}))
			o.reject(b.validate(m, b.atom("T"), b.strForm(form, b.sym("S", tString))), "a string against an invalid pattern")
		})
		// a size violation is reported even when the value list is satisfied
		for _, bad := range []int{0, 1, 2} {
			bad := bad
			c.check(fmt.Sprintf("string value list and size bounds together (%d) as %s", bad, form), &Scenario{}, func(b *B, o *O) {
				lo := posInt(b, "lo")
				hi := b.e.arith("+", lo, nnInt(b, "gap"), types.Typ[types.Int64])
				ln := lo
				if bad == 1 {
					ln = b.sub(lo, 1)
				} else if bad == 2 {
					ln = b.add(hi, 1)
				}
				b.pin("len(@v1)", ln)
				m := b.types(b.tdef(b.atom("T"), F{"Type": "String", "Values": b.list(b.atom("v0"), b.atom("v1")), "MinSize": b.i64(lo), "MaxSize": b.i64(hi)}))
				o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.atom("v1"))), bad == 0, "a listed string")
			})
		}
	}
}

var numTypes = []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"}

var intRange = map[string][2]string{
	"Int8":  {"-128", "127"},
	"Int16": {"-32768", "32767"},
	"Int32": {"-2147483648", "2147483647"},
	"Int64": {"-9223372036854775808", "9223372036854775807"},
}

func (b *B) anyDec(n *Term) *Term {
	d := b.dec(n)
	return b.any(d.t, d)
}

func runC02(c *C) {
	real := types.Typ[types.Float64]
	for _, nt := range numTypes {
		nt := nt
		whole := ""
		if _, isInt := intRange[nt]; isInt {
			whole = "#i"
		}
		for _, how := range viaWays {
			how := how
			type nc struct {
				name     string
				min, max bool
				val      func(b *B, lo, hi *Term) *Term
				ok       bool
			}
			d := func(b *B) *Term { return b.sym("++d"+whole, real) }
			cases := []nc{
				{"below the minimum", true, false, func(b *B, lo, hi *Term) *Term { return b.e.arith("-", lo, d(b), real) }, false},
				{"the minimum", true, false, func(b *B, lo, hi *Term) *Term { return lo }, true},
				{"above the maximum", false, true, func(b *B, lo, hi *Term) *Term { return b.e.arith("+", hi, d(b), real) }, false},
				{"the maximum", false, true, func(b *B, lo, hi *Term) *Term { return hi }, true},
				{"below both", true, true, func(b *B, lo, hi *Term) *Term { return b.e.arith("-", lo, d(b), real) }, false},
				{"the minimum of both", true, true, func(b *B, lo, hi *Term) *Term { return lo }, true},
				{"the maximum of both", true, true, func(b *B, lo, hi *Term) *Term { return hi }, true},
				{"above both", true, true, func(b *B, lo, hi *Term) *Term { return b.e.arith("+", hi, d(b), real) }, false},
				{"between both", true, true, func(b *B, lo, hi *Term) *Term { return b.e.arith("+", lo, b.sym("+e"+whole, real), real) }, true},
			}
			if _, isInt := intRange[nt]; !isInt {
				cases = append(cases,
					nc{"above the minimum", true, false, func(b *B, lo, hi *Term) *Term { return b.e.arith("+", lo, d(b), real) }, true},
					nc{"below the maximum", false, true, func(b *B, lo, hi *Term) *Term { return b.e.arith("-", hi, d(b), real) }, true},
					nc{"without bounds", false, false, func(b *B, lo, hi *Term) *Term { return b.num("x") }, true},
					nc{"with a fraction", false, false, func(b *B, lo, hi *Term) *Term { return b.num("x#h") }, true})
			} else {
				cases = append(cases,
					nc{"with a fraction, without bounds", false, false, func(b *B, lo, hi *Term) *Term { return b.num("x#h") }, false},
					nc{"with a fraction above the minimum", true, false, func(b *B, lo, hi *Term) *Term { return b.e.T.Const(constant.MakeFloat64(5.5), real) }, false},
					nc{"with a fraction between both", true, true, func(b *B, lo, hi *Term) *Term { return b.e.arith("+", lo, b.sym("+e#h", real), real) }, false})
			}
			for _, cs := range cases {
				cs := cs
				c.check(fmt.Sprintf("%s value %s, %s", nt, cs.name, how), &Scenario{}, func(b *B, o *O) {
					lo, hi := b.num("lo"+whole), b.num("hi"+whole)
					if cs.min && cs.max {
						// hi = lo + e + g, so that lo <= lo+e <= hi
						hi = b.e.arith("+", b.e.arith("+", lo, b.sym("+e"+whole, real), real), b.sym("+g"+whole, real), real)
					}
					if _, isInt := intRange[nt]; isInt {
						if cs.min && !cs.max {
							lo = b.e.T.Int(5)
							hi = lo
						} else if cs.max && !cs.min {
							hi = b.e.T.Int(5)
						}
					}
					f := F{"Type": nt}
					if cs.min {
						f["Min"] = b.dec(lo)
					}
					if cs.max {
						f["Max"] = b.dec(hi)
					}
					v := cs.val(b, lo, hi)
					T := b.atom("T")
					tds, name, x := b.via(how, b.tdef(T, f), T, b.anyDec(v))
					m := b.types(tds...)
					o.verdict(b.validate(m, name, x), cs.ok, "a number "+cs.name)
				})
			}
		}
		if r, ok := intRange[nt]; ok {
			for _, cs := range []struct {
				name string
				i, k int
				ok   bool
				f    func(b *B) F
			}{
				{"smallest value", 0, 0, true, nil}, {"one below the smallest value", 0, -1, false, nil},
				{"largest value", 1, 0, true, nil}, {"one above the largest value", 1, 1, false, nil},
				{"one above the largest value, with only a minimum declared", 1, 1, false, func(b *B) F { return F{"Min": b.dec(b.e.T.Int(-5))} }},
				{"one below the smallest value, with only a maximum declared", 0, -1, false, func(b *B) F { return F{"Max": b.dec(b.e.T.Int(5))} }},
				{"largest value, with only a minimum declared", 1, 0, true, func(b *B) F { return F{"Min": b.dec(b.e.T.Int(-5))} }},
				{"smallest value, with only a maximum declared", 0, 0, true, func(b *B) F { return F{"Max": b.dec(b.e.T.Int(5))} }},
			} {
				cs := cs
				for _, base := range []bool{false, true} {
					if base && cs.f != nil {
						continue
					}
					base := base
					c.check(fmt.Sprintf("%s range: %s (base type %v)", nt, cs.name, base), &Scenario{}, func(b *B, o *O) {
						v := b.e.arith("+", b.e.T.bigInt(r[cs.i]), b.e.T.Int(int64(cs.k)), real)
						f := F{}
						if cs.f != nil {
							f = cs.f(b)
						}
						m := b.types(b.tdef(b.atom("T"), f.with("Type", nt)))
						name := b.atom("T")
						if base {
							name = b.e.T.Str(nt)
						}
						o.verdict(b.validate(m, name, b.anyDec(v)), cs.ok, "the "+cs.name+" of "+nt)
					})
				}
			}
		}
	}
}

func runC03(c *C) {
	for _, kind := range []string{"Array", "Map"} {
		kind := kind
		mk := func(b *B, vs ...*Term) *Term {
			if kind == "Array" {
				return b.listAny(vs...)
			}
			var kv []*Term
			for i, v := range vs {
				kv = append(kv, b.atom(fmt.Sprint("k", i)), v)
			}
			return b.mapAny(kv...)
		}
		def := func(b *B, f F, items interface{}) F {
			f = f.with("Type", kind).with("Items", items)
			if kind == "Map" {
				f["Keys"] = "String"
			}
			return f
		}
		// sizes, for collections of any length
		for _, sc := range sizeCases {
			sc := sc
			for _, items := range []string{"Any"} {
				items := items
				c.check(fmt.Sprintf("%s of %s, size %s", kind, items, sc.name), &Scenario{}, func(b *B, o *O) {
					f := b.bounds(sc, "V")
					m := b.types(b.tdef(b.atom("T"), def(b, f, items)))
					t := types.Type(tListAny)
					if kind == "Map" {
						t = tMapAny
					}
					o.verdict(b.validate(m, b.atom("T"), b.any(t, b.sym("V", t))), sc.ok, "a collection, size "+sc.name+",")
				})
			}
		}
		// concrete small sizes with valid items of a checked type
		for n := 0; n <= 4; n++ {
			for _, d := range []int{-1, 0, 1} {
				for _, which := range []string{"MinSize", "MaxSize"} {
					n, d, which := n, d, which
					if n+d < 0 {
						continue
					}
					ok := which == "MinSize" && n >= n+d || which == "MaxSize" && n <= n+d
					c.check(fmt.Sprintf("%s of Item with %d items, %s=%d", kind, n, which, n+d), &Scenario{}, func(b *B, o *O) {
						var vs []*Term
						for i := 0; i < n; i++ {
							vs = append(vs, b.str(b.sym(fmt.Sprint("s", i), tString)))
						}
						m := b.types(b.tdef(b.atom("I"), F{"Type": "String"}), b.tdef(b.atom("T"), def(b, F{which: b.i64(n + d)}, b.atom("I"))))
						o.verdict(b.validate(m, b.atom("T"), mk(b, vs...)), ok, fmt.Sprintf("a collection of %d items with %s %d", n, which, n+d))
					})
				}
			}
		}
		// items of a type without parameters
		for _, bare := range []string{"Array", "Map", "UnitValue", "String", "Struct", "Any", "Bool"} {
			for _, v := range []string{"list", "empty list", "list of lists", "map", "empty map", "unit value", "text", "truth value"} {
				bare, v := bare, v
				c.check(fmt.Sprintf("%s of %s, an item that is a %s", kind, bare, v), &Scenario{}, func(b *B, o *O) {
					item := map[string]func() *Term{"list": func() *Term { return b.listAny(b.str("x"), b.boolAny(true)) }, "empty list": func() *Term { return b.listAny() },
						"list of lists": func() *Term { return b.listAny(b.listAny(b.str("x")), b.listAny()) }, "map": func() *Term { return b.mapAny(b.atom("k"), b.boolAny(true)) },
						"empty map": func() *Term { return b.mapAny() }, "unit value": func() *Term { return b.str("5 m") }, "text": func() *Term { return b.str("no-unit") }, "truth value": func() *Term { return b.boolAny(true) }}[v]()
					ok := map[string]bool{"Array": strings.Contains(v, "list"), "Map": strings.Contains(v, "map"), "UnitValue": v == "unit value", "String": v == "text" || v == "unit value",
						"Struct": v == "empty map", "Any": true, "Bool": v == "truth value"}[bare]
					if bare == "Struct" && v == "map" {
						return // whether a struct of no fields has unknown ones is another property's
					}
					m := b.types(b.tdef(b.atom("T"), def(b, F{}, bare)))
					o.verdict(b.validate(m, b.atom("T"), mk(b, item)), ok, "an item that is a "+v)
				})
			}
		}
		// items
		for n := 1; n <= 3; n++ {
			for bad := -1; bad < n; bad++ {
				n, bad := n, bad
				c.check(fmt.Sprintf("%s with %d constrained items, invalid item %d", kind, n, bad), &Scenario{}, func(b *B, o *O) {
					lo := posInt(b, "lo")
					var vs []*Term
					for i := 0; i < n; i++ {
						s := fmt.Sprint("s", i)
						if i == bad {
							b.pin("len("+s+")", b.sub(lo, 1))
						} else {
							b.pin("len("+s+")", lo)
						}
						vs = append(vs, b.str(b.sym(s, tString)))
					}
					m := b.types(b.tdef(b.atom("I"), F{"Type": "String", "MinSize": b.i64(lo)}), b.tdef(b.atom("T"), def(b, F{}, b.atom("I"))))
					o.verdict(b.validate(m, b.atom("T"), mk(b, vs...)), bad < 0, "a collection with constrained items")
				})
				c.check(fmt.Sprintf("%s with %d base-type items, item %d of the wrong kind", kind, n, bad), &Scenario{}, func(b *B, o *O) {
					var vs []*Term
					for i := 0; i < n; i++ {
						if i == bad {
							vs = append(vs, b.str(b.sym("s", tString)))
						} else {
							vs = append(vs, b.any(tBool, b.sym(fmt.Sprint("b", i), tBool)))
						}
					}
					m := b.types(b.tdef(b.atom("T"), def(b, F{}, "Bool")))
					o.verdict(b.validate(m, b.atom("T"), mk(b, vs...)), bad < 0, "a collection of Bool items")
				})
			}
		}
		for _, n := range []int{8, 20} {
			for _, bad := range []int{-1, 0, n / 2, n - 1} {
				for _, k := range valueKinds {
					if k.name == "bool" || k.name == "*bool" || (n > 8 && k.name != "text") {
						continue
					}
					n, bad, k := n, bad, k
					c.check(fmt.Sprintf("%s with %d items, item %d is a %s", kind, n, bad, k.name), nil, func(b *B, o *O) {
						var vs []*Term
						for i := 0; i < n; i++ {
							if i == bad {
								vs = append(vs, k.mk(b))
							} else {
								vs = append(vs, b.any(tBool, b.sym(fmt.Sprint("b", i), tBool)))
							}
						}
						m := b.types(b.tdef(b.atom("T"), def(b, F{}, "Bool")))
						o.verdict(b.validate(m, b.atom("T"), mk(b, vs...)), bad < 0, "a collection of Bool items")
					})
				}
			}
		}
		c.check(kind+" of Any items accepts every item", nil, func(b *B, o *O) {
			m := b.types(b.tdef(b.atom("T"), def(b, F{}, "Any")))
			o.accept(b.validate(m, b.atom("T"), mk(b, b.str("x"), b.any(tBool, b.e.T.Bool(true)), b.anyDec(b.num("n")), mk(b))), "a collection of Any")
		})
		c.check(kind+" with an undefined item type", nil, func(b *B, o *O) {
			m := b.types(b.tdef(b.atom("T"), def(b, F{}, b.atom("Nowhere"))))
			o.reject(b.validate(m, b.atom("T"), mk(b, b.str("x"))), "a collection whose item type is undefined")
		})
		c.check(kind+" nested, invalid inner item", nil, func(b *B, o *O) {
			m := b.types(b.tdef(b.atom("I"), def(b, F{}, "Bool")), b.tdef(b.atom("T"), def(b, F{}, b.atom("I"))))
			t := b.any(tBool, b.e.T.Bool(true))
			o.accept(b.validate(m, b.atom("T"), mk(b, mk(b, t), mk(b))), "nested collections")
			o.reject(b.validate(m, b.atom("T"), mk(b, mk(b, t), mk(b, t, b.str("x")))), "a nested collection with an invalid item")
			o.reject(b.validate(m, b.atom("T"), mk(b, mk(b, t), t)), "a scalar in place of a nested collection")
		})
		c.check(kind+" base type name", nil, func(b *B, o *O) {
			wrong := b.str("x")
			m := b.types(b.tdef(b.atom("T"), def(b, F{}, "Any")))
			o.reject(b.validate(m, b.atom("T"), wrong), "a string")
			if kind == "Array" {
				o.reject(b.validate(m, b.atom("T"), b.mapAny(b.atom("k"), wrong)), "a map")
			} else {
				o.reject(b.validate(m, b.atom("T"), b.listAny(wrong)), "a list")
			}
			o.reject(b.validate(m, b.atom("T"), b.e.T.Nil()), "nothing")
		})
	}
}

func runC04(c *C) {
	for _, extra := range []string{"a", "ID", "idd", "i", "", "Name", "name ", "x-ext", "_id", "id.name"} {
		extra := extra
		c.check(fmt.Sprintf("struct with fields id and name and the key %q", extra), nil, func(b *B, o *O) {
			m := b.types(b.tdef("T", F{"Type": "Struct", "Fields": b.list(b.field("id", F{"Type": "String"}), b.field("name", F{"Type": "String"}))}))
			o.accept(b.validate(m, b.e.T.Str("T"), b.mapAny(b.e.T.Str("id"), b.str("x"), b.e.T.Str("name"), b.str("y"))), "the struct value")
			o.reject(b.validate(m, b.e.T.Str("T"), b.mapAny(b.e.T.Str("id"), b.str("x"), b.e.T.Str("name"), b.str("y"), b.e.T.Str(extra), b.str("z"))), "a struct value with an undeclared field")
			o.reject(b.validate(m, b.e.T.Str("T"), b.mapAny(b.e.T.Str(extra), b.str("z"))), "a struct value with an undeclared field")
		})
	}
	// all presence combinations of three fields, each required or optional, in every order of declaration
	for n := 0; n <= 3; n++ {
		for req := 0; req < 1<<uint(n); req++ {
			for present := 0; present < 1<<uint(n); present++ {
				n, req, present := n, req, present
				c.check(fmt.Sprintf("struct of %d fields, required %b, present %b", n, req, present), nil, func(b *B, o *O) {
					var fs, kv []*Term
					for i := 0; i < n; i++ {
						fs = append(fs, b.field(b.atom(fmt.Sprint("f", i)), F{"Type": "String", "Required": req>>uint(i)&1 == 1}))
						if present>>uint(i)&1 == 1 {
							kv = append(kv, b.atom(fmt.Sprint("f", i)), b.str(b.sym(fmt.Sprint("s", i), tString)))
						}
					}
					m := b.types(b.tdef(b.atom("T"), F{"Type": "Struct", "Fields": b.list(fs...)}))
					o.verdict(b.validate(m, b.atom("T"), b.mapAny(kv...)), req&^present == 0, "a struct value")
				})
			}
		}
		for at := 0; at <= n; at++ {
			n, at := n, at
			c.check(fmt.Sprintf("struct of %d fields with an undeclared field at %d", n, at), nil, func(b *B, o *O) {
				var fs, kv []*Term
				for i := 0; i <= n; i++ {
					if i == at {
						kv = append(kv, b.atom("zz"), b.str("x"))
					}
					if i < n {
						fs = append(fs, b.field(b.atom(fmt.Sprint("f", i)), F{"Type": "String"}))
						kv = append(kv, b.atom(fmt.Sprint("f", i)), b.str(b.sym(fmt.Sprint("s", i), tString)))
					}
				}
				m := b.types(b.tdef(b.atom("T"), F{"Type": "Struct", "Fields": b.list(fs...)}))
				o.reject(b.validate(m, b.atom("T"), b.mapAny(kv...)), "a struct value with an undeclared field")
			})
		}
		for bad := 0; bad < n; bad++ {
			n, bad := n, bad
			for _, named := range []bool{false, true} {
				named := named
				for _, req := range []bool{false, true} {
					req := req
					c.check(fmt.Sprintf("struct of %d fields, invalid field %d, named type %v, required %v", n, bad, named, req), nil, func(b *B, o *O) {
						var fs, kv []*Term
						ft := b.e.T.Str("String")
						if named {
							ft = b.atom("F")
						}
						for i := 0; i < n; i++ {
							fs = append(fs, b.field(b.atom(fmt.Sprint("f", i)), F{"Type": ft, "Required": req}))
							v := b.str(b.sym(fmt.Sprint("s", i), tString))
							if i == bad {
								v = b.any(tBool, b.sym("bb", tBool))
							}
							kv = append(kv, b.atom(fmt.Sprint("f", i)), v)
						}
						m := b.types(b.tdef(b.atom("F"), F{"Type": "String"}), b.tdef(b.atom("T"), F{"Type": "Struct", "Fields": b.list(fs...)}))
						o.reject(b.validate(m, b.atom("T"), b.mapAny(kv...)), "a struct value with an invalid field")
					})
				}
			}
		}
	}
	// every kind of field against every kind of value
	for _, tn := range append([]string{"Bool", "String", "Array", "Map", "Struct", "Enum"}, numTypes...) {
		for _, k := range valueKinds {
			tn, k := tn, k
			for _, req := range []bool{false, true} {
				req := req
				c.check(fmt.Sprintf("a %s in a field of type %s, required %v", k.name, tn, req), nil, func(b *B, o *O) {
					f := b.kindSpec(tn).with("Required", req)
					m := b.types(b.tdef(b.atom("R"), F{"Type": "Struct", "Fields": b.list(b.field(b.atom("f"), f), b.field(b.atom("g"), F{"Type": "String"}))}))
					o.verdict(b.validate(m, b.atom("R"), b.mapAny(b.atom("f"), k.mk(b), b.atom("g"), b.str(b.atom("y")))), hasWord(kindAccepts(tn), k.name), "a "+k.name+" value of a field")
				})
			}
		}
	}
	for _, n := range []int{6, 14} {
		for _, bad := range []int{0, n / 2, n - 1, n} {
			n, bad := n, bad
			c.check(fmt.Sprintf("struct of %d fields, required and missing %d, undeclared, invalid", n, bad), nil, func(b *B, o *O) {
				var fs, all, missing, invalid []*Term
				for i := 0; i < n; i++ {
					nm := b.atom(fmt.Sprint("f", i))
					fs = append(fs, b.field(nm, F{"Type": "String", "Required": i == bad}))
					all = append(all, nm, b.str(b.atom(fmt.Sprint("s", i))))
					if i != bad {
						missing = append(missing, nm, b.str(b.atom(fmt.Sprint("s", i))))
						invalid = append(invalid, nm, b.str(b.atom(fmt.Sprint("s", i))))
					} else {
						invalid = append(invalid, nm, b.listAny())
					}
				}
				m := b.types(b.tdef(b.atom("T"), F{"Type": "Struct", "Fields": b.list(fs...)}))
				o.accept(b.validate(m, b.atom("T"), b.mapAny(all...)), "a complete struct")
				o.verdict(b.validate(m, b.atom("T"), b.mapAny(missing...)), bad == n, "an incomplete struct")
				o.verdict(b.validate(m, b.atom("T"), b.mapAny(invalid...)), bad == n, "a struct with an invalid field")
				o.reject(b.validate(m, b.atom("T"), b.mapAny(append(all, b.atom("zz"), b.str("x"))...)), "a struct with an undeclared field")
			})
		}
	}
	c.check("struct field with inline constraints", nil, func(b *B, o *O) {
		lo := posInt(b, "lo")
		b.pin("len(S)", b.sub(lo, 1))
		b.pin("len(Q)", lo)
		m := b.types(b.tdef(b.atom("T"), F{"Type": "Struct", "Fields": b.list(b.field(b.atom("f"), F{"Type": "String", "MinSize": b.i64(lo)}))}))
		o.reject(b.validate(m, b.atom("T"), b.mapAny(b.atom("f"), b.str(b.sym("S", tString)))), "a field violating its inline constraint")
		o.accept(b.validate(m, b.atom("T"), b.mapAny(b.atom("f"), b.str(b.sym("Q", tString)))), "a field satisfying its inline constraint")
	})
	c.check("nested structs are validated at every depth", nil, func(b *B, o *O) {
		fs := func(t interface{}) *Term {
			return b.list(b.field(b.atom("f"), F{"Type": t, "Required": true}), b.field(b.atom("g"), F{"Type": "Bool"}))
		}
		m := b.types(b.tdef(b.atom("T3"), F{"Type": "Struct", "Fields": fs("String")}), b.tdef(b.atom("T2"), F{"Type": "Struct", "Fields": fs(b.atom("T3"))}), b.tdef(b.atom("T1"), F{"Type": "Struct", "Fields": fs(b.atom("T2"))}))
		s := b.str(b.sym("s", tString))
		in := func(v *Term, more ...*Term) *Term { return b.mapAny(append([]*Term{b.atom("f"), v}, more...)...) }
		t := b.any(tBool, b.e.T.Bool(true))
		o.accept(b.validate(m, b.atom("T1"), in(in(in(s)))), "a valid nested value")
		o.accept(b.validate(m, b.atom("T1"), in(in(in(s, b.atom("g"), t)))), "a valid nested value")
		o.reject(b.validate(m, b.atom("T1"), in(in(in(t)))), "an invalid innermost field")
		o.reject(b.validate(m, b.atom("T1"), in(in(b.mapAny()))), "a missing innermost required field")
		o.reject(b.validate(m, b.atom("T1"), in(in(in(s, b.atom("zz"), t)))), "an undeclared innermost field")
		o.reject(b.validate(m, b.atom("T1"), in(in(in(s), b.atom("g"), s))), "an invalid field at depth two")
		o.reject(b.validate(m, b.atom("T1"), in(b.mapAny(b.atom("g"), t))), "a missing field at depth two")
		o.reject(b.validate(m, b.atom("T1"), in(s)), "a scalar in place of a struct")
	})
	c.check("structs inside collections", nil, func(b *B, o *O) {
		m := b.types(b.tdef(b.atom("R"), F{"Type": "Struct", "Fields": b.list(b.field(b.atom("f"), F{"Type": "String", "Required": true}))}),
			b.tdef(b.atom("L"), F{"Type": "Array", "Items": b.atom("R")}), b.tdef(b.atom("M"), F{"Type": "Map", "Keys": "String", "Items": b.atom("R")}))
		good := func() *Term { return b.mapAny(b.atom("f"), b.str("x")) }
		o.accept(b.validate(m, b.atom("L"), b.listAny(good(), good())), "a list of valid structs")
		o.reject(b.validate(m, b.atom("L"), b.listAny(good(), b.mapAny())), "a list with an incomplete struct")
		o.accept(b.validate(m, b.atom("M"), b.mapAny(b.atom("a"), good())), "a map of valid structs")
		o.reject(b.validate(m, b.atom("M"), b.mapAny(b.atom("a"), good(), b.atom("b"), b.mapAny())), "a map with an incomplete struct")
	})
}

func runC05(c *C) {
	for _, tn := range append([]string{"Bool", "String", "Array", "Map", "Struct", "Enum", "UUID", "Timestamp", "UnitValue", "Any"}, numTypes...) {
		for _, k := range valueKinds {
			if k.name == "nil" && tn == "Any" {
				continue
			}
			tn, k := tn, k
			for _, alias := range []bool{false, true} {
				alias := alias
				c.check(fmt.Sprintf("a %s against %s, through an alias %v", k.name, tn, alias), &Scenario{fails: map[string]int{"time.Parse": 1, "big.ParseFloat": 1}}, func(b *B, o *O) {
					f := b.kindSpec(tn)
					b.pin("len(@x)", 5)
					m := b.types(b.tdef(b.atom("T"), f), b.tdef(b.atom("A"), F{"Type": b.atom("T")}))
					n := b.atom("T")
					if alias {
						n = b.atom("A")
					}
					o.verdict(b.validate(m, n, k.mk(b)), hasWord(kindAccepts(tn), k.name), "a "+k.name+" value")
				})
			}
		}
	}
	for _, tn := range append([]string{"Bool", "String", "Array", "Map", "Struct", "Enum", "UUID", "Timestamp", "UnitValue", "Any", "Bytes", "Union"}, numTypes...) {
		tn := tn
		c.check("whether "+tn+" is a number type", nil, func(b *B, o *O) {
			m := b.types(b.tdef(b.atom("T"), F{"Type": "String"}))
			num := false
			for _, n := range numTypes {
				num = num || n == tn
			}
			o.boolean(b.call(nil, "", "Model.IsNumericType", m, b.obj("TypeSpec", F{"Type": tn})), num, "IsNumericType of "+tn)
		})
	}
	// Enum membership
	for _, form := range strForms {
		form := form
		for n := 1; n <= 3; n++ {
			for i := 0; i <= n; i++ {
				n, i := n, i
				c.check(fmt.Sprintf("enum of %d symbols, symbol %d, as %s", n, i, form), nil, func(b *B, o *O) {
					var es []interface{}
					for j := 0; j < n; j++ {
						es = append(es, b.atom(fmt.Sprint("e", j)))
					}
					v := b.atom("other")
					if i < n {
						v = es[i].(*Term)
					}
					m := b.types(b.tdef(b.atom("T"), F{"Type": "Enum", "Elements": b.elems(es...)}))
					o.verdict(b.validate(m, b.atom("T"), b.strForm(form, v)), i < n, "an enum symbol")
				})
			}
		}
		c.check("enum symbols and texts like them, as "+form, nil, func(b *B, o *O) {
			m := b.types(b.tdef(b.atom("T"), F{"Type": "Enum", "Elements": b.elems("Red", "green_light", "B2")}))
			for _, t := range []struct {
				s  string
				ok bool
			}{{"Red", true}, {"red", false}, {"RED", false}, {"Re", false}, {"Redd", false}, {" Red", false}, {"Red ", false}, {"green_light", true}, {"Green_light", false}, {"green", false}, {"green-light", false}, {"B2", true}, {"B", false}, {"b2", false}, {"Red,B2", false}, {"0", false}, {"Red|B2", false}} {
				o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.e.T.Str(t.s))), t.ok, fmt.Sprintf("the text %q of an enum", t.s))
			}
		})
		c.check("enum, empty text, as "+form, nil, func(b *B, o *O) {
			m := b.types(b.tdef(b.atom("T"), F{"Type": "Enum", "Elements": b.elems(b.atom("e0"))}))
			o.reject(b.validate(m, b.atom("T"), b.strForm(form, b.e.T.Str(""))), "the empty string")
		})
		for _, ok := range []bool{true, false} {
			ok := ok
			tsOK := 1
			if ok {
				tsOK = 0
			}
			c.check(fmt.Sprintf("timestamp text that parses=%v, as %s", ok, form), &Scenario{fails: map[string]int{"time.Parse": tsOK}}, func(b *B, o *O) {
				m := b.types(b.tdef(b.atom("T"), F{"Type": "Timestamp"}))
				o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.sym("S", tString))), ok, "a Timestamp text")
			})
		}
		for _, u := range []struct {
			s  string
			ok bool
		}{{"1ce437b0-1dd2-11b2-bc26-003ee1be85f9", true}, {"1ce437b0-1dd2-11b2-bc26-003ee1be85f", false}, {"1ce437b001dd2-11b2-bc26-003ee1be85f9", false}, {"1ce437b0-1dd2011b2-bc26-003ee1be85f9", false},
			{"1ce437b0-1dd2-11b20bc26-003ee1be85f9", false}, {"1ce437b0-1dd2-11b2-bc260003ee1be85f9", false}, {"1ce437b0-1dd2-11b2-bc26-003ee1be85f91", false}, {"1ce437g0-1dd2-11b2-bc26-003ee1be85f9", false}, {"1ce437b0-1dd2-11b2-bc26-003ee1be85fz", false}, {"1CE437B0-1DD2-11B2-BC26-003EE1BE85F9", true}, {"1CE437G0-1DD2-11B2-BC26-003EE1BE85F9", false}, {"1CE437B0-1DD2-11B2-BC26-003EE1BE85FZ", false}, {"", false}} {
			u := u
			c.check(fmt.Sprintf("uuid %q as %s", u.s, form), nil, func(b *B, o *O) {
				m := b.types(b.tdef(b.atom("T"), F{"Type": "UUID"}))
				o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.e.T.Str(u.s))), u.ok, "the UUID text "+u.s)
			})
		}
		for _, u := range []struct {
			s  string
			ok bool
		}{{"100.00 USD", true}, {"5 USD", true}, {"100USD", false}, {" USD", false}, {"", false}, {"100 ", false}, {"100\tUSD", false}, {"5\tUSD m", false}, {"5\tUSD USD", false}, {"5 USD ", false}, {"5  USD", false}, {"5 usd", false}, {"5 USD EUR", false}, {"Inf USD", false}, {"-5.25 EUR", true}, {"1e3 EUR", true}, {"5,5 EUR", false}, {"USD 5", false}} {
			u := u
			c.check(fmt.Sprintf("unit value %q as %s", u.s, form), &Scenario{hook: nil}, func(b *B, o *O) {
				m := b.types(b.tdef(b.atom("U"), F{"Type": "Enum", "Elements": b.elems("USD", "EUR")}), b.tdef(b.atom("T"), F{"Type": "UnitValue", "Value": "Decimal", "Unit": b.atom("U")}))
				o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.e.T.Str(u.s))), u.ok, "the UnitValue text "+u.s)
			})
		}
		for _, u := range []struct {
			s  string
			ok bool
		}{{"12 fluid ounces", true}, {"12 m", true}, {"12 fluid", false}, {"12 ounces", false}, {"12 fluid ounces x", false}, {"12 M", false}, {"12", false}, {"m", false}, {"12  m", false}} {
			u := u
			c.check(fmt.Sprintf("unit value %q with units of several words, as %s", u.s, form), nil, func(b *B, o *O) {
				m := b.types(b.tdef(b.atom("U"), F{"Type": "String", "Values": b.list(b.e.T.Str("fluid ounces"), b.e.T.Str("m"))}), b.tdef(b.atom("T"), F{"Type": "UnitValue", "Value": "Decimal", "Unit": b.atom("U")}))
				o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.e.T.Str(u.s))), u.ok, "the UnitValue text "+u.s)
			})
		}
		for bad := 0; bad < 4; bad++ {
			bad := bad
			c.check(fmt.Sprintf("unit value parts checked (%d) as %s", bad, form), nil, func(b *B, o *O) {
				fv := F{"Type": "Decimal"}
				if bad == 1 {
					fv["Min"] = b.dec(b.e.T.Int(500))
				}
				us, num := "USD", "100.00"
				if bad == 3 {
					num = "1x0"
				}
				if bad == 2 {
					us = "XXX"
				}
				m := b.types(b.tdef(b.atom("U"), F{"Type": "Enum", "Elements": b.elems("USD", "EUR")}), b.tdef(b.atom("V"), fv), b.tdef(b.atom("T"), F{"Type": "UnitValue", "Value": b.atom("V"), "Unit": b.atom("U")}))
				o.verdict(b.validate(m, b.atom("T"), b.strForm(form, b.e.T.Str(num+" "+us))), bad == 0, "a UnitValue text")
			})
		}
	}
	c.check("a UUID value against UUID", nil, func(b *B, o *O) {
		m := b.types(b.tdef(b.atom("T"), F{"Type": "UUID"}))
		o.accept(b.validate(m, b.atom("T"), b.any(b.typ("UUID"), b.sym("u", b.typ("UUID")))), "a UUID")
	})
	c.check("a Timestamp value against Timestamp", nil, func(b *B, o *O) {
		m := b.types(b.tdef(b.atom("T"), F{"Type": "Timestamp"}))
		tp := types.NewPointer(b.typ("Timestamp"))
		o.accept(b.validate(m, b.atom("T"), b.any(tp, b.ref(b.sym("ts", b.typ("Timestamp")), b.typ("Timestamp")))), "a Timestamp")
	})
	c.check("undefined types are reported", nil, func(b *B, o *O) {
		m := b.types(b.tdef(b.atom("T"), F{"Type": "String"}), b.tdef(b.atom("R"), F{"Type": "Struct", "Fields": b.list(b.field(b.atom("f"), F{"Type": b.atom("Nowhere")}))}))
		o.reject(b.validate(m, b.atom("Nowhere"), b.str("x")), "a value of an undefined type")
		o.reject(b.validate(m, b.atom("R"), b.mapAny(b.atom("f"), b.str("x"))), "a field of an undefined type")
	})
	c.check("validation leaves the model unchanged", nil, func(b *B, o *O) {
		m := b.types(b.tdef(b.atom("T"), F{"Type": "Struct", "Fields": b.list(b.field(b.atom("f"), F{"Type": "String", "MinSize": b.i64(2)}), b.field(b.atom("g"), F{"Type": "Int32", "Min": b.dec(b.e.T.Int(3))}))}))
		b.validate(m, b.atom("T"), b.mapAny(b.atom("f"), b.str("xyz"), b.atom("g"), b.anyDec(b.e.T.Int(8))))
		for _, ev := range b.e.events {
			if ev.kind == "mutate" {
				o.fail(c.p.pos(ev.pos), "validation writes to its input "+ev.what, nil)
			}
		}
	})
}

// valueKinds has a value of each kind.
var valueKinds = []struct {
	name string
	mk   func(b *B) *Term
}{
	{"nil", func(b *B) *Term { return b.e.T.Nil() }},
	{"bool", func(b *B) *Term { return b.any(tBool, b.sym("bv", tBool)) }},
	{"*bool", func(b *B) *Term { return b.any(types.NewPointer(tBool), b.ref(b.sym("bv", tBool), tBool)) }},
	{"number", func(b *B) *Term { return b.anyDec(b.e.T.Int(7)) }},
	{"text", func(b *B) *Term { return b.str(b.atom("x")) }},
	{"*text", func(b *B) *Term { return b.strForm("*string", b.atom("x")) }},
	{"list", func(b *B) *Term { return b.listAny(b.str(b.atom("x"))) }},
	{"map", func(b *B) *Term { return b.mapAny(b.atom("k"), b.str(b.atom("x"))) }},
}

func kindAccepts(tn string) string {
	switch tn {
	case "Bool":
		return "bool *bool"
	case "String", "Enum":
		return "text *text"
	case "Array":
		return "list"
	case "Map", "Struct":
		return "map"
	case "UUID", "Timestamp", "UnitValue":
		return ""
	case "Any":
		return "bool *bool number text *text list map"
	}
	return "number"
}

func hasWord(s, w string) bool {
	for _, x := range fields(s) {
		if x == w {
			return true
		}
	}
	return false
}

func (b *B) kindSpec(tn string) F {
	f := F{"Type": tn}
	switch tn {
	case "Array":
		f["Items"] = "Any"
	case "Map":
		f["Items"], f["Keys"] = "Any", "String"
	case "Struct":
		f["Fields"] = b.list(b.field(b.atom("k"), F{"Type": "String"}))
	case "Enum":
		f["Elements"] = b.elems(b.atom("x"), b.atom("y"))
	case "UnitValue":
		f["Value"], f["Unit"] = "Decimal", "String"
	}
	return f
}
