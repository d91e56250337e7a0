package main

// props_model.go: C06..C09, the model index and type relations.

import (
	"fmt"
	"strings"
)

var baseTypeNames = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"}

func init() {
	register(&Property{id: "C06", dress: true, rule: "NewModel rejects every duplicate type or http action name and otherwise makes exactly the declared and the base types resolvable by name.", run: runC06})
	register(&Property{id: "C07", dress: true, rule: "EquivalentTypes holds exactly for types with equal constraints, is symmetric, and is false for undefined names.", run: runC07})
	register(&Property{id: "C08", dress: true, rule: "ConvertInlineEnums moves every inline enum of a struct field to one top level enum with the same elements, refers to it, and leaves everything else alone.", run: runC08})
	register(&Property{id: "C09", dress: true, rule: "FindExampleType resolves exactly the targets that name a type, a field path of one, or an input or output of an http action.", run: runC09})
}

func (b *B) newModelRets(f F) []Ret {
	s := b.obj("Schema", f)
	b.e.building = true
	defer func() { b.e.building = false }()
	return b.call(nil, "", "NewModel", s)
}

func runC06(c *C) {
	for n := 1; n <= 4; n++ {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				n, i, j := n, i, j
				for _, kind := range []string{"types", "http actions"} {
					kind := kind
					c.check(fmt.Sprintf("%d %s, %d and %d share a name", n, kind, i, j), nil, func(b *B, o *O) {
						var xs []*Term
						for k := 0; k < n; k++ {
							nm := b.atom(fmt.Sprint("N", k))
							if k == j {
								nm = b.atom(fmt.Sprint("N", i))
							}
							if kind == "types" {
								xs = append(xs, b.tdef(nm, F{"Type": "String"}))
							} else {
								xs = append(xs, b.obj("HttpDef", F{"Name": nm, "Method": "GET"}))
							}
						}
						f := F{"Name": b.atom("S")}
						if kind == "types" {
							f["Types"] = b.list(xs...)
						} else {
							f["Http"] = b.list(xs...)
						}
						rs := b.newModelRets(f)
						if i != j {
							o.reject(rs, "a schema with a duplicate name")
							return
						}
						o.accept(rs, "a schema with distinct names")
						for _, r := range rs {
							if r.kind != RReturn {
								continue
							}
							m := valOf(r)
							for k := 0; k < n; k++ {
								fn := "Model.FindType"
								if kind != "types" {
									fn = "Model.FindHttp"
								}
								want := xs[k]
								o.expect(b.call(r.st, "", fn, m, b.atom(fmt.Sprint("N", k))), "a declared name must resolve to its declaration", func(q Ret) int {
									if q.kind != RReturn {
										return 0
									}
									return b.e.evalEq(q.st, q.val, want)
								})
								o.expect(b.call(r.st, "", fn, m, b.atom("Nowhere")), "an undeclared name must not resolve", func(q Ret) int {
									if q.kind != RReturn {
										return 0
									}
									return b.e.isNil(q.st, q.val)
								})
							}
						}
					})
				}
			}
		}
	}
	names := []string{"Foo", "foo", "FOO", "Foo_", "foo1", "FooBar", "Foobar"}
	for _, kind := range []string{"types", "http actions"} {
		kind := kind
		c.check("names of "+kind+" that differ only in case or length", nil, func(b *B, o *O) {
			var xs []*Term
			for _, n := range names {
				if kind == "types" {
					xs = append(xs, b.tdef(n, F{"Type": "String"}))
				} else {
					xs = append(xs, b.obj("HttpDef", F{"Name": n, "Method": "GET", "Path": "/" + n}))
				}
			}
			f, fn := F{"Name": b.atom("S"), "Types": b.list(xs...)}, "Model.FindType"
			if kind != "types" {
				f, fn = F{"Name": b.atom("S"), "Http": b.list(xs...)}, "Model.FindHttp"
			}
			rs := b.newModelRets(f)
			o.accept(rs, "a schema with distinct names")
			for _, r := range rs {
				if r.kind != RReturn {
					continue
				}
				for k, n := range names {
					want := xs[k]
					o.expect(b.call(r.st, "", fn, valOf(r), b.e.T.Str(n)), "a declared name must resolve to its declaration", func(q Ret) int {
						if q.kind != RReturn {
							return 0
						}
						return b.e.evalEq(q.st, q.val, want)
					})
				}
				for _, n := range []string{"fOO", "Fo", "", "Foo__", "FooBa", "foo bar", "string", "STRING"} {
					o.expect(b.call(r.st, "", fn, valOf(r), b.e.T.Str(n)), fmt.Sprintf("the name %q is not declared", n), func(q Ret) int {
						if q.kind != RReturn {
							return 0
						}
						return b.e.isNil(q.st, q.val)
					})
				}
			}
		})
	}
	for _, a := range []F{{"Method": "GET", "Path": "/a"}, {"Method": "PUT", "Path": "/a"}, {"Method": "GET", "Path": "/b"}} {
		a := a
		c.check(fmt.Sprintf("http actions of one name, the second %s %s", a["Method"], a["Path"]), nil, func(b *B, o *O) {
			h := b.obj("HttpDef", F{"Name": "x", "Method": "GET", "Path": "/a"})
			o.reject(b.newModelRets(F{"Http": b.list(h, b.obj("HttpDef", F{"Name": "y", "Method": "GET", "Path": "/y"}), b.obj("HttpDef", a.with("Name", "x")))}), "two http actions of one name")
		})
	}
	for _, t := range []string{"String", "Struct", "Enum", "Bool"} {
		t := t
		c.check("types of one name, the second of type "+t, nil, func(b *B, o *O) {
			o.reject(b.newModelRets(F{"Types": b.list(b.tdef("X", F{"Type": "String", "Pattern": b.atom("p")}), b.tdef("Y", F{"Type": "String"}), b.tdef("X", F{"Type": t}))}), "two types of one name")
		})
	}
	for _, bt := range baseTypeNames {
		bt := bt
		c.check("base type "+bt+" resolves and cannot be redeclared", nil, func(b *B, o *O) {
			o.reject(b.newModelRets(F{"Types": b.list(b.tdef(b.atom("X"), F{"Type": "String"}), b.tdef(bt, F{"Type": "String"}))}), "a type named as the base type "+bt)
			m := b.types(b.tdef(b.atom("X"), F{"Type": "String"}))
			o.expect(b.call(nil, "", "Model.FindType", m, b.e.T.Str(bt)), "the base type "+bt+" must resolve to itself", func(r Ret) int {
				if r.kind != RReturn || b.e.isNil(r.st, r.val) != 0 {
					return 0
				}
				a := b.e.evalEq(r.st, b.get(r.st, r.val, "Name"), b.e.T.Str(bt))
				if a != 1 {
					return a
				}
				return b.e.evalEq(r.st, b.get(r.st, r.val, "Type"), b.e.T.Str(bt))
			})
		})
	}
	c.check("the model carries the whole schema", nil, func(b *B, o *O) {
		f := F{"Name": b.atom("n"), "Namespace": b.atom("ns"), "Version": b.atom("v"), "Comment": b.atom("c"), "Base": b.atom("b"), "Sadl": b.atom("sadl"),
			"Types": b.list(b.tdef(b.atom("X"), F{"Type": "String"})), "Http": b.list(b.obj("HttpDef", F{"Name": b.atom("h")})),
			"Examples": b.list(b.obj("ExampleDef", F{"Target": b.atom("X")})), "Operations": b.list(b.obj("OperationDef", F{"Name": b.atom("op")})), "Annotations": b.annos("k", "v")}
		want := map[string]*Term{}
		s := b.obj("Schema", f)
		for k := range f {
			want[k] = b.get(b.st, s, k)
		}
		b.e.building = true
		rs := b.call(nil, "", "NewModel", s)
		b.e.building = false
		o.accept(rs, "a schema")
		o.expect(rs, "every part of the schema must be part of the model", func(r Ret) int {
			for k, w := range want {
				if n := b.e.evalEq(r.st, b.get(r.st, valOf(r), k), w); n != 1 {
					return n
				}
			}
			return 1
		})
	})
}

func (o *O) boolean(rs []Ret, want bool, what string) {
	o.expect(rs, fmt.Sprintf("%s: the result must be %v", what, want), func(r Ret) int {
		if r.kind != RReturn {
			return 0
		}
		n := o.b.e.decide(r.st, r.val)
		if n < 0 {
			return -1
		}
		if (n == 1) == want {
			return 1
		}
		return 0
	})
}

func runC07(c *C) {
	type pair struct {
		name string
		mk   func(b *B) (F, F)
		same bool
	}
	k := func(n string) func(b *B) *Term { return func(b *B) *Term { return b.sym("k", nil) } }
	_ = k
	var ps []pair
	add := func(name string, same bool, mk func(b *B) (F, F)) { ps = append(ps, pair{name, mk, same}) }
	add("different kinds", false, func(b *B) (F, F) { return F{"Type": "String"}, F{"Type": "Bytes"} })
	add("different names", false, func(b *B) (F, F) { return F{"Type": b.atom("A")}, F{"Type": b.atom("B")} })
	for _, t := range []string{"String", "Bytes", "Array", "Map"} {
		t := t
		base := func(b *B) F {
			f := F{"Type": t}
			if t == "Array" || t == "Map" {
				f["Items"] = "String"
			}
			if t == "Map" {
				f["Keys"] = "String"
			}
			return f
		}
		add(t+" unconstrained", true, func(b *B) (F, F) { return base(b), base(b) })
		for _, fl := range []string{"MinSize", "MaxSize"} {
			fl := fl
			add(t+" equal "+fl, true, func(b *B) (F, F) {
				return base(b).with(fl, b.i64(posInt(b, "n"))), base(b).with(fl, b.i64(posInt(b, "n")))
			})
			add(t+" different "+fl, false, func(b *B) (F, F) {
				return base(b).with(fl, b.i64(posInt(b, "n"))), base(b).with(fl, b.i64(b.e.arith("+", posInt(b, "n"), posInt(b, "d"), nil)))
			})
			add(t+" only one has "+fl, false, func(b *B) (F, F) { return base(b).with(fl, b.i64(posInt(b, "n"))), base(b) })
		}
	}
	for _, t := range numTypes {
		t := t
		add(t+" unconstrained", true, func(b *B) (F, F) { return F{"Type": t}, F{"Type": t} })
		for _, fl := range []string{"Min", "Max"} {
			fl := fl
			add(t+" equal "+fl, true, func(b *B) (F, F) { return F{"Type": t, fl: b.dec(b.num("x"))}, F{"Type": t, fl: b.dec(b.num("x"))} })
			add(t+" different "+fl, false, func(b *B) (F, F) {
				return F{"Type": t, fl: b.dec(b.num("x"))}, F{"Type": t, fl: b.dec(b.e.arith("+", b.num("x"), b.num("++d"), nil))}
			})
			add(t+" only one has "+fl, false, func(b *B) (F, F) { return F{"Type": t, fl: b.dec(b.num("x"))}, F{"Type": t} })
		}
	}
	add("String equal pattern", true, func(b *B) (F, F) {
		return F{"Type": "String", "Pattern": b.atom("p")}, F{"Type": "String", "Pattern": b.atom("p")}
	})
	add("String different pattern", false, func(b *B) (F, F) {
		return F{"Type": "String", "Pattern": b.atom("p")}, F{"Type": "String", "Pattern": b.atom("q")}
	})
	add("String one pattern", false, func(b *B) (F, F) { return F{"Type": "String", "Pattern": b.atom("p")}, F{"Type": "String"} })
	for _, t := range []string{"String", "UUID"} {
		t := t
		add(t+" different reference", false, func(b *B) (F, F) {
			return F{"Type": t, "Reference": b.atom("p")}, F{"Type": t, "Reference": b.atom("q")}
		})
		add(t+" equal reference", true, func(b *B) (F, F) {
			return F{"Type": t, "Reference": b.atom("p")}, F{"Type": t, "Reference": b.atom("p")}
		})
	}
	for _, cs := range []struct {
		n    string
		a, b []string
		same bool
	}{{"equal", []string{"a", "b"}, []string{"a", "b"}, true}, {"reordered", []string{"a", "b", "c"}, []string{"c", "a", "b"}, true}, {"longer", []string{"a", "b"}, []string{"a", "b", "c"}, false},
		{"one different", []string{"a", "b"}, []string{"a", "c"}, false}, {"first different", []string{"a", "b"}, []string{"c", "b"}, false}, {"disjoint", []string{"a"}, []string{"b"}, false}} {
		cs := cs
		at := func(b *B, xs []string) (r []interface{}, l []*Term) {
			for _, x := range xs {
				r = append(r, b.atom(x))
				l = append(l, b.atom(x))
			}
			return
		}
		add("Enum elements "+cs.n, cs.same, func(b *B) (F, F) {
			x, _ := at(b, cs.a)
			y, _ := at(b, cs.b)
			return F{"Type": "Enum", "Elements": b.elems(x...)}, F{"Type": "Enum", "Elements": b.elems(y...)}
		})
		add("String values "+cs.n, cs.same, func(b *B) (F, F) {
			_, x := at(b, cs.a)
			_, y := at(b, cs.b)
			return F{"Type": "String", "Values": b.list(x...)}, F{"Type": "String", "Values": b.list(y...)}
		})
		add("Union variants "+cs.n, cs.same, func(b *B) (F, F) {
			f := func(xs []string) *Term {
				var ys []*Term
				for _, x := range xs {
					ys = append(ys, b.obj("UnionVariantDef", F{"Name": b.atom("n" + x), "Type": b.atom(x)}))
				}
				return b.list(ys...)
			}
			return F{"Type": "Union", "Variants": f(cs.a)}, F{"Type": "Union", "Variants": f(cs.b)}
		})
	}
	for _, t := range []string{"Array", "Map"} {
		t := t
		keys := ""
		if t == "Map" {
			keys = "String"
		}
		add(t+" equivalent named items", true, func(b *B) (F, F) {
			return F{"Type": t, "Items": b.atom("S1"), "Keys": keys}, F{"Type": t, "Items": b.atom("S2"), "Keys": keys}
		})
		add(t+" different named items", false, func(b *B) (F, F) {
			return F{"Type": t, "Items": b.atom("S1"), "Keys": keys}, F{"Type": t, "Items": b.atom("S3"), "Keys": keys}
		})
		add(t+" different base items", false, func(b *B) (F, F) {
			return F{"Type": t, "Items": "String", "Keys": keys}, F{"Type": t, "Items": "Bool", "Keys": keys}
		})
		add(t+" undefined items", false, func(b *B) (F, F) {
			return F{"Type": t, "Items": b.atom("S1"), "Keys": keys}, F{"Type": t, "Items": b.atom("Nowhere"), "Keys": keys}
		})
	}
	add("Map different keys", false, func(b *B) (F, F) {
		return F{"Type": "Map", "Items": "String", "Keys": "String"}, F{"Type": "Map", "Items": "String", "Keys": "UUID"}
	})
	add("UnitValue different units", false, func(b *B) (F, F) {
		return F{"Type": "UnitValue", "Value": "Decimal", "Unit": b.atom("S1")}, F{"Type": "UnitValue", "Value": "Decimal", "Unit": b.atom("S3")}
	})
	add("UnitValue different values", false, func(b *B) (F, F) {
		return F{"Type": "UnitValue", "Value": "Decimal", "Unit": b.atom("S1")}, F{"Type": "UnitValue", "Value": "Int32", "Unit": b.atom("S1")}
	})
	add("UnitValue equivalent units", true, func(b *B) (F, F) {
		return F{"Type": "UnitValue", "Value": "Decimal", "Unit": b.atom("S1")}, F{"Type": "UnitValue", "Value": "Decimal", "Unit": b.atom("S2")}
	})
	fs := func(b *B, xs ...interface{}) *Term {
		var ys []*Term
		for i := 0; i+1 < len(xs); i += 2 {
			ys = append(ys, b.field(xs[i], F{"Type": xs[i+1]}))
		}
		return b.list(ys...)
	}
	add("Struct equal fields", true, func(b *B) (F, F) {
		return F{"Type": "Struct", "Fields": fs(b, "a", "String", "b", "Bool")}, F{"Type": "Struct", "Fields": fs(b, "a", "String", "b", "Bool")}
	})
	add("Struct different number of fields", false, func(b *B) (F, F) {
		return F{"Type": "Struct", "Fields": fs(b, "a", "String", "b", "Bool")}, F{"Type": "Struct", "Fields": fs(b, "a", "String")}
	})
	add("Struct fields with different names", false, func(b *B) (F, F) {
		return F{"Type": "Struct", "Fields": fs(b, "a", "String")}, F{"Type": "Struct", "Fields": fs(b, "z", "String")}
	})
	add("Struct fields with different types", false, func(b *B) (F, F) {
		return F{"Type": "Struct", "Fields": fs(b, "a", "String")}, F{"Type": "Struct", "Fields": fs(b, "a", "Bool")}
	})
	for _, p := range [][2]string{{"Red", "red"}, {"a", "a "}, {"a", "ab"}, {"", "a"}, {"x_1", "x1"}} {
		p := p
		name := fmt.Sprintf("%q and %q", p[0], p[1])
		add("Enum elements "+name, false, func(b *B) (F, F) {
			return F{"Type": "Enum", "Elements": b.elems("z", p[0])}, F{"Type": "Enum", "Elements": b.elems("z", p[1])}
		})
		add("String values "+name, false, func(b *B) (F, F) {
			return F{"Type": "String", "Values": b.list(b.e.T.Str("z"), b.e.T.Str(p[0]))}, F{"Type": "String", "Values": b.list(b.e.T.Str("z"), b.e.T.Str(p[1]))}
		})
		add("String patterns "+name, false, func(b *B) (F, F) {
			return F{"Type": "String", "Pattern": p[0]}, F{"Type": "String", "Pattern": p[1]}
		})
	}
	for _, p := range []struct {
		x, y string
		same bool
	}{{"9007199254740992", "9007199254740993", false}, {"0.1", "0.10", true}, {"1", "1.0", true}, {"0", "-1", false}, {"100", "1000", false}, {"0.5", "0.25", false}, {"-3", "3", false}} {
		for _, t := range []string{"Int64", "Float64", "Decimal"} {
			p, t := p, t
			if t == "Int64" && strings.Contains(p.x+p.y, ".") {
				continue
			}
			for _, fl := range []string{"Min", "Max"} {
				fl := fl
				add(fmt.Sprintf("%s %s %s and %s", t, fl, p.x, p.y), p.same, func(b *B) (F, F) {
					return F{"Type": t, fl: b.dec(b.decimalConst(p.x))}, F{"Type": t, fl: b.dec(b.decimalConst(p.y))}
				})
			}
		}
	}
	c.check("types whose names differ only in case", nil, func(b *B, o *O) {
		m := b.types(b.tdef("Foo", F{"Type": "String"}), b.tdef("foo", F{"Type": "Bool"}), b.tdef("FOO", F{"Type": "String"}),
			b.tdef("A", F{"Type": "Struct", "Fields": fs(b, "x", "Foo")}), b.tdef("C", F{"Type": "Struct", "Fields": fs(b, "x", "FOO")}))
		for _, k := range []struct {
			x, y string
			same bool
		}{{"Foo", "foo", false}, {"Foo", "FOO", true}, {"foo", "FOO", false}, {"A", "C", true}, {"Foo", "String", true}, {"Foo", "string", false}} {
			o.boolean(b.call(nil, "", "Model.EquivalentTypesByName", m, b.e.T.Str(k.x), b.e.T.Str(k.y)), k.same, k.x+" and "+k.y)
			o.boolean(b.call(nil, "", "Model.EquivalentTypesByName", m, b.e.T.Str(k.y), b.e.T.Str(k.x)), k.same, k.y+" and "+k.x)
		}
	})
	for _, p := range ps {
		for _, swap := range []bool{false, true} {
			for _, byName := range []bool{false, true} {
				p, swap, byName := p, swap, byName
				c.check(fmt.Sprintf("%s (swapped %v, by name %v)", p.name, swap, byName), nil, func(b *B, o *O) {
					x, y := p.mk(b)
					if swap {
						x, y = y, x
					}
					t1, t2 := b.tdef(b.atom("X"), x), b.tdef(b.atom("Y"), y)
					m := b.types(b.tdef(b.atom("S1"), F{"Type": "String", "Pattern": b.atom("sp")}), b.tdef(b.atom("S2"), F{"Type": "String", "Pattern": b.atom("sp")}), b.tdef(b.atom("S3"), F{"Type": "String"}), t1, t2)
					if byName {
						o.boolean(b.call(nil, "", "Model.EquivalentTypesByName", m, b.atom("X"), b.atom("Y")), p.same, p.name)
						o.boolean(b.call(nil, "", "Model.EquivalentTypesByName", m, b.atom("X"), b.atom("X")), true, "a type and itself")
						return
					}
					s1 := b.obj("TypeSpec", x)
					s2 := b.obj("TypeSpec", y)
					o.boolean(b.call(nil, "", "Model.EquivalentTypes", m, s1, s2), p.same, p.name)
				})
			}
		}
	}
	c.check("undefined names are not equivalent to defined ones", nil, func(b *B, o *O) {
		m := b.types(b.tdef(b.atom("X"), F{"Type": "String"}))
		o.boolean(b.call(nil, "", "Model.EquivalentTypesByName", m, b.atom("X"), b.atom("Nowhere")), false, "a defined and an undefined name")
		o.boolean(b.call(nil, "", "Model.EquivalentTypesByName", m, b.atom("Nowhere"), b.atom("X")), false, "an undefined and a defined name")
	})
}

func runC08(c *C) {
	type fieldCase struct {
		name string // field name
		enum bool
	}
	find := func(b *B, st *State, m *Term, name *Term) (*Term, int) {
		ts, ok := b.items(b.e.res(st, b.get(st, m, "Types")))
		if !ok {
			return nil, -1
		}
		var hit *Term
		n := 0
		for _, t := range ts {
			if b.e.evalEq(st, b.get(st, t, "Name"), name) == 1 {
				hit = t
				n++
			}
		}
		return hit, n
	}
	symbols := func(b *B, st *State, td *Term) ([]*Term, bool) {
		es, ok := b.items(b.e.res(st, b.get(st, td, "Elements")))
		var out []*Term
		for _, e := range es {
			out = append(out, b.get(st, e, "Symbol"))
		}
		return out, ok
	}
	sameSyms := func(b *B, st *State, td *Term, want ...string) int {
		got, ok := symbols(b, st, td)
		if !ok {
			return -1
		}
		if len(got) != len(want) {
			return 0
		}
		for i, g := range got {
			if n := b.e.evalEq(st, g, b.atom(want[i])); n != 1 {
				return n
			}
		}
		return 1
	}
	conv := func(b *B, m *Term) []Ret {
		b.e.building = true
		defer func() { b.e.building = false }()
		return b.call(nil, "", "Model.ConvertInlineEnums", m)
	}
	for n := 1; n <= 3; n++ {
		for mask := 0; mask < 1<<uint(n); mask++ {
			n, mask := n, mask
			c.check(fmt.Sprintf("struct of %d fields, inline enums %b", n, mask), nil, func(b *B, o *O) {
				var fs []*Term
				names := []string{"color", "size", "shape"}
				for i := 0; i < n; i++ {
					f := F{"Type": "String", "Pattern": b.atom("pat"), "Required": true, "Comment": b.atom(fmt.Sprint("c", i)), "Annotations": b.annos("k", "v")}
					if mask>>uint(i)&1 == 1 {
						f = F{"Type": "Enum", "Elements": b.elems(b.atom(fmt.Sprint("x", i)), b.atom(fmt.Sprint("y", i))), "Required": true, "Comment": b.atom(fmt.Sprint("c", i)), "Annotations": b.annos("k", "v")}
					}
					fs = append(fs, b.field(names[i], f))
				}
				td := b.tdef("Thing", F{"Type": "Struct", "Fields": b.list(fs...)})
				m := b.types(b.tdef("Zero", F{"Type": "String"}), td, b.tdef("Last", F{"Type": "Bool"}))
				rs := conv(b, m)
				o.accept(rs, "a model with inline enums")
				o.expect(rs, "every inline enum becomes one top level enum with its elements, referenced by the field", func(r Ret) int {
					tds, ok := b.items(b.e.res(r.st, b.get(r.st, m, "Types")))
					if !ok {
						return -1
					}
					cnt := 3
					for i := 0; i < n; i++ {
						f := fs[i]
						if b.e.evalEq(r.st, b.get(r.st, f, "Comment"), b.atom(fmt.Sprint("c", i))) == 0 || b.e.evalEq(r.st, b.get(r.st, f, "Required"), b.e.T.Bool(true)) == 0 || b.e.evalEq(r.st, b.get(r.st, f, "Name"), b.e.T.Str(names[i])) == 0 || b.mapLen(r.st, b.get(r.st, f, "Annotations")) != 1 {
							return 0
						}
						ty := b.get(r.st, f, "Type")
						if mask>>uint(i)&1 == 0 {
							if b.e.evalEq(r.st, ty, b.e.T.Str("String")) != 1 || b.e.evalEq(r.st, b.get(r.st, f, "Pattern"), b.atom("pat")) != 1 {
								return 0
							}
							continue
						}
						cnt++
						if b.e.evalEq(r.st, ty, b.e.T.Str("Thing"+cap1(names[i]))) != 1 {
							return 0
						}
						if es := b.get(r.st, f, "Elements"); b.e.isEmpty(r.st, es) == 0 {
							return 0
						}
						hit, k := find(b, r.st, m, ty)
						if k != 1 {
							return 0
						}
						if b.e.evalEq(r.st, b.get(r.st, hit, "Type"), b.e.T.Str("Enum")) != 1 {
							return 0
						}
						if x := sameSyms(b, r.st, hit, fmt.Sprint("x", i), fmt.Sprint("y", i)); x != 1 {
							return x
						}
						for _, q := range b.call(r.st, "", "Model.FindType", m, ty) {
							if q.kind != RReturn || b.e.evalEq(q.st, q.val, hit) != 1 {
								return 0
							}
						}
					}
					if len(tds) != cnt {
						return 0
					}
					return 1
				})
			})
		}
	}
	c.check("a field name starting with the struct name is not prefixed again", nil, func(b *B, o *O) {
		f := b.field("thingColor", F{"Type": "Enum", "Elements": b.elems(b.atom("x"))})
		m := b.types(b.tdef("Thing", F{"Type": "Struct", "Fields": b.list(f)}))
		rs := conv(b, m)
		o.accept(rs, "the model")
		o.expect(rs, "the enum is named after the field", func(r Ret) int {
			if b.e.evalEq(r.st, b.get(r.st, f, "Type"), b.e.T.Str("ThingColor")) != 1 {
				return 0
			}
			_, k := find(b, r.st, m, b.e.T.Str("ThingColor"))
			if k != 1 {
				return 0
			}
			return 1
		})
	})
	for _, eq := range []bool{true, false} {
		eq := eq
		other := "y"
		if !eq {
			other = "z"
		}
		c.check(fmt.Sprintf("an existing enum of the resulting name, equivalent %v", eq), nil, func(b *B, o *O) {
			f := b.field("color", F{"Type": "Enum", "Elements": b.elems(b.atom("x"), b.atom("y"))})
			m := b.types(b.tdef("ThingColor", F{"Type": "Enum", "Elements": b.elems(b.atom("x"), b.atom(other))}), b.tdef("Thing", F{"Type": "Struct", "Fields": b.list(f)}))
			rs := conv(b, m)
			o.verdict(rs, eq, "a model with an enum of the same name")
			if eq {
				o.expect(rs, "the existing enum is used and not defined again", func(r Ret) int {
					_, k := find(b, r.st, m, b.e.T.Str("ThingColor"))
					if k != 1 || b.e.evalEq(r.st, b.get(r.st, f, "Type"), b.e.T.Str("ThingColor")) != 1 {
						return 0
					}
					return 1
				})
			}
		})
		for _, req := range []bool{false, true} {
			req := req
			if !eq {
				continue
			}
			c.check(fmt.Sprintf("the field of an existing enum keeps what it says, required %v", req), nil, func(b *B, o *O) {
				f := b.field("color", F{"Type": "Enum", "Elements": b.elems(b.atom("x"), b.atom("y")), "Required": req, "Default": b.atom("dflt"), "Comment": b.atom("cm"), "Annotations": b.annos("k", "v")})
				g := b.field("plain", F{"Type": "String", "Required": !req, "Comment": b.atom("cg")})
				ex := b.tdef("ThingColor", F{"Type": "Enum", "Elements": b.elems(b.atom("x"), b.atom("y")), "Comment": b.atom("ce")})
				m := b.types(ex, b.tdef("Thing", F{"Type": "Struct", "Fields": b.list(f, g)}))
				rs := conv(b, m)
				o.accept(rs, "the model")
				o.expect(rs, "the fields and the existing enum are as they were but for the type", func(r Ret) int {
					for _, x := range []struct {
						t    *Term
						path string
						v    *Term
					}{{f, "Type", b.e.T.Str("ThingColor")}, {f, "Required", b.e.T.Bool(req)}, {f, "Default", b.atom("dflt")}, {f, "Comment", b.atom("cm")}, {f, "Name", b.e.T.Str("color")},
						{g, "Required", b.e.T.Bool(!req)}, {g, "Type", b.e.T.Str("String")}, {g, "Comment", b.atom("cg")}, {ex, "Comment", b.atom("ce")}, {ex, "Type", b.e.T.Str("Enum")}} {
						if n := b.e.evalEq(r.st, b.get(r.st, x.t, x.path), x.v); n != 1 {
							return n
						}
					}
					if b.mapLen(r.st, b.get(r.st, f, "Annotations")) != 1 {
						return 0
					}
					return sameSyms(b, r.st, ex, "x", "y")
				})
			})
		}
		c.check(fmt.Sprintf("two fields with the same resulting name, equivalent %v", eq), nil, func(b *B, o *O) {
			f := b.field("bC", F{"Type": "Enum", "Elements": b.elems(b.atom("x"), b.atom("y"))})
			g := b.field("c", F{"Type": "Enum", "Elements": b.elems(b.atom("x"), b.atom(other))})
			m := b.types(b.tdef("A", F{"Type": "Struct", "Fields": b.list(f)}), b.tdef("AB", F{"Type": "Struct", "Fields": b.list(g)}))
			rs := conv(b, m)
			o.verdict(rs, eq, "two inline enums with the same resulting name")
			if eq {
				o.expect(rs, "one enum is defined and both fields refer to it", func(r Ret) int {
					_, k := find(b, r.st, m, b.e.T.Str("ABC"))
					if k != 1 || b.e.evalEq(r.st, b.get(r.st, f, "Type"), b.e.T.Str("ABC")) != 1 || b.e.evalEq(r.st, b.get(r.st, g, "Type"), b.e.T.Str("ABC")) != 1 {
						return 0
					}
					return 1
				})
			}
		})
	}
	for _, x := range [][3]string{{"Thing", "thINGc", "ThingThINGc"}, {"Thing", "thing", "Thing"}, {"Thing", "thingS", "ThingS"}, {"Thing", "color", "ThingColor"}, {"Thing", "Color", "ThingColor"}, {"Thing", "aThing", "ThingAThing"}, {"C", "color", "Color"}, {"C", "c_c", "C_c"}, {"URL", "urlKind", "URLUrlKind"}, {"X", "y", "XY"}} {
		x := x
		if x[2] == x[0] {
			continue
		}
		c.check(fmt.Sprintf("the name of the enum of %s.%s", x[0], x[1]), nil, func(b *B, o *O) {
			f := b.field(x[1], F{"Type": "Enum", "Elements": b.elems(b.atom("x"))})
			m := b.types(b.tdef(x[0], F{"Type": "Struct", "Fields": b.list(f)}))
			rs := conv(b, m)
			o.accept(rs, "the model")
			o.expect(rs, "the enum is named "+x[2], func(r Ret) int {
				if n := b.e.evalEq(r.st, b.get(r.st, f, "Type"), b.e.T.Str(x[2])); n != 1 {
					return n
				}
				hit, k := find(b, r.st, m, b.e.T.Str(x[2]))
				if k != 1 {
					return 0
				}
				return sameSyms(b, r.st, hit, "x")
			})
		})
	}
	c.check("enums of several structs", nil, func(b *B, o *O) {
		var fs, tds []*Term
		for i := 0; i < 3; i++ {
			f := b.field("color", F{"Type": "Enum", "Elements": b.elems(b.atom(fmt.Sprint("x", i)))})
			fs = append(fs, f)
			tds = append(tds, b.tdef(fmt.Sprint("Thing", i), F{"Type": "Struct", "Fields": b.list(f)}))
		}
		m := b.types(tds...)
		rs := conv(b, m)
		o.accept(rs, "the model")
		o.expect(rs, "each struct refers to its own enum", func(r Ret) int {
			for i, f := range fs {
				nm := b.e.T.Str(fmt.Sprintf("Thing%dColor", i))
				hit, k := find(b, r.st, m, nm)
				if k != 1 || b.e.evalEq(r.st, b.get(r.st, f, "Type"), nm) != 1 {
					return 0
				}
				if x := sameSyms(b, r.st, hit, fmt.Sprint("x", i)); x != 1 {
					return x
				}
			}
			return 1
		})
	})
}

func cap1(s string) string {
	if s == "" {
		return s
	}
	return string(s[0]-32) + s[1:]
}

func runC09(c *C) {
	type tc struct {
		target string
		want   string // "" an error, "-" no type, or the Type of the resolved specification
	}
	build := func(b *B) (*Term, map[string]*Term) {
		spec := map[string]*Term{}
		f1 := b.field("f1", F{"Type": "String", "Pattern": b.atom("pf1")})
		g2 := b.field("g2", F{"Type": "Bool", "Pattern": b.atom("pg2")})
		g1 := b.field("g1", F{"Type": "Struct", "Fields": b.list(b.field("g0", F{"Type": "Any", "Pattern": b.atom("pg0")}), g2), "Pattern": b.atom("pg1")})
		thing := b.tdef("Thing", F{"Type": "Struct", "Fields": b.list(f1, g1), "Pattern": b.atom("pthing")})
		str := b.tdef("Str", F{"Type": "String", "Pattern": b.atom("pstr")})
		in := func(n, p string, f F) *Term {
			g := F{"Name": n, "Pattern": b.atom(p)}
			for k, v := range f {
				g[k] = v
			}
			return b.obj("HttpParamSpec", g)
		}
		ex := b.obj("HttpExpectedSpec", F{"Status": 200, "Outputs": b.list(in("o0", "po0", F{"Type": "Bool"}), in("o1", "po1", F{"Type": "Struct", "Fields": b.list(b.field("h", F{"Type": "Int8", "Pattern": b.atom("pho")}))}))})
		h := b.obj("HttpDef", F{"Name": "getThing", "Method": "GET", "Path": "/t", "Inputs": b.list(in("i0", "pi0", F{"Type": "String"}), in("i1", "pi1", F{"Type": "Struct", "Fields": b.list(b.field("h", F{"Type": "Int8", "Pattern": b.atom("phi")}))})), "Expected": ex})
		h2 := b.obj("HttpDef", F{"Name": "putThing", "Method": "PUT", "Path": "/t", "Inputs": b.list(in("j0", "pj0", F{"Type": "String"}))})
		h3 := b.obj("HttpDef", F{"Name": "dropThing", "Method": "DELETE", "Path": "/t", "Inputs": b.list(in("k0", "pk0", F{"Type": "String", "Header": "hk0", "Query": "k1"}), in("k1", "pk1", F{"Type": "String", "Query": "k0"}), in("k2", "pk2", F{"Type": "String", "Path": true})),
			"Expected": b.obj("HttpExpectedSpec", F{"Status": 204})})
		trap := b.tdef("ApiRequest", F{"Type": "Struct", "Fields": b.list(b.field("a", F{"Type": "String", "Pattern": b.atom("pa")})), "Pattern": b.atom("papi")})
		m := b.newModel(F{"Types": b.list(str, thing, trap), "Http": b.list(h, h2, h3)})
		return m, spec
	}
	for _, t := range []tc{
		{"Thing", "pthing"}, {"Str", "pstr"}, {"Thing.f1", "pf1"}, {"Thing.g1", "pg1"}, {"Thing.g1.g2", "pg2"}, {"Thing.g1.g0", "pg0"}, {"Thing.zz", ""}, {"Thing.g1.zz", ""}, {"Thing.f1.zz", ""}, {"Str.f1", ""},
		{"Nowhere", ""}, {"Nowhere.f1", ""}, {"GetThingRequest.i0", "pi0"}, {"GetThingRequest.i1", "pi1"}, {"GetThingRequest.i1.h", "phi"}, {"GetThingRequest.zz", ""}, {"GetThingRequest.o0", ""},
		{"GetThingResponse.o0", "po0"}, {"GetThingResponse.o1", "po1"}, {"GetThingResponse.o1.h", "pho"}, {"GetThingResponse.i0", ""}, {"GetThingResponse.zz", ""}, {"GetThingRequest", "-"}, {"GetThingResponse", "-"},
		{"NopeRequest", ""}, {"NopeRequest.i0", ""}, {"NopeResponse.o0", ""}, {"PutThingRequest.j0", "pj0"}, {"PutThingResponse.o0", ""}, {"DropThingRequest", "-"}, {"DropThingResponse", "-"}, {"DropThingResponse.k0", ""}, {"DropThingRequest.k0", "pk0"}, {"DropThingRequest.k1", "pk1"}, {"DropThingRequest.k2", "pk2"}, {"DropThingRequest.hk0", ""}, {"DropThingRequest.K0", ""}, {"dropThingRequest.k0", "pk0"}, {"Thing.F1", ""}, {"thing.f1", ""}, {"Thing.g1.G2", ""}, {"Thing.", ""}, {"ApiRequest.a", "pa"}, {"ApiRequest", "papi"}, {"GetThingRequest.i0.h", ""},
	} {
		t := t
		c.check("example target "+t.target, nil, func(b *B, o *O) {
			m, _ := build(b)
			rs := b.call(nil, "", "Model.FindExampleType", m, b.obj("ExampleDef", F{"Target": t.target}))
			switch t.want {
			case "":
				o.reject(rs, "the target "+t.target)
			case "-":
				o.accept(rs, "the target "+t.target)
			default:
				o.accept(rs, "the target "+t.target)
				o.expect(rs, "the target must resolve to the type it names", func(r Ret) int {
					return b.e.evalEq(r.st, b.get(r.st, valOf(r), "Pattern"), b.atom(t.want))
				})
			}
		})
	}
	// actions whose names hold the words that make the targets
	for _, name := range []string{"getTest", "getRequest", "request", "req", "postUser", "sequester", "getResponse", "response", "listPerson", "spresponse", "uRL", "x", "requestResponse", "getQ"} {
		for _, typ := range []string{"String", "Struct"} {
			name, typ := name, typ
			c.check(fmt.Sprintf("example target of the action %s with a parameter of type %s", name, typ), nil, func(b *B, o *O) {
				in := func(n, p string) *Term {
					return b.obj("HttpParamSpec", F{"Name": n, "Type": typ, "Pattern": b.atom(p), "Fields": b.list(b.field("h", F{"Type": "Int8", "Pattern": b.atom(p + "h")}))})
				}
				h := b.obj("HttpDef", F{"Name": name, "Method": "GET", "Path": "/t", "Inputs": b.list(in("i0", "pi0"), in("est", "pi1")),
					"Expected": b.obj("HttpExpectedSpec", F{"Status": 200, "Outputs": b.list(in("o0", "po0"), in("onse", "po1"))})})
				decoy := func(n string) *Term {
					return b.obj("HttpDef", F{"Name": n, "Method": "GET", "Path": "/" + n, "Inputs": b.list(in("i0", "wrong"), in("o0", "wrong")), "Expected": b.obj("HttpExpectedSpec", F{"Status": 200, "Outputs": b.list(in("o0", "wrong"), in("i0", "wrong"))})})
				}
				m := b.newModel(F{"Types": b.list(b.tdef("Thing", F{"Type": "String"})), "Http": b.list(decoy("other"), h, decoy("zother"))})
				cap := cap1(name)
				for _, t := range []tc{{"Request.i0", "pi0"}, {"Request.est", "pi1"}, {"Response.o0", "po0"}, {"Response.onse", "po1"}, {"Request.o0", ""}, {"Response.i0", ""}, {"Request.zz", ""}, {"Request", "-"}, {"Response", "-"}, {"Reques.i0", ""}, {"RequestRequest.i0", ""}, {".i0", ""}, {"", ""},
					{"Request.i0.h", "pi0h"}, {"Response.onse.h", "po1h"}, {"Request.i0.zz", ""}} {
					target := cap + t.target
					want := t.want
					if typ != "Struct" && strings.HasSuffix(target, ".h") {
						want = ""
					}
					rs := b.call(nil, "", "Model.FindExampleType", m, b.obj("ExampleDef", F{"Target": target}))
					switch want {
					case "":
						o.reject(rs, "the target "+target)
					case "-":
						o.accept(rs, "the target "+target)
					default:
						o.accept(rs, "the target "+target)
						o.expect(rs, "the target "+target+" must resolve to the type it names", func(r Ret) int {
							return b.e.evalEq(r.st, b.get(r.st, valOf(r), "Pattern"), b.atom(want))
						})
					}
				}
			})
		}
	}
}
