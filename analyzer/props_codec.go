package main

// props_codec.go: C10..C13 and C32, the base type codecs, data access and text helpers.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"time"
)

func init() {
	register(&Property{id: "C10", rule: "A Decimal is encoded as its shortest exact decimal text and decoded at base 10 with at least 250 bits; conversions and defaults keep the number.", run: runC10})
	register(&Property{id: "C11", rule: "A Timestamp prints as UTC with millisecond precision and parses from exactly the UTC RFC3339 forms; decoding stores only a parsed value.", run: runC11})
	register(&Property{id: "C12", rule: "UUID and UnitValue accept exactly their text forms, decode to the parts of the text, and encode to a text that decodes to the same parts.", run: runC12})
	register(&Property{id: "C13", rule: "Data accessors return the value stored under the key path converted to the requested kind, and the zero value for a missing key or another kind.", run: runC13})
	register(&Property{id: "C32", rule: "The text helpers (case change, file base name, comment formatting, symbols, annotations) compute their documented results.", run: runC32})
}

func (b *B) bigOf(st *State, d *Term) *Term {
	if d == nil || d.op == ONil {
		return nil
	}
	t := b.typ("Decimal")
	v := d
	switch d.op {
	case OPtr, OFAddr:
		v = b.e.load(st, d, t)
	case OIface:
		return b.bigOf(st, d.args[0])
	}
	if v.op == OCall && v.s == "&" {
		v = v.args[0]
	}
	if v.op == OStruct {
		for _, a := range v.args {
			if a.op == OCall && a.s == "big" {
				return a.args[0]
			}
		}
	}
	return nil
}

// eqTermOf is 1 when the terms are the same, 0 when they are known to differ or both are free of unknowns, -1 otherwise.
func (b *B) same(st *State, got, want *Term) int {
	if got == nil || want == nil {
		return -1
	}
	if got == want {
		return 1
	}
	n := b.e.evalEq(st, got, want)
	if n >= 0 {
		return n
	}
	if got.unk() || got.op == OUnk {
		return -1
	}
	return 0
}

func hasCall(t *Term, pred func(x *Term) bool) bool {
	if t == nil {
		return false
	}
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if hasCall(a, pred) {
			return true
		}
	}
	return false
}

// exactText: the text is the shortest exact representation of the number.
func (b *B) exactText(t, num *Term) int {
	if t == nil {
		return -1
	}
	if t.op == OCall && t.s == "big.Text" && t.args[0] == num {
		f, ok1 := t.args[1].isInt()
		p, ok2 := t.args[2].isInt()
		if !ok1 || !ok2 {
			return -1
		}
		if p == -1 && strings.ContainsRune("feEgG", rune(f)) {
			return 1
		}
		return 0
	}
	if t.unk() || t.op == OUnk {
		return -1
	}
	return 0
}

// decimalParse: the number is the text read in base 10 with enough precision.
func (b *B) decimalParse(n, text *Term) int {
	if n == nil {
		return -1
	}
	if n.op == OCall && n.s == "parsefloat" && n.args[0] == text {
		base, ok1 := n.args[1].isInt()
		prec, ok2 := n.args[2].isInt()
		mode, ok3 := n.args[3].isInt()
		if !ok1 || !ok2 || !ok3 {
			return -1
		}
		if base == 10 && prec >= 250 && mode == 0 {
			return 1
		}
		return 0
	}
	if n.unk() || n.op == OUnk {
		return -1
	}
	return 0
}

func runC10(c *C) {
	x := func(b *B) *Term { return b.num("x") }
	deref := func(b *B, d *Term) *Term { return b.e.load(b.st, d, b.typ("Decimal")) }
	c.check("encoding as JSON", nil, func(b *B, o *O) {
		rs := b.call(nil, "", "Decimal.MarshalJSON", deref(b, b.dec(x(b))))
		o.accept(rs, "every number")
		o.expect(rs, "the encoding must be the exact digits of the number", func(r Ret) int { return b.exactText(valOf(r), x(b)) })
	})
	c.check("printing", nil, func(b *B, o *O) {
		o.expect(b.call(nil, "", "Decimal.String", b.dec(x(b))), "the text must be the exact digits of the number", func(r Ret) int { return b.exactText(r.val, x(b)) })
	})
	for _, bad := range []int{0, 1} {
		bad := bad
		c.check(fmt.Sprintf("parsing a text, malformed %d", bad), &Scenario{fails: map[string]int{"big.ParseFloat": bad}}, func(b *B, o *O) {
			s := b.sym("S", tString)
			rs := b.call(nil, "", "ParseDecimal", s)
			o.verdict(rs, bad == 0, "the text")
			if bad == 0 {
				o.expect(rs, "the number must be the text read in base 10 with at least 250 bits", func(r Ret) int { return b.decimalParse(b.bigOf(r.st, valOf(r)), s) })
			}
			old := b.num("old")
			d := b.dec(old)
			b.e.building = true
			rs = b.call(nil, "", "Decimal.UnmarshalJSON", d, s)
			o.verdict(rs, bad == 0, "the JSON text")
			o.expect(rs, "decoding stores the number, and nothing on an error", func(r Ret) int {
				n := b.bigOf(r.st, d)
				if bad == 1 {
					return b.same(r.st, n, old)
				}
				return b.decimalParse(n, s)
			})
		})
	}
	for _, s := range []string{"Inf", "+Inf", "-Inf", "inf", "NaN", "", "-", "1.2.3", "1 2", " 1", "1 ", "0x10", "1,5", "x", "1x"} {
		s := s
		c.check(fmt.Sprintf("parsing %q", s), nil, func(b *B, o *O) {
			o.reject(b.call(nil, "", "ParseDecimal", b.e.T.Str(s)), fmt.Sprintf("%q, which is no decimal number,", s))
		})
	}
	c.check("conversions", nil, func(b *B, o *O) {
		d := b.dec(x(b))
		is := func(what, fn, call string) {
			o.expect(b.call(nil, "", fn, d), what, func(r Ret) int {
				v := r.val
				for v.op == OCall && strings.HasPrefix(v.s, "conv") && len(v.args) == 1 {
					v = v.args[0]
				}
				if v.op == OCall && v.s == call && v.args[0] == x(b) {
					return 1
				}
				if v.unk() {
					return -1
				}
				return 0
			})
		}
		is("AsInt64 must be the integer part", "Decimal.AsInt64", "big.Int64")
		is("AsInt32 must be the integer part", "Decimal.AsInt32", "big.Int64")
		is("AsFloat64 must be the nearest float", "Decimal.AsFloat64", "big.Float64")
		o.expect(b.call(nil, "", "Decimal.AsBigFloat", d), "AsBigFloat must be the number", func(r Ret) int {
			return b.same(r.st, b.e.bigVal(r.st, r.val), x(b))
		})
		o.expect(b.call(nil, "", "NewDecimal", x(b)), "NewDecimal must hold its argument", func(r Ret) int { return b.same(r.st, b.bigOf(r.st, r.val), x(b)) })
	})
	for _, k := range []struct {
		n string
		t types.Type
	}{{"int", types.Typ[types.Int]}, {"int64", types.Typ[types.Int64]}, {"int32", types.Typ[types.Int32]}, {"int16", types.Typ[types.Int16]}, {"int8", types.Typ[types.Int8]}, {"float32", types.Typ[types.Float32]}, {"float64", types.Typ[types.Float64]}} {
		k := k
		c.check("default value of kind "+k.n, nil, func(b *B, o *O) {
			v := b.e.T.Int(7)
			df := b.any(k.t, b.e.T.mk(OConst, "", v.c, k.t, nil))
			o.expect(b.call(nil, "", "DecimalValue", b.e.T.Nil(), df), "an absent value takes the default", func(r Ret) int {
				n := b.bigOf(r.st, r.val)
				if n == nil {
					if b.e.isNil(r.st, r.val) == 1 {
						return 0
					}
					return -1
				}
				if n.op == OConst && constant.Compare(constant.ToFloat(n.c), 39 /* == */, constant.ToFloat(v.c)) {
					return 1
				}
				return b.same(r.st, n, v)
			})
			d := b.dec(x(b))
			o.expect(b.call(nil, "", "DecimalValue", d, df), "a present value is kept", func(r Ret) int { return b.same(r.st, b.bigOf(r.st, r.val), x(b)) })
		})
	}
	for _, k := range []struct {
		n string
		t types.Type
		v []int64
	}{{"int", types.Typ[types.Int], []int64{0, -1, 1<<53 + 1, -1<<53 - 1, 1<<63 - 1, -1 << 63}}, {"int64", types.Typ[types.Int64], []int64{0, -1, 1<<53 + 1, -1<<53 - 1, 1<<63 - 1, -1 << 63}}, {"int32", types.Typ[types.Int32], []int64{0, -1, 1<<24 + 1, 1<<31 - 1, -1 << 31}}, {"int16", types.Typ[types.Int16], []int64{0, -1, 1<<15 - 1, -1 << 15}}, {"int8", types.Typ[types.Int8], []int64{0, -1, 127, -128}}} {
		for _, v := range k.v {
			k, v := k, v
			c.check(fmt.Sprintf("default value %d of kind %s", v, k.n), nil, func(b *B, o *O) {
				df := b.any(k.t, b.e.T.mk(OConst, "", constant.MakeInt64(v), k.t, nil))
				o.expect(b.call(nil, "", "DecimalValue", b.e.T.Nil(), df), "an absent value takes exactly the default", func(r Ret) int {
					n := b.bigOf(r.st, r.val)
					if n == nil {
						if b.e.isNil(r.st, r.val) == 1 {
							return 0
						}
						return -1
					}
					if n.op != OConst {
						return -1
					}
					if constant.Compare(constant.ToFloat(n.c), 39 /* == */, constant.ToFloat(constant.MakeInt64(v))) {
						return 1
					}
					return 0
				})
			})
		}
	}
	c.check("default Decimal and no default", nil, func(b *B, o *O) {
		d := b.dec(x(b))
		o.expect(b.call(nil, "", "DecimalValue", b.e.T.Nil(), b.any(d.t, d)), "an absent value takes the default", func(r Ret) int { return b.same(r.st, b.bigOf(r.st, r.val), x(b)) })
		o.expect(b.call(nil, "", "DecimalValue", b.e.T.Nil(), b.e.T.Nil()), "no value and no default is no value", func(r Ret) int { return b.e.isNil(r.st, r.val) })
		o.expect(b.call(nil, "", "DecimalValue", d, b.e.T.Nil()), "a present value is kept", func(r Ret) int { return b.same(r.st, b.bigOf(r.st, r.val), x(b)) })
	})
}

func (b *B) timeOf(st *State, v *Term) *Term {
	if v == nil {
		return nil
	}
	if v.op == OPtr {
		v = b.e.load(st, v, b.typ("Timestamp"))
	}
	if v.op == OStruct && len(v.args) > 0 {
		return v.args[0]
	}
	if v.op == OZero {
		return v
	}
	return nil
}

func (b *B) stamp(tm *Term) *Term {
	t := b.typ("Timestamp")
	s, ok := under(t).(*types.Struct)
	if !ok || s.NumFields() != 1 {
		panic(anchorLost{"Timestamp representation"})
	}
	tm.t = s.Field(0).Type()
	return b.e.T.mk(OStruct, "", nil, t, nil, tm)
}

func (b *B) timeConst(s string) *Term {
	return b.e.T.mk(OCall, "timeconst", constant.MakeString(s), b.e.zeroTimeType(b), nil)
}

func (e *Engine) zeroTimeType(b *B) types.Type {
	s, ok := under(b.typ("Timestamp")).(*types.Struct)
	if !ok {
		panic(anchorLost{"Timestamp representation"})
	}
	return s.Field(0).Type()
}

func runC11(c *C) { timestampRules(c, c.check) }

type checker func(rule string, sc *Scenario, f func(b *B, o *O))

func timestampRules(c *C, check checker) {
	texts := []string{"1970-01-01T00:00:00.000Z", "2019-02-03T22:48:19.043Z", "2019-12-31T23:59:59.999Z", "2020-02-29T01:02:03.004Z", "0999-10-11T12:13:14.100Z", "9999-12-31T23:59:59.010Z", "2001-09-09T01:46:40.001Z"}
	for _, s := range texts {
		s := s
		tm, _ := time.Parse(time.RFC3339Nano, s)
		cst := tm.UTC().Format(time.RFC3339Nano)
		check("prints "+s, nil, func(b *B, o *O) {
			ts := b.stamp(b.timeConst(cst))
			o.expect(b.call(nil, "", "Timestamp.String", ts), "the text of the instant must be "+s, func(r Ret) int { return b.same(r.st, r.val, b.e.T.Str(s)) })
			rs := b.call(nil, "", "Timestamp.MarshalJSON", ts)
			o.accept(rs, "every Timestamp")
			o.expect(rs, "the JSON text of the instant must be the quoted text", func(r Ret) int {
				v := valOf(r)
				for v.op == OCall && (v.s == "bytes" || v.s == "json") {
					v = v.args[0]
				}
				if q, ok := v.isStr(); ok {
					if q == `"`+s+`"` || q == s && valOf(r).op == OCall && valOf(r).s == "json" {
						return 1
					}
					return 0
				}
				return -1
			})
		})
		for _, v := range []struct{ what, text string }{{"", s}, {"+00:00", s[:len(s)-1] + "+00:00"}, {"-00:00", s[:len(s)-1] + "-00:00"}, {"+0000", s[:len(s)-1] + "+0000"}, {"-0000", s[:len(s)-1] + "-0000"}} {
			v := v
			check("parses "+v.text, nil, func(b *B, o *O) {
				rs := b.call(nil, "", "ParseTimestamp", b.e.T.Str(v.text))
				o.accept(rs, v.text)
				o.expect(rs, "the instant must be the one the text names", func(r Ret) int {
					return b.same(r.st, b.timeOf(r.st, valOf(r)), b.timeConst(cst))
				})
			})
		}
	}
	for _, x := range [][2]string{{"2019-02-03T22:48:19.043999999Z", "2019-02-03T22:48:19.043Z"}, {"2019-12-31T23:59:59.999999999Z", "2019-12-31T23:59:59.999Z"}, {"2019-12-31T23:59:59.000999999Z", "2019-12-31T23:59:59.000Z"}, {"2019-12-31T23:59:59.001000001Z", "2019-12-31T23:59:59.001Z"}} {
		x := x
		check("prints "+x[0], nil, func(b *B, o *O) {
			o.expect(b.call(nil, "", "Timestamp.String", b.stamp(b.timeConst(x[0]))), "the text of the instant must be "+x[1], func(r Ret) int { return b.same(r.st, r.val, b.e.T.Str(x[1])) })
		})
	}
	check("parses a text without a fraction", nil, func(b *B, o *O) {
		o.accept(b.call(nil, "", "ParseTimestamp", b.e.T.Str("2019-02-03T22:48:19Z")), "a text without a fraction")
	})
	for _, s := range []string{"", "Z", "2019-02-03", "2019-02-03 22:48:19.043Z", "2019-02-03T22:48:19.043", "2019-13-03T22:48:19.043Z", "2019-02-30T22:48:19.043Z", "2019-02-03T25:48:19.043Z", "2019-02-03T22:48:19.043+01:00", "2019-02-03T22:48:19.043Z+00:00", "+00:00", "2019-02-03T22:48:19.043+0130", "x2019-02-03T22:48:19.043Z", "2019-02-03T22:48:19.Zz"} {
		s := s
		check("does not parse "+s, nil, func(b *B, o *O) {
			o.reject(b.call(nil, "", "ParseTimestamp", b.e.T.Str(s)), fmt.Sprintf("%q", s))
		})
	}
	check("prints in UTC", nil, func(b *B, o *O) {
		s, ok := under(b.typ("Timestamp")).(*types.Struct)
		if !ok {
			panic(anchorLost{"Timestamp representation"})
		}
		b.pin("time.IsZero(T)", false)
		raw := b.sym("T", s.Field(0).Type())
		o.expect(b.call(nil, "", "Timestamp.String", b.stamp(raw)), "every part of the printed instant must be taken in UTC", func(r Ret) int {
			if r.val.unk() || r.val.op == OUnk {
				return -1
			}
			utc, local := 0, 0
			hasCall(r.val, func(x *Term) bool {
				if x.op == OCall && strings.HasPrefix(x.s, "time.") && x.s != "time.UTC" && len(x.args) > 0 {
					if x.args[0].op == OCall && x.args[0].s == "time.UTC" {
						utc++
					} else if x.args[0] == raw {
						local++
					}
				}
				return false
			})
			if utc == 0 && local == 0 {
				return -1
			}
			if local > 0 {
				return 0
			}
			return 1
		})
	})
	check("a zero Timestamp prints as the empty text", nil, func(b *B, o *O) {
		t := b.typ("Timestamp")
		o.expect(b.call(nil, "", "Timestamp.String", b.e.expand(b.e.zero(t), t)), "a zero Timestamp must print as the empty text", func(r Ret) int { return b.same(r.st, r.val, b.e.T.Str("")) })
	})
	for js := 0; js <= 1; js++ {
		for ps := 0; ps <= 1; ps++ {
			js, ps := js, ps
			check(fmt.Sprintf("decoding JSON, bad JSON %d, bad text %d", js, ps), &Scenario{fails: map[string]int{"json": js}}, func(b *B, o *O) {
				b.pin("json(D)", "2019-02-03T22:48:19.043Z")
				if ps == 1 {
					b.pin("json(D)", "2019-02-03T22:48:19.Zz")
				}
				old := b.stamp(b.timeConst("2001-01-01T00:00:00Z"))
				p := b.newObj("ts", old, b.typ("Timestamp"))
				b.e.building = true
				rs := b.call(nil, "", "Timestamp.UnmarshalJSON", p, b.sym("D", types.NewSlice(types.Typ[types.Byte])))
				o.verdict(rs, js+ps == 0, "the JSON text")
				o.expect(rs, "decoding stores the parsed instant, and nothing on an error", func(r Ret) int {
					w := b.timeConst("2019-02-03T22:48:19.043Z")
					if js+ps > 0 {
						w = b.timeConst("2001-01-01T00:00:00Z")
					}
					return b.same(r.st, b.timeOf(r.st, p), w)
				})
			})
		}
	}
}

func runC12(c *C) {
	good := "1ce437b0-1dd2-11b2-bc26-003ee1be85f9"
	parse := func(s string, ok bool) {
		c.check(fmt.Sprintf("UUID text %q", s), &Scenario{fails: map[string]int{"json": 0}}, func(b *B, o *O) {
			want := ""
			if ok {
				want = s
			}
			o.expect(b.call(nil, "", "ParseUUID", b.e.T.Str(s)), fmt.Sprintf("parsing must give %q", want), func(r Ret) int { return b.same(r.st, r.val, b.e.T.Str(want)) })
			b.pin("json(D)", s)
			b.e.building = true
			p := b.newObj("u", b.e.T.Str("old"), b.typ("UUID"))
			rs := b.call(nil, "", "UUID.UnmarshalJSON", p, b.sym("D", types.NewSlice(types.Typ[types.Byte])))
			o.verdict(rs, ok, fmt.Sprintf("the JSON text of %q", s))
			o.expect(rs, "decoding stores the UUID, and nothing on an error", func(r Ret) int {
				w := "old"
				if ok {
					w = s
				}
				return b.same(r.st, b.e.load(r.st, p, b.typ("UUID")), b.e.T.Str(w))
			})
		})
	}
	parse(good, true)
	parse("FFFFFFFF-0000-9999-AAAA-afAF09afAF09", true)
	parse("00000000-0000-0000-0000-000000000000", true)
	parse("ffffffff-ffff-ffff-ffff-ffffffffffff", true)
	parse("FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF", true)
	parse("00000000-0000-4000-8000-000000000001", true)
	parse(strings.ToUpper(good), true)
	parse("12345678-1234-1234-1234-123456789012", true)
	parse(" "+good, false)
	parse(good+" ", false)
	parse(good+"\n", false)
	parse("urn:uuid:"+good, false)
	parse(strings.Replace(good, "-", "", -1), false)
	parse("", false)
	parse(good[:35], false)
	parse(good+"0", false)
	parse("{"+good+"}", false)
	for _, i := range []int{0, 7, 9, 14, 19, 24, 30, 35} {
		c.check(fmt.Sprintf("every character at position %d of a UUID text", i), nil, func(b *B, o *O) {
			for ch := rune(0); ch < 260; ch++ {
				s, want := good[:i]+string(ch)+good[i+1:], ""
				if ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F' {
					want = s
				}
				o.expect(b.call(nil, "", "ParseUUID", b.e.T.Str(s)), fmt.Sprintf("parsing %q must give %q", s, want), func(r Ret) int { return b.same(r.st, r.val, b.e.T.Str(want)) })
			}
		})
	}
	for i := range good {
		parse(good[:i]+"g"+good[i+1:], false)
		if good[i] == '-' {
			parse(good[:i]+"0"+good[i+1:], false)
		} else {
			parse(good[:i]+"-"+good[i+1:], false)
		}
	}
	c.check("UUID of malformed JSON", &Scenario{fails: map[string]int{"json": 1}}, func(b *B, o *O) {
		b.e.building = true
		p := b.newObj("u", b.e.T.Str("old"), b.typ("UUID"))
		rs := b.call(nil, "", "UUID.UnmarshalJSON", p, b.sym("D", types.NewSlice(types.Typ[types.Byte])))
		o.reject(rs, "malformed JSON")
	})
	uv := func(s, num, unit string) {
		c.check(fmt.Sprintf("UnitValue text %q", s), &Scenario{fails: map[string]int{"json": 0}}, func(b *B, o *O) {
			chk := func(r Ret, p *Term) int {
				n := b.bigOf(r.st, b.get(r.st, p, "Value"))
				if n == nil {
					return -1
				}
				if n.op != OConst || constant.ToFloat(n.c).ExactString() != constant.ToFloat(constant.MakeFromLiteral(num, 6, 0)).ExactString() {
					return 0
				}
				return b.same(r.st, b.get(r.st, p, "Unit"), b.e.T.Str(unit))
			}
			rs := b.call(nil, "", "ParseUnitValue", b.e.T.Str(s))
			o.verdict(rs, num != "", "the text")
			b.pin("json(D)", s)
			b.e.building = true
			q := b.obj("UnitValue", F{"Value": b.dec(b.e.T.Int(1)), "Unit": "old"})
			rs2 := b.call(nil, "", "UnitValue.UnmarshalJSON", q, b.sym("D", types.NewSlice(types.Typ[types.Byte])))
			o.verdict(rs2, num != "", "the JSON text")
			if num != "" {
				o.expect(rs, "the parts must be the number and the unit of the text", func(r Ret) int { return chk(r, valOf(r)) })
				o.expect(rs2, "the decoded parts must be the number and the unit of the text", func(r Ret) int { return chk(r, q) })
			} else {
				o.expect(rs2, "nothing is stored on an error", func(r Ret) int { return b.same(r.st, b.get(r.st, q, "Unit"), b.e.T.Str("old")) })
			}
		})
	}
	uv("100.25 USD", "100.25", "USD")
	uv("5 m", "5", "m")
	uv("12 fluid ounces", "12", "fluid ounces")
	uv("100USD", "", "")
	uv("100 ", "", "")
	uv(" USD", "", "")
	uv("", "", "")
	uv(" ", "", "")
	uv("x00 USD", "", "")
	uv("USD 100", "", "")
	uv("100\tUSD", "", "")
	uv("5\tUSD m", "", "")
	uv("5  m", "5", " m")
	uv("5 m\ts", "5", "m\ts")
	uv("-5 m", "-5", "m")
	uv("5e3 m", "5000", "m")
	uv("1,5 m", "", "")
	uv("Inf m", "", "")
	uv("-inf m", "", "")
	uv(" 5 m", "", "")
	uv("5 m ", "5", "m ")
	uv("0 m", "0", "m")
	uv("-0.5 m", "-0.5", "m")
	uv("5 m/s", "5", "m/s")
	uv("5 5", "5", "5")
	uv("5 %", "5", "%")
	uv("1.50 \u20ac", "1.5", "\u20ac")
	uv("123456789012345678901234567890 kg", "123456789012345678901234567890", "kg")
	uv("5 USD/EUR per day", "5", "USD/EUR per day")
	uv("\t5 m", "", "")
	uv("5", "", "")
	uv("five m", "", "")
	uv("$5 m", "", "")
	uv("NaN m", "", "")
	c.check("UnitValue of malformed JSON", &Scenario{fails: map[string]int{"json": 1}}, func(b *B, o *O) {
		b.e.building = true
		q := b.obj("UnitValue", F{"Value": b.dec(b.e.T.Int(1)), "Unit": "old"})
		o.reject(b.call(nil, "", "UnitValue.UnmarshalJSON", q, b.sym("D", types.NewSlice(types.Typ[types.Byte]))), "malformed JSON")
	})
	c.check("UnitValue text and JSON", nil, func(b *B, o *O) {
		x := b.num("x")
		u := b.atom("u")
		q := b.obj("UnitValue", F{"Value": b.dec(x), "Unit": u})
		isText := func(v *Term) int {
			v = unIface(v)
			ps := parts(v)
			if len(ps) != 3 {
				if v.unk() || v.op == OUnk {
					return -1
				}
				return 0
			}
			if ps[1] != b.e.T.Str(" ") || ps[2] != u {
				return 0
			}
			return b.exactText(ps[0], x)
		}
		o.expect(b.call(nil, "", "UnitValue.String", q), "the text must be the exact number, a space and the unit", func(r Ret) int { return isText(r.val) })
		rs := b.call(nil, "", "UnitValue.MarshalJSON", q)
		o.accept(rs, "a UnitValue")
		o.expect(rs, "the JSON must be the encoded text", func(r Ret) int {
			v := valOf(r)
			if v.op == OCall && v.s == "bytes" {
				v = v.args[0]
			}
			if v.op == OCall && (v.s == "json" || v.s == "quote") {
				return isText(v.args[0])
			}
			if v.unk() || v.op == OUnk {
				return -1
			}
			return 0
		})
		o.expect(b.call(nil, "", "NewUnitValue", x, u), "NewUnitValue must hold its arguments", func(r Ret) int {
			if n := b.same(r.st, b.bigOf(r.st, b.get(r.st, r.val, "Value")), x); n != 1 {
				return n
			}
			return b.same(r.st, b.get(r.st, r.val, "Unit"), u)
		})
	})
}

type valKind struct {
	name string
	mk   func(b *B) *Term
}

func runC13(c *C) {
	str := func(b *B) *Term { return b.atom("s") }
	kinds := []valKind{
		{"nothing", func(b *B) *Term { return b.e.T.Nil() }},
		{"string", func(b *B) *Term { return b.str(str(b)) }},
		{"*string", func(b *B) *Term { return b.strForm("*string", str(b)) }},
		{"text true", func(b *B) *Term { return b.str("true") }},
		{"text false", func(b *B) *Term { return b.str("false") }},
		{"text False", func(b *B) *Term { return b.str("False") }},
		{"text FALSE", func(b *B) *Term { return b.str("FALSE") }},
		{"text 0", func(b *B) *Term { return b.str("0") }},
		{"text no", func(b *B) *Term { return b.str("no") }},
		{"text 42", func(b *B) *Term { return b.str("42") }},
		{"text  false ", func(b *B) *Term { return b.str(" false ") }},
		{"text ", func(b *B) *Term { return b.str("") }},
		{"true", func(b *B) *Term { return b.any(tBool, b.e.T.Bool(true)) }},
		{"false", func(b *B) *Term { return b.any(tBool, b.e.T.Bool(false)) }},
		{"float64", func(b *B) *Term {
			return b.any(types.Typ[types.Float64], b.e.T.mk(OConst, "", constant.MakeFloat64(42), types.Typ[types.Float64], nil))
		}},
		{"big float64", func(b *B) *Term {
			return b.any(types.Typ[types.Float64], b.e.T.mk(OConst, "", constant.MakeFloat64(4294967339), types.Typ[types.Float64], nil))
		}},
		{"negative float64", func(b *B) *Term {
			return b.any(types.Typ[types.Float64], b.e.T.mk(OConst, "", constant.MakeFloat64(-4294967339), types.Typ[types.Float64], nil))
		}},
		{"list with an empty text", func(b *B) *Term { return b.listAny(b.str("e0"), b.str(""), b.str("")) }},
		{"list with an empty *string", func(b *B) *Term {
			return b.listAny(b.strForm("*string", b.atom("e0")), b.strForm("*string", b.e.T.Str("")))
		}},
		{"int32", func(b *B) *Term { return b.any(types.Typ[types.Int32], b.e.T.Int(42)) }},
		{"int", func(b *B) *Term { return b.any(types.Typ[types.Int], b.e.T.Int(42)) }},
		{"list", func(b *B) *Term { return b.listAny(b.str(b.atom("e0")), b.str(b.atom("e1"))) }},
		{"list of *string", func(b *B) *Term {
			return b.listAny(b.strForm("*string", b.atom("e0")), b.strForm("*string", b.atom("e1")))
		}},
		{"mixed list", func(b *B) *Term { return b.listAny(b.str(b.atom("e0")), b.any(tBool, b.e.T.Bool(true))) }},
		{"map", func(b *B) *Term { return b.mapAny(b.atom("mk"), b.str(b.atom("mv"))) }},
		{"decimal", func(b *B) *Term { return b.anyDec(b.num("x")) }},
	}
	// expectations by conversion
	zero := map[string]func(b *B) *Term{"AsString": func(b *B) *Term { return b.e.T.Str("") }, "AsBool": func(b *B) *Term { return b.e.T.Bool(false) }, "AsInt": func(b *B) *Term { return b.e.T.Int(0) }, "AsInt64": func(b *B) *Term { return b.e.T.Int(0) }, "AsFloat64": func(b *B) *Term { return b.e.T.Int(0) }}
	numEq := func(b *B, st *State, v *Term, n int64) int {
		if v.op == OConst {
			f, _ := constant.Float64Val(constant.ToFloat(v.c))
			if f == float64(n) {
				return 1
			}
			return 0
		}
		return b.e.evalEq(st, v, b.e.T.Int(n))
	}
	expect := func(fn, kind string, b *B, r Ret, in *Term) int {
		v := r.val
		if n := map[string]int64{"big float64": 4294967339, "negative float64": -4294967339}[kind]; n != 0 && (fn == "AsInt" || fn == "AsInt64" || fn == "AsFloat64") {
			return numEq(b, r.st, v, n)
		}
		if fn == "AsStringArray" {
			switch kind {
			case "list with an empty text":
				return seqIs(b, r.st, v, b.e.T.Str("e0"), b.e.T.Str(""), b.e.T.Str(""))
			case "list with an empty *string":
				return seqIs(b, r.st, v, b.atom("e0"), b.e.T.Str(""))
			}
		}
		if fn == "AsArray" && strings.HasPrefix(kind, "list with") {
			return b.e.evalEq(r.st, b.e.length(r.st, v), b.e.T.Int(map[string]int64{"list with an empty text": 3}[kind]+map[string]int64{"list with an empty *string": 2}[kind]))
		}
		switch fn {
		case "AsString":
			if kind == "string" || kind == "*string" {
				return b.same(r.st, v, str(b))
			}
			if strings.HasPrefix(kind, "text ") {
				return b.same(r.st, v, b.e.T.Str(kind[5:]))
			}
			return b.same(r.st, v, b.e.T.Str(""))
		case "AsBool":
			want := kind != "nothing" && kind != "false" && kind != "text false"
			return b.same(r.st, v, b.e.T.Bool(want))
		case "AsInt":
			if kind == "float64" || kind == "int32" || kind == "int" {
				return numEq(b, r.st, v, 42)
			}
			return numEq(b, r.st, v, 0)
		case "AsInt64", "AsFloat64":
			if kind == "float64" {
				return numEq(b, r.st, v, 42)
			}
			if kind == "int" || kind == "int32" {
				return 1 // not promised
			}
			return numEq(b, r.st, v, 0)
		case "AsArray", "AsStringArray":
			if kind == "list" {
				return seqIs(b, r.st, v, b.atom("e0"), b.atom("e1"))
			}
			if kind == "list of *string" && fn == "AsStringArray" {
				return seqIs(b, r.st, v, b.atom("e0"), b.atom("e1"))
			}
			if kind == "mixed list" || kind == "list of *string" {
				if fn == "AsStringArray" {
					return b.e.isEmpty(r.st, v)
				}
				return b.e.evalEq(r.st, b.e.length(r.st, v), b.e.T.Int(2))
			}
			return b.e.isEmpty(r.st, v)
		case "AsMap":
			if kind == "map" {
				x, ok := b.lookupMap(r.st, v, b.atom("mk"))
				if !ok {
					return 0
				}
				return b.same(r.st, unIface(x), b.atom("mv"))
			}
			return b.e.isNil(r.st, v)
		case "AsDecimal":
			if kind == "decimal" {
				return b.same(r.st, b.bigOf(r.st, v), b.num("x"))
			}
			return b.e.isNil(r.st, v)
		}
		return -1
	}
	_ = zero
	getters := map[string]string{"AsString": "GetString", "AsBool": "GetBool", "AsInt": "GetInt", "AsInt64": "GetInt64", "AsFloat64": "GetFloat64", "AsArray": "GetArray", "AsStringArray": "GetStringArray", "AsMap": "GetMap", "AsDecimal": "GetDecimal"}
	for _, fn := range []string{"AsString", "AsBool", "AsInt", "AsInt64", "AsFloat64", "AsArray", "AsStringArray", "AsMap", "AsDecimal"} {
		for _, k := range kinds {
			fn, k := fn, k
			c.check(fmt.Sprintf("%s of %s", fn, k.name), nil, func(b *B, o *O) {
				in := k.mk(b)
				o.expect(b.call(nil, "", fn, in), "the conversion must give the value of that kind, or its zero value", func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return expect(fn, k.name, b, r, in)
				})
				g := getters[fn]
				if fn == "AsStringArray" && k.name == "mixed list" {
					return // the accessor keeps the other elements as empty texts
				}
				for depth := 1; depth <= 3; depth++ {
					v := in
					var keys []*Term
					for i := depth; i >= 1; i-- {
						v = b.mapAny(b.atom(fmt.Sprint("other", i)), b.str("zzz"), b.atom(fmt.Sprint("key", i)), v)
						keys = append([]*Term{b.atom(fmt.Sprint("key", i))}, keys...)
					}
					rs := b.then(b.call(nil, "", "AsData", v), func(r Ret) []Ret { return b.call(r.st, "", "Data."+g, r.val, b.list(keys...)) })
					if depth > 1 && b.e.P.Func("", "Data.GetData") != nil {
						rs2 := b.then(b.call(nil, "", "AsData", v), func(r Ret) []Ret {
							return b.then(b.call(r.st, "", "Data.GetData", r.val, b.list(keys[:depth-1]...)), func(r Ret) []Ret {
								return b.call(r.st, "", "Data."+g, r.val, b.list(keys[depth-1]))
							})
						})
						o.expect(rs2, fmt.Sprintf("%s of the data under %d keys must give the stored value", g, depth-1), func(r Ret) int {
							if r.kind != RReturn {
								return 0
							}
							return expect(fn, k.name, b, r, in)
						})
					}
					o.expect(rs, fmt.Sprintf("%s through %d keys must give the stored value", g, depth), func(r Ret) int {
						if r.kind != RReturn {
							return 0
						}
						return expect(fn, k.name, b, r, in)
					})
				}
				if fn != "AsFloat64" && b.e.P.Func("", g) != nil {
					o.expect(b.call(nil, "", g, b.mapT(tMapAny, b.atom("o"), b.str("zz"), b.atom("key"), in), b.atom("key")), g+" of a map must give the stored value", func(r Ret) int {
						if r.kind != RReturn {
							return 0
						}
						return expect(fn, k.name, b, r, in)
					})
				}
			})
		}
		fn := fn
		c.check(getters[fn]+" of a missing key", nil, func(b *B, o *O) {
			v := b.mapAny(b.atom("a"), b.mapAny(b.atom("bb"), b.str("x")), b.atom("last"), b.str(b.atom("s")), b.atom("n"), b.any(types.Typ[types.Float64], b.e.T.mk(OConst, "", constant.MakeFloat64(42), types.Typ[types.Float64], nil)))
			for _, keys := range [][]string{{"zz"}, {"a", "zz"}, {"zz", "bb"}, {"a", "bb", "cc"}, {"zz", "last"}, {"zz", "n"}, {"last", "s"}, {"a", "zz", "bb"}} {
				var ks []*Term
				for _, k := range keys {
					ks = append(ks, b.atom(k))
				}
				rs := b.then(b.call(nil, "", "AsData", v), func(r Ret) []Ret { return b.call(r.st, "", "Data."+getters[fn], r.val, b.list(ks...)) })
				o.expect(rs, fmt.Sprintf("the missing path %v must give the zero value", keys), func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return expect(fn, "nothing", b, r, nil)
				})
				rs = b.then(b.call(nil, "", "AsData", v), func(r Ret) []Ret { return b.call(r.st, "", "Data.Has", r.val, b.list(ks...)) })
				o.boolean(rs, false, fmt.Sprintf("the missing path %v is not present", keys))
			}
			rs := b.then(b.call(nil, "", "AsData", v), func(r Ret) []Ret { return b.call(r.st, "", "Data.Has", r.val, b.list(b.atom("a"), b.atom("bb"))) })
			o.boolean(rs, true, "a present path")
			rs = b.call(nil, "", "Data."+getters[fn], b.e.T.Nil(), b.list(b.atom("a")))
			if fn != "AsFloat64" {
				o.expect(rs, "no data gives the zero value", func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return expect(fn, "nothing", b, r, nil)
				})
			}
		})
	}
	c.check("storing and reading back", nil, func(b *B, o *O) {
		for _, fresh := range []bool{true, false} {
			var rs []Ret
			b.e.building = true
			if fresh {
				rs = b.call(nil, "", "NewData")
			} else {
				rs = b.call(nil, "", "AsData", b.mapAny(b.atom("old"), b.str("o")))
			}
			rs = b.then(rs, func(r Ret) []Ret {
				d := r.val
				return b.then(b.call(r.st, "", "Data.Put", d, b.atom("key"), b.str(b.atom("v"))), func(r Ret) []Ret {
					return b.call(r.st, "", "Data.GetString", d, b.list(b.atom("key")))
				})
			})
			o.expect(rs, "a stored value is read back", func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				return b.same(r.st, r.val, b.atom("v"))
			})
		}
	})
	c.check("encoding data of scalar values", &Scenario{foldJSON: true}, func(b *B, o *O) {
		for want, v := range map[string]*Term{"true": b.any(tBool, b.e.T.Bool(true)), "false": b.any(tBool, b.e.T.Bool(false)), "null": b.e.T.Nil(), `"a text"`: b.str("a text"), `""`: b.str("")} {
			rs := b.then(b.call(nil, "", "AsData", v), func(r Ret) []Ret {
				d := b.e.load(r.st, r.val, b.typ("Data"))
				return b.call(r.st, "", "Data.MarshalJSON", d)
			})
			o.accept(rs, "encoding "+want)
			o.expect(rs, "the JSON must be "+want, func(r Ret) int {
				x := valOf(r)
				for x.op == OCall && x.s == "bytes" {
					x = x.args[0]
				}
				if s, ok := x.isStr(); ok {
					if strings.TrimSpace(s) == want {
						return 1
					}
					return 0
				}
				return -1
			})
		}
	})
	for _, w := range []string{"a text", "a list", "a truth value", "a map", "nothing"} {
		w := w
		val := func(b *B) *Term {
			switch w {
			case "a text":
				return b.str("x")
			case "a list":
				return b.listAny(b.str("x"), b.str("y"))
			case "a truth value":
				return b.boolAny(true)
			case "a map":
				return b.mapAny(b.atom("k"), b.str("x"))
			}
			return b.e.T.Nil()
		}
		var doc *Term
		c.check("decoding data that is "+w, &Scenario{fails: map[string]int{"json": 0}, decoded: func(e *Engine, st *State, kind string, t types.Type) *Term {
			if _, ok := under(t).(*types.Interface); ok {
				return doc
			}
			if _, ok := under(t).(*types.Map); ok && w == "a map" {
				return doc.args[0]
			}
			return misfit
		}}, func(b *B, o *O) {
			b.e.building = true
			doc = val(b)
			rs := b.then(b.call(nil, "", "AsData", b.e.T.Nil()), func(r Ret) []Ret {
				d := r.val
				return b.then(b.call(r.st, "", "Data.UnmarshalJSON", d, b.sym("D", types.NewSlice(types.Typ[types.Byte]))), func(r Ret) []Ret {
					if b.e.isNil(r.st, r.val) != 1 {
						return []Ret{{st: r.st, val: r.val, kind: RPanic}}
					}
					return b.call(r.st, "", "Data.Get", d, b.list(b.atom("k")))
				})
			})
			o.expect(rs, "any JSON value must be accepted and its entries be readable", func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				if w == "a map" {
					return b.same(r.st, unIface(r.val), b.e.T.Str("x"))
				}
				return b.e.isNil(r.st, r.val)
			})
		})
	}
	c.check("presence of stored values", nil, func(b *B, o *O) {
		num := func(f float64) *Term {
			return b.any(types.Typ[types.Float64], b.e.T.mk(OConst, "", constant.MakeFloat64(f), types.Typ[types.Float64], nil))
		}
		for name, v := range map[string]*Term{"the empty text": b.str(""), "a text": b.str("x"), "false": b.any(tBool, b.e.T.Bool(false)), "true": b.any(tBool, b.e.T.Bool(true)), "zero": num(0), "a number": num(-1), "an empty list": b.listAny(), "an empty map": b.mapAny()} {
			for depth := 1; depth <= 3; depth++ {
				x := v
				var keys []*Term
				for i := depth; i >= 1; i-- {
					x = b.mapAny(b.atom(fmt.Sprint("other", i)), b.str("zzz"), b.atom(fmt.Sprint("key", i)), x)
					keys = append([]*Term{b.atom(fmt.Sprint("key", i))}, keys...)
				}
				rs := b.then(b.call(nil, "", "AsData", x), func(r Ret) []Ret { return b.call(r.st, "", "Data.Has", r.val, b.list(keys...)) })
				o.boolean(rs, true, fmt.Sprintf("%s stored under %d keys is present", name, depth))
				rs = b.then(b.call(nil, "", "AsData", x), func(r Ret) []Ret { return b.call(r.st, "", "Data.Get", r.val, b.list(keys...)) })
				o.expect(rs, fmt.Sprintf("%s stored under %d keys must be read as it is", name, depth), func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return b.same(r.st, unIface(r.val), unIface(v))
				})
			}
		}
	})
	c.check("storing into what is no map", nil, func(b *B, o *O) {
		for _, v := range []*Term{b.str(b.atom("s")), b.listAny(b.str("x")), b.any(tBool, b.e.T.Bool(true))} {
			b.e.building = true
			o.expect(b.then(b.call(nil, "", "AsData", v), func(r Ret) []Ret {
				d := r.val
				return b.then(b.call(r.st, "", "Data.Put", d, b.atom("key"), b.str(b.atom("v"))), func(r Ret) []Ret {
					return one2(r.st, b.get(r.st, d, "value"))
				})
			}), "the value must stay as it is", func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				return b.same(r.st, unIface(r.val), unIface(v))
			})
		}
	})
	c.check("storing over a value", nil, func(b *B, o *O) {
		for _, w := range []string{"nothing", "text", "other key"} {
			b.e.building = true
			rs := b.then(b.call(nil, "", "AsData", b.mapAny(b.atom("key"), b.str(b.atom("old")), b.atom("k2"), b.str(b.atom("v2")))), func(r Ret) []Ret {
				d := r.val
				k, v := b.atom("key"), b.str(b.atom("new"))
				if w == "nothing" {
					v = b.e.T.Nil()
				}
				if w == "other key" {
					k = b.atom("k2")
				}
				return b.then(b.call(r.st, "", "Data.Put", d, k, v), func(r Ret) []Ret {
					return b.then(b.call(r.st, "", "Data.GetString", d, b.list(b.atom("key"))), func(r Ret) []Ret {
						first := r.val
						return b.then(b.call(r.st, "", "Data.GetString", d, b.list(b.atom("k2"))), func(r Ret) []Ret {
							if r.kind != RReturn {
								return []Ret{r}
							}
							return one2(r.st, b.e.T.Tuple(first, r.val))
						})
					})
				})
			})
			o.expect(rs, "the value last stored under a key is read back and the other stays ("+w+")", func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				x, y := b.atom("new"), b.atom("v2")
				if w == "nothing" {
					x = b.e.T.Str("")
				}
				if w == "other key" {
					x, y = b.atom("old"), b.atom("new")
				}
				if n := b.same(r.st, r.val.args[0], x); n != 1 {
					return n
				}
				return b.same(r.st, r.val.args[1], y)
			})
		}
	})
	for _, ext := range []string{".yaml", ".json", ""} {
		for fail := 0; fail < 3; fail++ {
			ext, fail := ext, fail
			fs := map[string]int{"os.ReadFile": 0, "json": 0, "yaml": 0}
			if fail == 1 {
				fs["os.ReadFile"] = 1
			} else if fail == 2 {
				fs["json"], fs["yaml"] = 1, 1
			}
			c.check(fmt.Sprintf("reading a %q file, failure %d", ext, fail), &Scenario{fails: fs}, func(b *B, o *O) {
				rs := b.call(nil, "", "DataFromFile", b.e.T.Str("dir/conf"+ext))
				o.verdict(rs, fail == 0, "the file")
				if fail == 0 {
					o.expect(rs, "the data is the decoded content", func(r Ret) int {
						kind := "json("
						if ext == ".yaml" {
							kind = "yaml("
						}
						v := unIface(b.get(r.st, valOf(r), "value"))
						if v.op == OSym && strings.HasPrefix(v.s, kind) {
							return 1
						}
						if b.e.isNil(r.st, valOf(r)) == 1 {
							return 0
						}
						if v.unk() {
							return -1
						}
						return 0
					})
				}
			})
		}
	}
	for fail := 0; fail < 2; fail++ {
		fail := fail
		c.check(fmt.Sprintf("reading a JSON text, failure %d", fail), &Scenario{fails: map[string]int{"json": fail}}, func(b *B, o *O) {
			rs := b.call(nil, "", "DataFromJsonString", b.atom("text"))
			o.verdict(rs, fail == 0, "the text")
			if fail == 0 {
				o.expect(rs, "the data is the decoded text", func(r Ret) int {
					if b.e.isNil(r.st, valOf(r)) == 1 {
						return 0
					}
					v := unIface(b.get(r.st, valOf(r), "value"))
					if v.op == OSym && strings.HasPrefix(v.s, "json(") {
						return 1
					}
					if v.unk() {
						return -1
					}
					return 0
				})
			}
		})
	}
}

func one2(st *State, v *Term) []Ret { return []Ret{{st: st, val: v, kind: RReturn}} }

func unIface(t *Term) *Term {
	if t != nil && t.op == OIface {
		return t.args[0]
	}
	return t
}

func seqIs(b *B, st *State, v *Term, want ...*Term) int {
	xs, ok := b.items(b.e.res(st, v))
	if !ok {
		return -1
	}
	if len(xs) != len(want) {
		return 0
	}
	for i := range xs {
		if n := b.same(st, unIface(xs[i]), want[i]); n != 1 {
			return n
		}
	}
	return 1
}

func runC32(c *C) {
	str1 := func(fn, in, want string) {
		c.check(fmt.Sprintf("%s(%q)", fn, in), nil, func(b *B, o *O) {
			o.expect(b.call(nil, "", fn, b.e.T.Str(in)), fmt.Sprintf("the result must be %q", want), func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				return b.same(r.st, r.val, b.e.T.Str(want))
			})
			if fn != "BaseFileName" {
				g := b.obj("Generator", F{})
				o.expect(b.call(nil, "", "Generator."+fn, g, b.e.T.Str(in)), fmt.Sprintf("the generator's result must be %q", want), func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return b.same(r.st, r.val, b.e.T.Str(want))
				})
			}
		})
	}
	str1("Capitalize", "", "")
	str1("Capitalize", "a", "A")
	str1("Capitalize", "fooBar", "FooBar")
	str1("Capitalize", "FOO", "FOO")
	str1("Uncapitalize", "", "")
	str1("Uncapitalize", "A", "a")
	str1("Uncapitalize", "FooBar", "fooBar")
	str1("BaseFileName", "/a/b/foo.sadl", "foo")
	str1("BaseFileName", "foo.sadl", "foo")
	str1("BaseFileName", "foo", "foo")
	str1("BaseFileName", "a.b/foo", "foo")
	str1("BaseFileName", "foo.bar.sadl", "foo.bar")
	str1("BaseFileName", ".sadl", ".sadl")
	str1("BaseFileName", "a.sadl", "a")
	str1("BaseFileName", "x/y/a.b", "a")
	str1("BaseFileName", "x.y/ab.", "ab")
	str1("Uncapitalize", "a", "a")
	str1("Uncapitalize", "aB", "aB")
	str1("Capitalize", "z", "Z")
	for _, s := range []string{"two words", "a b", "snake_case", "mixedCase", "kebab-name", "with1digit", "a.b", "id", "aBC", "über-x"} {
		if s[0] < 128 {
			str1("Capitalize", s, strings.ToUpper(s[:1])+s[1:])
		}
		up := strings.ToUpper(s[:1]) + s[1:]
		if s[0] < 128 {
			str1("Capitalize", up, up)
			str1("Uncapitalize", up, s)
			str1("Uncapitalize", s, s)
		}
	}
	for _, t := range [][2]string{{"foo.sadl.json", "foo.sadl"}, {"dir/with space.sadl", "with space"}, {"./x.sadl", "x"}, {"../up/y.sadl", "y"}, {"UPPER.SADL", "UPPER"}, {"/abs/sadl", "sadl"}, {"a-b_c.sadl", "a-b_c"}, {"v1.2/my.sadl", "my"}} {
		str1("BaseFileName", t[0], t[1])
	}
	for _, s := range []string{"plain", "", "with \"quotes\"", "\"quoted\"", "two\nlines", "\nlines\n", " spaces ", "\"", "<a href='x'>&", "back\\slash", "tab\t"} {
		s := s
		c.check(fmt.Sprintf("text form of the value %q", s), &Scenario{foldJSON: true}, func(b *B, o *O) {
			var buf bytes.Buffer
			enc := json.NewEncoder(&buf)
			enc.SetEscapeHTML(false)
			enc.Encode(s)
			want := strings.TrimSpace(buf.String())
			o.expect(b.call(nil, "", "ToString", b.str(s)), "the text must be the JSON of the value", func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				return b.same(r.st, r.val, b.e.T.Str(want))
			})
		})
	}
	str1("Uncapitalize", "ZZ", "zZ")
	c.check("text form of truth values and nothing", &Scenario{foldJSON: true}, func(b *B, o *O) {
		for want, v := range map[string]*Term{"true": b.any(tBool, b.e.T.Bool(true)), "false": b.any(tBool, b.e.T.Bool(false)), "null": b.e.T.Nil()} {
			for _, fn := range []string{"ToString", "Pretty"} {
				o.expect(b.call(nil, "", fn, v), fn+" must give the JSON of the value", func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					if s, ok := r.val.isStr(); ok {
						if strings.TrimSpace(s) == want {
							return 1
						}
						return 0
					}
					return -1
				})
			}
		}
	})
	for _, t := range []struct {
		s  string
		ok bool
	}{{"", false}, {"a", true}, {"Z", true}, {"_", false}, {"1", false}, {"a1", true}, {"a_b", true}, {"a-b", false}, {"a b", false}, {"aé", false}, {"é", false}, {"abcXYZ09_", true}, {"a.", false}, {"-a", false}} {
		t := t
		c.check(fmt.Sprintf("IsSymbol(%q)", t.s), nil, func(b *B, o *O) {
			o.boolean(b.call(nil, "", "IsSymbol", b.e.T.Str(t.s)), t.ok, "a symbol is a letter followed by letters, digits and underscores")
		})
	}
	for ch := rune(9); ch < 127; ch++ {
		if ch > 13 && ch < 32 {
			continue
		}
		ch := ch
		up := ch >= 'A' && ch <= 'Z'
		low := ch >= 'a' && ch <= 'z'
		dig := ch >= '0' && ch <= '9'
		c.check(fmt.Sprintf("character class of %q", ch), nil, func(b *B, o *O) {
			x := b.e.T.mk(OConst, "", constant.MakeInt64(int64(ch)), types.Typ[types.Int32], nil)
			o.boolean(b.call(nil, "", "IsLetter", x), up || low, "IsLetter")
			o.boolean(b.call(nil, "", "IsUppercaseLetter", x), up, "IsUppercaseLetter")
			o.boolean(b.call(nil, "", "IsLowercaseLetter", x), low, "IsLowercaseLetter")
			o.boolean(b.call(nil, "", "IsDigit", x), dig, "IsDigit")
			o.boolean(b.call(nil, "", "IsWhitespace", x), ch == ' ' || ch == '\t' || ch == '\n', "IsWhitespace")
			o.boolean(b.call(nil, "", "IsSymbolChar", x, b.e.T.Bool(true)), up || low, "IsSymbolChar, first")
			o.boolean(b.call(nil, "", "IsSymbolChar", x, b.e.T.Bool(false)), up || low || dig || ch == '_', "IsSymbolChar")
		})
	}
	c.check("annotations", nil, func(b *B, o *O) {
		m := b.annos(b.atom("k1"), b.atom("v1"), b.atom("k2"), "")
		get := func(k, want *Term, what string) {
			o.expect(b.call(nil, "", "GetAnnotation", m, k), what, func(r Ret) int { return b.same(r.st, r.val, want) })
		}
		get(b.atom("k1"), b.atom("v1"), "an annotation must give its value")
		m = b.annos(b.e.T.Str("x_a"), "v", b.e.T.Str("x_A"), "w", b.e.T.Str("x_one"), "1", b.e.T.Str("x_zero"), "0", b.e.T.Str("x_f"), "false", b.e.T.Str("x_s"), " sp ", b.e.T.Str("x_q"), "a\"b", b.e.T.Str("x_"), "bare", b.e.T.Str("x_t"), "true")
		for k, v := range map[string]string{"x_a": "v", "x_A": "w", "x_one": "1", "x_zero": "0", "x_f": "false", "x_s": " sp ", "x_q": "a\"b", "x_": "bare", "x_t": "true", "a": "", "x_ONE": "", "one": "", "": ""} {
			get(b.e.T.Str(k), b.e.T.Str(v), "the annotation "+k+" must give "+v)
		}
		m = b.annos(b.atom("k1"), b.atom("v1"), b.atom("k2"), "")
		get(b.atom("k2"), b.e.T.Str("true"), "an annotation without a value must be true")
		get(b.atom("zz"), b.e.T.Str(""), "a missing annotation must be empty")
		o.expect(b.call(nil, "", "GetAnnotation", b.e.T.Nil(), b.atom("k")), "no annotations", func(r Ret) int { return b.same(r.st, r.val, b.e.T.Str("")) })
	})
	for order := 0; order < 3; order++ {
		order := order
		c.check(fmt.Sprintf("annotations as text, maps visited in order %d", order), &Scenario{mapOrder: order}, func(b *B, o *O) {
			is := func(m *Term, want string) {
				o.expect(b.call(nil, "", "AnnotationsAsString", m), fmt.Sprintf("the text of the annotations must be %q", want), func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return b.same(r.st, r.val, b.e.T.Str(want))
				})
			}
			is(b.e.T.Nil(), "")
			is(b.annos(), "")
			is(b.annos("x_one", "v"), ` (x_one="v")`)
			is(b.annos("x_two", "w", "x_one", "v\"q"), ` (x_one="v\"q", x_two="w")`)
			is(b.annos("x_b", "2", "x_c", "", "x_a", "1"), ` (x_a="1", x_b="2", x_c="")`)
		})
	}
	for _, t := range [][2]string{{"a", "a"}, {"a", "b"}, {"", ""}} {
		t := t
		c.check(fmt.Sprintf("Equivalent(%q, %q)", t[0], t[1]), nil, func(b *B, o *O) {
			o.boolean(b.call(nil, "", "Equivalent", b.str(t[0]), b.str(t[1])), t[0] == t[1], "values are equivalent when their texts are the same")
		})
	}
	// comments: every line carries the indentation and the prefix, and the words survive in order
	long := "The quick brown fox jumps over the lazy dog and keeps running until the end of the line is reached by everyone"
	for _, cm := range []string{"short", "two words", long, "first line\nsecond line", "a\n\nb", "\nafter a break", "one two\n", "double  spaces   inside", "trailing ", "/* c */ // x", "100% <b> \"q\"", "tab\tand more", strings.Repeat("x", 120), long + " " + strings.Repeat("y", 90)} {
		for _, indent := range []string{"", "    "} {
			for _, prefix := range []string{"// ", "# "} {
				for _, maxcol := range []int{0, 40, 80, 100} {
					for _, pad := range []bool{false, true} {
						cm, indent, prefix, maxcol, pad := cm, indent, prefix, maxcol, pad
						n := cm
						if len(n) > 12 {
							n = n[:12]
						}
						c.check(fmt.Sprintf("comment %q(%d) indent %d prefix %q maxcol %d pad %v", n, len(cm), len(indent), prefix, maxcol, pad), nil, func(b *B, o *O) {
							T := b.e.T
							rs := b.call(nil, "", "FormatComment", T.Str(indent), T.Str(prefix), T.Str(cm), T.Int(int64(maxcol)), T.Bool(pad))
							o.expect(rs, "every line must be a comment line and the text must be preserved", func(r Ret) int {
								if r.kind != RReturn {
									return 0
								}
								s, ok := r.val.isStr()
								if !ok {
									return -1
								}
								return commentOK(s, indent, prefix, cm, maxcol)
							})
						})
					}
				}
			}
		}
	}
}

// commentOK: each line is indent+prefix+words; together they are the words of the comment; explicit line breaks are kept.
// Lines that the comment does not break itself stay within the limit where they have several words.
func commentOK(out, indent, prefix, comment string, maxcol int) int {
	if !strings.HasSuffix(out, "\n") {
		return 0
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	var words []string
	var body []string
	for _, l := range lines {
		if !strings.HasPrefix(l, indent+strings.TrimRight(prefix, " ")) {
			// a wrapped first word that is too long leaves an empty line, which is harmless
			if l == "" {
				continue
			}
			return 0
		}
		t := strings.TrimPrefix(strings.TrimPrefix(l, indent), strings.TrimRight(prefix, " "))
		if t != "" && !strings.HasPrefix(t, " ") {
			return 0
		}
		body = append(body, strings.TrimSpace(t))
		words = append(words, strings.Fields(t)...)
		if !strings.Contains(comment, "\n") && maxcol > len(indent) && len(strings.Fields(t)) > 1 && len(l) > maxcol {
			return 0
		}
	}
	if strings.Join(words, " ") != strings.Join(strings.Fields(comment), " ") {
		return 0
	}
	if strings.Contains(comment, "\n") {
		want := strings.Split(comment, "\n")
		if strings.Join(body, "\n") != strings.Join(want, "\n") {
			return 0
		}
	}
	return 1
}
