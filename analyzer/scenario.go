package main

// scenario.go: abstract inputs (shapes with symbolic leaves) and outcome queries.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxFollow = 600

type Scenario struct {
	follow     bool // loops are followed round by round even if their headers do not decide whether they end
	graphqlDoc *Term
	decoded    func(e *Engine, st *State, kind string, t types.Type) *Term // what a document decodes to
	calls      map[string]model                                            // library functions with a meaning of their own here
	pins       map[string]*Term
	fails      map[string]int // 0 never, 1 always, 2 either
	exists     int
	nils       map[string]bool
	printed    bool // a number read back from its shortest text is the number; JSON text is split into tokens
	foldJSON   bool // known scalar values are encoded to their JSON text
	hook       func(*Term) *Term
	mapOrder   int // order in which maps of known entries are visited: 0 as built, 1 reversed, 2 rotated
}

// operations that succeed unless a scenario says otherwise
var ioOps = map[string]bool{"os.Create": true, "write": true, "close": true, "os.WriteFile": true, "os.ReadFile": true, "os.MkdirAll": true,
	"os.Stat": true, "bufio.Write": true, "json.Marshal": true, "json.Encode": true, "template.Execute": true, "graphql.Parse": true}

func (s *Scenario) nilDefault(t *Term) (bool, bool) {
	if s.nils == nil {
		return false, false
	}
	v, ok := s.nils[t.npath()]
	return v, ok
}

func (e *Engine) setScenario(sc *Scenario) {
	e.sc = sc
	cache := map[*Term]*Term{}
	e.T.pin = func(t *Term) *Term {
		if r, ok := cache[t]; ok {
			return r
		}
		var r *Term
		if t.op == OCall && strings.HasPrefix(t.s, "fails:") {
			op := t.s[6:]
			v, ok := sc.fails[op]
			if !ok && (ioOps[op] || sc.decoded != nil && (op == "json" || op == "yaml")) {
				v, ok = 0, true
			}
			if ok && v < 2 {
				r = e.T.Bool(v == 1)
			}
		}
		if r == nil && t.op == OCall && t.s == "exists" && sc.exists < 2 {
			r = e.T.Bool(sc.exists == 1)
		}
		if r == nil && sc.pins != nil {
			if p, ok := sc.pins[t.npath()]; ok {
				r = p
			}
		}
		if r == nil && sc.hook != nil {
			r = sc.hook(t)
		}
		cache[t] = r
		return r
	}
}

// B builds abstract inputs and runs entry points.
type B struct {
	e       *Engine
	st      *State
	n       int
	home    string // the package that names without a package stand for
	dressed bool   // declarations get remarks and defaults
	dressN  int

	plainRemarks bool // remarks are short texts
}

type F map[string]interface{}

func (p *Program) NewB(sc *Scenario) *B {
	e := p.engine()
	if sc == nil {
		sc = &Scenario{}
	}
	e.setScenario(sc)
	st := &State{env: &Env{vals: map[ssa.Value]*Term{}, ctx: "r"}, heap: map[string]*Obj{}, facts: map[*Term]bool{}, eqc: map[*Term]*Term{}}
	for id, o := range e.globals {
		st.heap[id] = o
	}
	return &B{e: e, st: st}
}

var sharedTerms *Terms
var sharedGlobals map[string]*Obj

func (p *Program) engine() *Engine {
	e := NewEngine(p)
	if sharedGlobals == nil {
		e.InitGlobals()
		sharedGlobals = e.globals
		sharedTerms = e.T
	} else {
		e.T = sharedTerms
		e.T.pin = nil
		e.globals = sharedGlobals
	}
	return e
}

func (b *B) typ(name string) types.Type {
	pkg := ""
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg, name = name[:i], name[i+1:]
	} else {
		pkg = b.home
	}
	t := b.e.P.Type(pkg, name)
	if t == nil {
		panic(anchorLost{"type " + pkg + "." + name})
	}
	return t
}

type anchorLost struct{ what string }

func (b *B) term(v interface{}, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		if x.op == OSym && x.t == nil {
			x.t = t
		}
		return x
	case string:
		return b.e.T.Str(x)
	case int:
		return b.e.T.Int(int64(x))
	case bool:
		return b.e.T.Bool(x)
	case nil:
		return b.e.T.Nil()
	case []string:
		var xs []*Term
		for _, s := range x {
			xs = append(xs, b.e.T.Item(b.e.T.Str(s)))
		}
		return b.e.catParts(xs)
	case []*Term:
		var xs []*Term
		for _, s := range x {
			xs = append(xs, b.e.T.Item(s))
		}
		return b.e.catParts(xs)
	}
	panic(fmt.Sprintf("term: %T", v))
}

func (b *B) setField(v *Term, t types.Type, name string, val interface{}) (*Term, bool) {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return v, false
	}
	x := b.e.expand(v, t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			fs := append([]*Term{}, x.args...)
			fs[i] = b.term(val, s.Field(i).Type())
			return b.e.T.mk(OStruct, "", nil, t, nil, fs...), true
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			ft := s.Field(i).Type()
			if _, isp := ft.(*types.Pointer); isp {
				continue
			}
			if nv, ok := b.setField(x.args[i], ft, name, val); ok {
				fs := append([]*Term{}, x.args...)
				fs[i] = nv
				return b.e.T.mk(OStruct, "", nil, t, nil, fs...), true
			}
		}
	}
	return v, false
}

// sv builds a struct value.
func (b *B) sv(typ string, f F) *Term { return b.svT(b.typ(typ), f) }

func (b *B) svT(t types.Type, f F) *Term {
	v := b.e.expand(b.e.zero(t), t)
	var names []string
	for n := range f {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		nv, ok := b.setField(v, t, n, f[n])
		if !ok {
			panic(anchorLost{"field " + n + " of " + types.TypeString(t, nil)})
		}
		v = nv
	}
	return v
}

// obj allocates an input object and returns its address.
func (b *B) obj(typ string, f F) *Term {
	t := b.typ(typ)
	if b.dressed {
		f = b.dress(typ, f)
	}
	return b.newObj(typ, b.svT(t, f), t)
}

// dress adds what must not change the meaning of a declaration: a comment, an annotation, and a default of a struct field.
func (b *B) dress(typ string, f F) F {
	switch typ {
	case "TypeDef", "StructFieldDef", "HttpParamSpec", "EnumElementDef", "UnionVariantDef", "HttpDef", "HttpExpectedSpec", "HttpExceptionSpec":
	default:
		return f
	}
	g := F{}
	for k, v := range f {
		g[k] = v
	}
	b.dressN++
	if _, ok := f["Comment"]; !ok {
		g["Comment"] = b.atom("remark" + strconv.Itoa(b.dressN))
		if b.plainRemarks {
			g["Comment"] = "a remark"
		}
	}
	if _, ok := f["Annotations"]; !ok {
		g["Annotations"] = b.annos(b.atom("x_note"), b.atom("noted"))
	}
	if _, ok := f["Default"]; !ok && typ == "StructFieldDef" {
		switch f["Type"] {
		case "String":
			p := b.strp(b.atom("fallback"))
			g["Default"] = b.any(p.t, p)
		case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
			d := b.dec(b.rep(7, types.Typ[types.Float64]))
			g["Default"] = b.any(d.t, d)
		case "Bool":
			g["Default"] = b.boolAny(true)
		}
	}
	return g
}

func (b *B) newObj(tag string, v *Term, t types.Type) *Term {
	b.n++
	id := "m:" + tag + strconv.Itoa(b.n) + "." + strconv.Itoa(b.e.T.typeID(t)) // a pointer's type is part of what it is
	b.st.heap[id] = &Obj{kind: KCell, val: v, typ: t}
	return b.e.T.Ptr(id, types.NewPointer(t))
}

func (b *B) ref(v interface{}, t types.Type) *Term { return b.newObj("v", b.term(v, t), t) }
func (b *B) i64(v interface{}) *Term               { return b.ref(v, types.Typ[types.Int64]) }
func (b *B) strp(v interface{}) *Term              { return b.ref(v, tString) }

// rep is an arbitrary whole number; texts made of it show it as n.
func (b *B) rep(n int, t types.Type) *Term { return b.sym("#"+strconv.Itoa(n), t) }

// code is an arbitrary status, different from every other code; texts made of it show it as n.
func (b *B) code(n int) *Term { return b.sym("!#"+strconv.Itoa(n), types.Typ[types.Int32]) }

// size is an arbitrary size; texts made of it show it as n.
func (b *B) size(n int) *Term { return b.sym("+#"+strconv.Itoa(n), types.Typ[types.Int64]) }

// atom is a generic identifier, different from every literal and every other atom.
func (b *B) atom(name string) *Term { return b.e.T.mk(OSym, "@"+name, nil, tString, nil) }

// sym is an arbitrary value; names starting with "+" are non-negative, "++" positive.
func (b *B) sym(name string, t types.Type) *Term { return b.e.T.mk(OSym, name, nil, t, nil) }

func (b *B) num(name string) *Term { return b.sym(name, types.Typ[types.Float64]) }
func (b *B) add(x *Term, k interface{}) *Term {
	return b.e.arith("+", x, b.term(k, nil), types.Typ[types.Int64])
}
func (b *B) sub(x *Term, k interface{}) *Term {
	return b.e.arith("-", x, b.term(k, nil), types.Typ[types.Int64])
}

// dec is a *Decimal holding the number.
func (b *B) dec(num interface{}) *Term {
	t := b.typ("Decimal")
	s := under(t).(*types.Struct)
	v := b.e.T.mk(OCall, "big", nil, nil, nil, b.term(num, nil))
	for i := 0; i < s.NumFields(); i++ {
		if strings.HasSuffix(types.TypeString(s.Field(i).Type(), nil), "big.Float") {
			fs := make([]*Term, s.NumFields())
			for j := range fs {
				fs[j] = b.e.zero(s.Field(j).Type())
			}
			fs[i] = v
			return b.newObj("Decimal", b.e.T.mk(OStruct, "", nil, t, nil, fs...), t)
		}
	}
	panic(anchorLost{"Decimal representation"})
}

func (b *B) list(xs ...*Term) *Term {
	var ys []*Term
	for _, x := range xs {
		ys = append(ys, b.e.T.Item(x))
	}
	return b.e.catParts(ys)
}

func (b *B) mapT(t types.Type, kv ...*Term) *Term {
	b.n++
	id := "m:map" + strconv.Itoa(b.n) + "." + strconv.Itoa(b.e.T.typeID(t))
	o := &Obj{kind: KMap, typ: t}
	for i := 0; i+1 < len(kv); i += 2 {
		o.ents = append(o.ents, Ent{kv[i], kv[i+1], true})
	}
	b.st.heap[id] = o
	return b.e.T.Ptr(id, t)
}

var tAny = types.NewInterfaceType(nil, nil)
var tMapAny = types.NewMap(tString, tAny)
var tMapStr = types.NewMap(tString, tString)
var tListAny = types.NewSlice(tAny)

func (b *B) mapAny(kv ...*Term) *Term { return b.any(tMapAny, b.mapT(tMapAny, kv...)) }
func (b *B) listAny(xs ...*Term) *Term {
	return b.any(tListAny, b.list(xs...))
}
func (b *B) annos(kv ...interface{}) *Term {
	var xs []*Term
	for _, k := range kv {
		xs = append(xs, b.term(k, tString))
	}
	return b.mapT(tMapStr, xs...)
}
func (b *B) any(t types.Type, x *Term) *Term { return b.e.T.Iface(t, x) }

// strAny is a text as the parser leaves it: a pointer to a string.
func (b *B) strAny(s string) *Term { return b.any(types.NewPointer(tString), b.strp(s)) }

func (b *B) str(v interface{}) *Term { return b.any(tString, b.term(v, tString)) }

// fn resolves an exported entry point.
func (b *B) fn(pkg, name string) *ssa.Function {
	if pkg == "" {
		pkg = b.home
	}
	f := b.e.P.Func(pkg, name)
	if f == nil {
		panic(anchorLost{"func " + pkg + "." + name})
	}
	return f
}

// call runs an entry point from state st (nil: the builder's state).
func (b *B) call(st *State, pkg, name string, args ...*Term) []Ret {
	f := b.fn(pkg, name)
	if st == nil {
		st = b.st
	}
	st = st.clone()
	b.n++
	// a method may be declared on the value or on the pointer
	if strings.Contains(name, ".") && len(f.Params) > 0 && len(args) > 0 {
		args = append([]*Term{}, args...)
		if pt, isp := f.Params[0].Type().(*types.Pointer); isp {
			if args[0].op == OStruct {
				id := "m:recv" + strconv.Itoa(b.n)
				st.heap[id] = &Obj{kind: KCell, val: args[0], typ: pt.Elem()}
				args[0] = b.e.T.Ptr(id, pt)
			}
		} else if args[0].op == OPtr {
			args[0] = b.e.load(st, args[0], f.Params[0].Type())
		}
	}
	b.e.roots = append(b.e.roots, args...)
	rs := b.e.callBody(st, f, args, nil, "r"+strconv.Itoa(b.n), "")
	for _, r := range rs {
		if r.val != nil {
			b.e.roots = append(b.e.roots, r.val)
		}
	}
	return rs
}

// then runs the next call on every normally returning outcome.
func (b *B) then(rs []Ret, f func(r Ret) []Ret) []Ret {
	var out []Ret
	for _, r := range rs {
		if r.kind != RReturn {
			out = append(out, r)
			continue
		}
		out = append(out, f(r)...)
	}
	return out
}

// newModel runs NewModel on a schema and returns the single successful outcome.
func (b *B) newModel(f F) *Term {
	s := b.obj("Schema", f)
	b.e.building = true
	defer func() { b.e.building = false }()
	rs := b.call(nil, "", "NewModel", s)
	var good []Ret
	for _, r := range rs {
		if r.kind == RReturn && r.val.op == OTuple && len(r.val.args) == 2 && r.val.args[1].op == ONil {
			good = append(good, r)
		}
	}
	if len(good) != 1 {
		panic(budgetExceeded{fmt.Sprintf("NewModel has %d outcomes", len(good))})
	}
	b.st = good[0].st
	b.e.events = nil
	// the model itself counts as input
	m := good[0].val.args[0]
	if m.op == OPtr {
		o := b.st.heap[m.s]
		id := "m:Model"
		b.st.heap[id] = o
		n := b.e.T.Ptr(id, m.t)
		b.e.replaceEverywhere(b.st, m, n)
		b.e.roots = append(b.e.roots, n)
		return n
	}
	return m
}

// get reads a field path of a pointer or struct value in a state.
func (b *B) get(st *State, x *Term, path string) *Term {
	if path == "" {
		return x
	}
	for _, name := range strings.Split(path, ".") {
		x = b.getField(st, x, name)
		if x == nil {
			return b.e.T.Unk("no field "+name, nil)
		}
	}
	return x
}

func (b *B) getField(st *State, x *Term, name string) *Term {
	if x.op == OIface {
		x = x.args[0]
	}
	var t types.Type
	v := x
	switch x.op {
	case OPtr:
		o := b.e.obj(st, x)
		if o == nil || o.kind != KCell {
			return nil
		}
		v, t = o.val, o.typ
	case OStruct, OZero:
		t = x.t
	case OFAddr:
		t = under(x.t)
		s := t.(*types.Struct)
		i := 0
		for i < s.NumFields() && s.Field(i).Name() != x.s {
			i++
		}
		t = s.Field(i).Type()
		v = b.e.load(st, x, t)
	case OCall:
		if x.s == "&" {
			return b.getField(st, x.args[0], name)
		}
		t = x.t
	case ONil:
		return nil
	default:
		t = x.t
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
			v = b.e.load(st, x, t)
		}
	}
	if v != nil && v.op == OStruct {
		t = v.t
	}
	return b.fieldOf(v, t, name)
}

func (b *B) fieldOf(v *Term, t types.Type, name string) *Term {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return b.e.fld(v, s, i)
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if r := b.fieldOf(b.e.fld(v, s, i), s.Field(i).Type(), name); r != nil {
				return r
			}
		}
	}
	return nil
}

// items lists the elements of a known sequence; ok is false when its length is not known.
func (b *B) items(t *Term) ([]*Term, bool) {
	var out []*Term
	for _, p := range parts(t) {
		if p.op != OItem {
			return out, false
		}
		out = append(out, p.args[0])
	}
	return out, true
}

// lookupMap finds a constant (or atom) key in a map object.
func (b *B) lookupMap(st *State, m *Term, key *Term) (*Term, bool) {
	if m.op == OIface {
		m = m.args[0]
	}
	o := b.e.obj(st, m)
	if o == nil || o.kind != KMap {
		return nil, false
	}
	for _, en := range o.ents {
		if en.k == key && en.must {
			return en.v, true
		}
	}
	return nil, false
}

func (b *B) mapLen(st *State, m *Term) int {
	if m.op == ONil {
		return 0
	}
	o := b.e.obj(st, m)
	if o == nil || o.kind != KMap {
		return -1
	}
	return len(o.ents)
}

func (r Ret) where(p *Program) string {
	fn := ""
	if r.fn != nil {
		fn = r.fn.String()
	}
	return p.pos(r.pos) + " " + strings.TrimPrefix(fn, module)
}

// errOf is the error component of a result (last tuple element).
func errOf(r Ret) *Term {
	if r.val == nil {
		return nil
	}
	if r.val.op == OTuple {
		if len(r.val.args) == 0 {
			return nil
		}
		return r.val.args[len(r.val.args)-1]
	}
	return r.val
}

func valOf(r Ret) *Term {
	if r.val != nil && r.val.op == OTuple && len(r.val.args) > 0 {
		return r.val.args[0]
	}
	return r.val
}

// accepts: 1 the outcome reports no error, 0 it reports one, -1 unknown.
func (b *B) accepts(r Ret) int {
	if r.kind != RReturn {
		return 0
	}
	x := errOf(r)
	if x == nil {
		return -1
	}
	n := b.e.isNil(r.st, x)
	return n
}

var _ = token.NoPos

func fields(s string) []string { return strings.Fields(s) }

func (T *Terms) bigInt(s string) *Term {
	return T.Const(constant.MakeFromLiteral(strings.TrimPrefix(s, "-"), token.INT, 0), nil).negIf(T, strings.HasPrefix(s, "-"))
}

func (t *Term) negIf(T *Terms, neg bool) *Term {
	if !neg {
		return t
	}
	return T.Const(constant.UnaryOp(token.SUB, t.c, 0), nil)
}

func ssaFunc(f interface{}) *ssa.Function { return f.(*ssa.Function) }
