package main

// term.go: hash-consed abstract values.

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst Op = iota // constant (string, int, float, bool)
	ONil
	OZero   // zero value of struct/array type t
	OSym    // named input symbol
	OFld    // field s of struct value/pointee args[0]
	ODeref  // value pointed to by symbolic pointer args[0]
	OElem   // element args[1] of symbolic sequence args[0]
	OLook   // value at key args[1] of symbolic map args[0]
	OPtr    // address of heap object s
	OFAddr  // address of field s of the pointee of args[0]
	OEAddr  // address of element args[1] of args[0]
	OIface  // interface holding args[0] with dynamic type t
	OStruct // struct value of type t, args = fields
	OArr    // array value of type t, args = elements
	OCat    // concatenation (string or sequence)
	OAlt    // one of
	OStar   // any number of repetitions; s=="u" when the repetition order is a map's
	OItem   // one-element sequence
	OCall   // application of a known pure function s
	OBin    // binary operation s
	ONot
	OClosure
	OTuple
	OUnk  // unknown, precision was lost here
	OIdx  // induction variable of a symbolic loop: s = loop instance, phase in c
	OHas  // args[0] (map) contains key args[1]
	OIs   // interface args[0] holds dynamic type t
	OAs   // payload of interface args[0] seen as type t
	OErr  // a non-nil error; args = message
	OIter // iterator over a map; s = heap object
)

type Term struct {
	id   int
	op   Op
	s    string
	c    constant.Value
	t    types.Type
	args []*Term
	fn   *ssa.Function
	emb  bool // OFld of an embedded field
	path string
	has  uint8 // bit0: contains OUnk, bit1: contains OIdx, bit2: contains OPtr
}

type Terms struct {
	tab    map[string]*Term
	n      int
	tids   map[string]int
	tcache map[types.Type]int
	pin    func(*Term) *Term
}

func NewTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, tids: map[string]int{}, tcache: map[types.Type]int{}}
}

func (ts *Terms) typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := ts.tcache[t]; ok {
		return id
	}
	k := types.TypeString(t, nil)
	id, ok := ts.tids[k]
	if !ok {
		id = len(ts.tids) + 1
		ts.tids[k] = id
	}
	ts.tcache[t] = id
	return id
}

func (ts *Terms) mk(op Op, s string, c constant.Value, t types.Type, fn *ssa.Function, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + op))
	if s != "" {
		b.WriteString(s)
		b.WriteByte(0)
	}
	if c != nil {
		b.WriteByte('c')
		b.WriteString(strconv.Itoa(int(c.Kind())))
		b.WriteString(c.ExactString())
	}
	switch op {
	case OIface, OStruct, OZero, OArr, OIs, OAs, OFAddr:
		b.WriteByte('t')
		b.WriteString(strconv.Itoa(ts.typeID(t)))
	}
	if fn != nil {
		b.WriteByte('f')
		b.WriteString(fn.String())
		b.WriteString(strconv.Itoa(int(fn.Pos())))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if x, ok := ts.tab[k]; ok {
		return x
	}
	ts.n++
	x := &Term{id: ts.n, op: op, s: s, c: c, t: t, fn: fn, args: args}
	switch op {
	case OUnk:
		x.has = 1
	case OIdx:
		x.has = 2
	case OPtr, OIter:
		x.has = 4
	}
	for _, a := range args {
		x.has |= a.has
	}
	ts.tab[k] = x
	return x
}

func (ts *Terms) pinned(t *Term) *Term {
	if ts.pin != nil {
		if p := ts.pin(t); p != nil {
			return p
		}
	}
	return t
}

func (ts *Terms) Str(s string) *Term {
	return ts.mk(OConst, "", constant.MakeString(s), types.Typ[types.String], nil)
}
func (ts *Terms) Int(n int64) *Term {
	return ts.mk(OConst, "", constant.MakeInt64(n), types.Typ[types.Int], nil)
}
func (ts *Terms) Bool(v bool) *Term {
	return ts.mk(OConst, "", constant.MakeBool(v), types.Typ[types.Bool], nil)
}
func (ts *Terms) Const(c constant.Value, t types.Type) *Term { return ts.mk(OConst, "", c, t, nil) }
func (ts *Terms) Nil() *Term                                 { return ts.mk(ONil, "", nil, nil, nil) }
func (ts *Terms) Sym(name string, t types.Type) *Term {
	return ts.pinned(ts.mk(OSym, name, nil, t, nil))
}
func (ts *Terms) Unk(why string, t types.Type) *Term { return ts.mk(OUnk, why, nil, t, nil) }
func (ts *Terms) Err(args ...*Term) *Term            { return ts.mk(OErr, "", nil, nil, nil, args...) }
func (ts *Terms) Ptr(id string, t types.Type) *Term  { return ts.mk(OPtr, id, nil, t, nil) }
func (ts *Terms) Item(x *Term) *Term                 { return ts.mk(OItem, "", nil, nil, nil, x) }
func (ts *Terms) Call(name string, t types.Type, args ...*Term) *Term {
	return ts.pinned(ts.mk(OCall, name, nil, t, nil, args...))
}
func (ts *Terms) Iface(t types.Type, x *Term) *Term { return ts.mk(OIface, "", nil, t, nil, x) }
func (ts *Terms) Tuple(xs ...*Term) *Term           { return ts.mk(OTuple, "", nil, nil, nil, xs...) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isStr() (string, bool) {
	if t.op == OConst && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}
func (t *Term) isInt() (int64, bool) {
	if t.op == OConst && t.c.Kind() == constant.Int {
		n, ok := constant.Int64Val(t.c)
		return n, ok
	}
	return 0, false
}
func (t *Term) isBool() (bool, bool) {
	if t.op == OConst && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}
func (t *Term) unk() bool { return t.has&1 != 0 }

// Cat concatenates, flattening and merging constant strings.
func (ts *Terms) Cat(xs ...*Term) *Term {
	var out []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == OCat {
			for _, a := range x.args {
				add(a)
			}
			return
		}
		if s, ok := x.isStr(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].isStr(); ok {
					out[n-1] = ts.Str(p + s)
					return
				}
			}
		}
		if x.op == ONil {
			return // empty sequence
		}
		if n := len(out); n > 0 {
			if c := ts.fuse(out[n-1], x); c != nil {
				out[n-1] = c
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		add(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return ts.mk(OCat, "", nil, nil, nil, out...)
}

// fuse recognises upper(x[0:1])+x[1:] as cap(x).
func (ts *Terms) fuse(a, b *Term) *Term {
	if a.op == OCall && (a.s == "strings.ToUpper" || a.s == "strings.ToLower") && b.op == OCall && b.s == "slice" {
		in := a.args[0]
		if in.op == OCall && in.s == "slice" && in.args[0] == b.args[0] {
			lo, ok1 := in.args[1].isInt()
			hi, ok2 := in.args[2].isInt()
			lo2, ok3 := b.args[1].isInt()
			if ok1 && ok2 && ok3 && lo == 0 && hi == 1 && lo2 == 1 && b.args[2].op == ONil {
				if a.s == "strings.ToUpper" {
					return ts.Call("cap", a.t, b.args[0])
				}
				return ts.Call("uncap", a.t, b.args[0])
			}
		}
	}
	return nil
}

func (ts *Terms) Alt(xs ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == OAlt {
			for _, a := range x.args {
				add(a)
			}
			return
		}
		if !seen[x.id] {
			seen[x.id] = true
			out = append(out, x)
		}
	}
	for _, x := range xs {
		add(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 40 {
		return ts.Unk("alt", out[0].t)
	}
	return ts.mk(OAlt, "", nil, out[0].t, nil, out...)
}

func (ts *Terms) Star(x *Term, unordered bool) *Term {
	s := ""
	if unordered {
		s = "u"
	}
	if x.op == OStar {
		if x.s == "u" {
			return x
		}
		return ts.mk(OStar, s, nil, nil, nil, x.args[0])
	}
	return ts.mk(OStar, s, nil, nil, nil, x)
}

func (ts *Terms) Not(x *Term) *Term {
	if b, ok := x.isBool(); ok {
		return ts.Bool(!b)
	}
	if x.op == ONot {
		return x.args[0]
	}
	return ts.mk(ONot, "", nil, types.Typ[types.Bool], nil, x)
}

// Rebuild maps a term bottom-up; f is applied to leaves/rebuilt terms.
func (ts *Terms) Rewrite(t *Term, mask uint8, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	if t == nil || t.has&mask == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 {
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = ts.Rewrite(a, mask, memo, f)
			if na[i] != a {
				changed = true
			}
		}
		if changed {
			switch t.op {
			case OCat:
				r = ts.Cat(na...)
			case OAlt:
				r = ts.Alt(na...)
			default:
				r = ts.mk(t.op, t.s, t.c, t.t, t.fn, na...)
				r.emb = t.emb
			}
		}
	}
	if x := f(r); x != nil {
		r = x
	}
	memo[t] = r
	return r
}

// Path renders a term; indices of symbolic loops print as [*].
func (t *Term) Path() string {
	if t.path != "" {
		return t.path
	}
	t.path = t.render()
	return t.path
}

func (t *Term) render() string {
	switch t.op {
	case OConst:
		if t.c.Kind() == constant.String {
			return strconv.Quote(constant.StringVal(t.c))
		}
		return t.c.String()
	case ONil:
		return "nil"
	case OZero:
		return "zero"
	case OSym:
		return t.s
	case OFld:
		if t.emb {
			return t.args[0].Path()
		}
		return t.args[0].Path() + "." + t.s
	case ODeref:
		if t.t != nil {
			if _, ok := t.t.Underlying().(*types.Struct); ok {
				return t.args[0].Path()
			}
		}
		return "*" + t.args[0].Path()
	case OElem:
		i := "*"
		if n, ok := t.args[1].isInt(); ok {
			i = strconv.FormatInt(n, 10)
		}
		return t.args[0].Path() + "[" + i + "]"
	case OLook:
		return t.args[0].Path() + "[" + t.args[1].Path() + "]"
	case OPtr:
		return "&" + t.s
	case OFAddr:
		return "&" + strings.TrimPrefix(t.args[0].Path(), "&") + "." + t.s
	case OEAddr:
		return "&" + t.args[0].Path() + "[" + t.args[1].Path() + "]"
	case OIface:
		return t.args[0].Path()
	case OStruct:
		return "{" + pathList(t.args) + "}"
	case OArr:
		return "[" + pathList(t.args) + "]"
	case OCat:
		var xs []string
		for _, a := range t.args {
			xs = append(xs, a.Path())
		}
		return "(" + strings.Join(xs, "+") + ")"
	case OAlt:
		var xs []string
		for _, a := range t.args {
			xs = append(xs, a.Path())
		}
		return "(" + strings.Join(xs, "|") + ")"
	case OStar:
		return "(" + t.args[0].Path() + ")*" + t.s
	case OItem:
		return "<" + t.args[0].Path() + ">"
	case OCall:
		return t.s + "(" + pathList(t.args) + ")"
	case OBin:
		return "(" + t.args[0].Path() + t.s + t.args[1].Path() + ")"
	case ONot:
		return "!" + t.args[0].Path()
	case OClosure:
		return "func:" + t.fn.Name()
	case OTuple:
		return "(" + pathList(t.args) + ")"
	case OUnk:
		return "?" + t.s
	case OIdx:
		return "*"
	case OHas:
		return "has(" + pathList(t.args) + ")"
	case OIs:
		return "is(" + t.args[0].Path() + "," + types.TypeString(t.t, nil) + ")"
	case OAs:
		return t.args[0].Path()
	case OErr:
		return "error(" + pathList(t.args) + ")"
	case OIter:
		return "iter"
	}
	return "?op"
}

func pathList(xs []*Term) string {
	var o []string
	for _, x := range xs {
		o = append(o, x.Path())
	}
	return strings.Join(o, ",")
}

// npath is Path with every index normalised to [*] (used for matching assumptions).
func (t *Term) npath() string {
	return normIdx(t.Path())
}

func normIdx(s string) string {
	if !strings.Contains(s, "[") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
		if s[i] == '[' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j > i+1 && j < len(s) && s[j] == ']' {
				b.WriteByte('*')
				i = j - 1
			}
		}
	}
	return b.String()
}
