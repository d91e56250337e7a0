package main

// models.go: abstract transfer functions for the standard library calls the repository makes.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	st     *State
	caller *ssa.Function
	in     ssa.Instruction
	rt     types.Type
	fn     *ssa.Function
	name   string
}

type model func(e *Engine, c *callCtx, args []*Term) []Ret

var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tInt = types.Typ[types.Int]

func (c *callCtx) pos() token.Pos {
	if c.in != nil {
		return c.in.Pos()
	}
	return token.NoPos
}

func (c *callCtx) res(i int) types.Type {
	if tt, ok := c.rt.(*types.Tuple); ok {
		return tt.At(i).Type()
	}
	return c.rt
}

func one(c *callCtx, v *Term) []Ret { return []Ret{{st: c.st, val: v}} }

func altMap(e *Engine, t *Term, f func(*Term) *Term) *Term {
	if t.op == OAlt {
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = f(a)
		}
		return e.T.Alt(xs...)
	}
	return f(t)
}

// atomSamples are identifiers of every form; an atom is decided by a pattern only when they agree.
var atomSamples = []string{"a", "Z", "item", "Item", "getItem", "item2", "i2m", "x_y", "a1_B2c", "itemWithAVeryLongName0123456789"}

func isAtom(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.s, "@") }

// pure lifts a term-level function to a model.
func pure(f func(e *Engine, st *State, t types.Type, a []*Term) *Term) model {
	return func(e *Engine, c *callCtx, args []*Term) []Ret {
		for _, a := range args {
			if a.op == OUnk {
				return one(c, e.unkResult(a.s, c.rt))
			}
		}
		for i, a := range args {
			if a.op == OAlt && len(a.args) <= 12 {
				var xs []*Term
				for _, x := range a.args {
					n := append([]*Term{}, args...)
					n[i] = x
					for _, r := range pure(f)(e, c, n) {
						xs = append(xs, r.val)
					}
				}
				return one(c, e.T.Alt(xs...))
			}
		}
		rs := make([]*Term, len(args))
		for i, a := range args {
			rs[i] = e.res(c.st, a)
		}
		return one(c, f(e, c.st, c.rt, rs))
	}
}

func (e *Engine) strPred(name string, a, b *Term) *Term {
	if a.op == OAlt && len(a.args) <= 12 {
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = e.strPred(name, x, b)
		}
		return e.T.Alt(xs...)
	}
	if a.op == OUnk || b.op == OUnk {
		return e.T.Unk("strpred", tBool)
	}
	if s, ok := b.isStr(); ok {
		if s == "" {
			return e.T.Bool(true)
		}
		if t, ok := a.isStr(); ok {
			switch name {
			case "strings.HasPrefix":
				return e.T.Bool(strings.HasPrefix(t, s))
			case "strings.HasSuffix":
				return e.T.Bool(strings.HasSuffix(t, s))
			case "strings.Contains":
				return e.T.Bool(strings.Contains(t, s))
			}
		}
		if isAtom(a) {
			return e.T.Bool(false)
		}
		if a.op == OCall && (a.s == "cap" || a.s == "uncap" || a.s == "strings.ToUpper" || a.s == "strings.ToLower") && isAtom(a.args[0]) {
			return e.T.Bool(false)
		}
		if a.op == OCall && a.s == "itoa" && !strings.ContainsAny(s, "0123456789") && name != "strings.HasPrefix" {
			return e.T.Bool(false)
		}
		ps := parts(a)
		if len(ps) > 1 {
			switch name {
			case "strings.HasPrefix":
				if f, ok := ps[0].isStr(); ok {
					if len(f) >= len(s) {
						return e.T.Bool(strings.HasPrefix(f, s))
					}
					if !strings.HasPrefix(s, f) {
						return e.T.Bool(false)
					}
					if isAtom(ps[1]) {
						return e.T.Bool(false)
					}
				} else if isAtom(ps[0]) {
					return e.T.Bool(false)
				}
			case "strings.HasSuffix":
				if f, ok := ps[len(ps)-1].isStr(); ok {
					if len(f) >= len(s) {
						return e.T.Bool(strings.HasSuffix(f, s))
					}
					if !strings.HasSuffix(s, f) {
						return e.T.Bool(false)
					}
					if isAtom(ps[len(ps)-2]) {
						return e.T.Bool(false)
					}
				} else if isAtom(ps[len(ps)-1]) {
					return e.T.Bool(false)
				}
			case "strings.Contains":
				all := true
				for _, p := range ps {
					if f, ok := p.isStr(); ok {
						if strings.Contains(f, s) {
							return e.T.Bool(true)
						}
						if len(s) > 1 && strings.ContainsAny(f, s) {
							all = false
						}
					} else if !isAtom(p) {
						all = false
					}
				}
				if all {
					return e.T.Bool(false)
				}
			}
		}
	} else if name == "strings.Contains" {
		if _, _, found := e.findNamed(a, b); found >= 0 {
			return e.T.Bool(found == 1)
		}
	} else if name == "strings.HasPrefix" {
		pa, pb := parts(a), parts(b)
		if len(pb) <= len(pa) {
			ok := true
			for i := range pb {
				ok = ok && pa[i] == pb[i] && !pb[i].unk()
			}
			if ok {
				return e.T.Bool(true)
			}
		}
		if isAtom(a) && isAtom(b) {
			return e.T.Bool(a == b)
		}
		ca, cb := a, b
		if ca.op == OCall && ca.s == "cap" {
			ca = ca.args[0]
		}
		if isAtom(ca) && isAtom(cb) && a != b {
			return e.T.Bool(false)
		}
	}
	return e.T.Call(name, tBool, a, b)
}

// findNamed finds a text with names in it, as "{"+name+"}": how many parts of s precede it and how many bytes of the
// next one; found is 0 if it does not occur, -1 if that is not determined.
func (e *Engine) findNamed(s, o *Term) (part, off, found int) {
	type unit struct{ i, k int } // the part's position, the byte's position in it
	spell := func(t *Term) (string, []unit) {
		var b strings.Builder
		at := []unit{}
		for i, p := range parts(t) {
			x, ok := p.isStr()
			if !ok {
				if !isAtom(p) {
					return "", nil
				}
				x = "\x00" + p.s + "\x00" // names occur only as wholes
			}
			b.WriteString(x)
			for k := range []byte(x) {
				at = append(at, unit{i, k})
			}
		}
		return b.String(), at
	}
	hs, hat := spell(s)
	os, oat := spell(o)
	if hat == nil || oat == nil || os == "" {
		return 0, 0, -1
	}
	i := strings.Index(hs, os)
	if i < 0 {
		return 0, 0, 0
	}
	return hat[i].i, hat[i].k, 1
}

// replaceNamed replaces a text with names in it, as "{"+name+"}"; nil when it is not determined where that occurs.
func (e *Engine) replaceNamed(s, o, n *Term, k int) *Term {
	type unit struct { // a byte of a text, of a part of it
		p *Term
		i int // the part's position
	}
	spell := func(t *Term) (string, []unit) {
		var b strings.Builder
		var at []unit
		for i, p := range parts(t) {
			x, ok := renderTerm(p)
			if !ok {
				return "", nil
			}
			b.WriteString(x)
			for range []byte(x) {
				at = append(at, unit{p, i})
			}
		}
		return b.String(), at
	}
	hs, hat := spell(s)
	os, oat := spell(o)
	if len(hat) == 0 || len(oat) == 0 {
		return nil
	}
	whole := func(i int) bool { // no name is cut here
		return i == 0 || i == len(hs) || hat[i].p.isConst() || hat[i-1].i != hat[i].i
	}
	var out []*Term
	emit := func(i, j int) {
		for i < j {
			m := i + 1
			for m < j && hat[m].i == hat[i].i {
				m++
			}
			if hat[i].p.isConst() {
				out = append(out, e.T.Str(hs[i:m]))
			} else {
				out = append(out, hat[i].p)
			}
			i = m
		}
	}
	pos := 0
	for c := 0; c != k; c++ {
		i := strings.Index(hs[pos:], os)
		if i < 0 {
			break
		}
		i += pos
		j := i + len(os)
		if !whole(i) || !whole(j) {
			return nil
		}
		for x := i; x < j; x++ {
			if h, u := hat[x].p, oat[x-i].p; h.isConst() != u.isConst() || !h.isConst() && h != u {
				return nil
			}
		}
		emit(pos, i)
		out = append(out, n)
		pos = j
	}
	emit(pos, len(hs))
	return e.cat(out...)
}

func (e *Engine) strIndex(name string, t types.Type, a, b *Term) *Term {
	s, ok := b.isStr()
	if !ok {
		if name == "index" {
			if part, k, found := e.findNamed(a, b); found == 1 {
				off := e.T.Int(int64(k))
				for _, p := range parts(a)[:part] {
					off = e.arith("+", off, e.length(nil, p), t)
				}
				return off
			} else if found == 0 {
				return e.T.Int(-1)
			}
		}
		return e.T.Call(name, t, a, b)
	}
	if x, ok := a.isStr(); ok {
		if name == "index" {
			return e.T.Int(int64(strings.Index(x, s)))
		}
		return e.T.Int(int64(strings.LastIndex(x, s)))
	}
	if isAtom(a) {
		return e.T.Int(-1)
	}
	ps := parts(a)
	if name == "index" && len(ps) > 0 {
		off := e.T.Int(0)
		for _, p := range ps {
			if f, ok := p.isStr(); ok {
				if i := strings.Index(f, s); i >= 0 {
					return e.arith("+", off, e.T.Int(int64(i)), t)
				}
				if len(s) > 1 {
					off = nil
					break
				}
			} else if !isAtom(p) {
				off = nil
				break
			}
			off = e.arith("+", off, e.length(nil, p), t)
		}
		if off != nil {
			return e.T.Int(-1)
		}
	}
	if name == "lastindex" && len(ps) > 0 {
		none := len(s) == 1
		for k := len(ps) - 1; k >= 0; k-- {
			f, ok := ps[k].isStr()
			if !ok {
				if isAtom(ps[k]) {
					continue
				}
				none = false
				break
			}
			if i := strings.LastIndex(f, s); i >= 0 {
				off := e.T.Int(int64(i))
				for _, p := range ps[:k] {
					off = e.arith("+", off, e.length(nil, p), t)
				}
				return off
			}
			if len(s) > 1 {
				break
			}
		}
		if none {
			return e.T.Int(-1)
		}
	}
	return e.T.Call(name, t, a, b)
}

func (e *Engine) split2(t types.Type, a, b *Term) *Term {
	sep, ok := b.isStr()
	if !ok || sep == "" {
		return e.T.Call("split", t, a, b)
	}
	var cur []*Term
	var out []*Term
	flush := func() {
		out = append(out, e.T.Item(e.cat(cur...)))
		cur = nil
	}
	for _, p := range parts(a) {
		s, ok := p.isStr()
		if !ok {
			if !isAtom(p) && !(p.op == OCall && (p.s == "cap" || p.s == "uncap" || p.s == "itoa") && len(p.args) == 1 && (isAtom(p.args[0]) || p.s == "itoa")) {
				return e.T.Call("split", t, a, b)
			}
			cur = append(cur, p)
			continue
		}
		fs := strings.Split(s, sep)
		for i, f := range fs {
			if i > 0 {
				flush()
			}
			cur = append(cur, e.T.Str(f))
		}
	}
	flush()
	return e.catParts(out)
}

func (e *Engine) joinStr(seq, sep *Term, t types.Type) *Term {
	var lift func(p *Term, f func(x *Term) *Term) *Term
	lift = func(p *Term, f func(x *Term) *Term) *Term {
		// apply f to each element of a sequence part and concatenate
		switch p.op {
		case OItem:
			return f(p.args[0])
		case OStar:
			return e.T.Star(lift(p.args[0], f), p.s == "u")
		case OAlt:
			xs := make([]*Term, len(p.args))
			for i, a := range p.args {
				xs[i] = lift(a, f)
			}
			return e.T.Alt(xs...)
		case OCat:
			xs := make([]*Term, len(p.args))
			for i, a := range p.args {
				xs[i] = lift(a, f)
			}
			return e.cat(xs...)
		case ONil:
			return e.T.Str("")
		case OUnk:
			return e.T.Unk(p.s, t)
		}
		return e.T.Star(f(e.T.pinned(e.T.mk(OElem, "", nil, tString, nil, p, e.idx("join:"+strconv.Itoa(p.id), "*", 0)))), false)
	}
	ps := parts(seq)
	if len(ps) == 0 {
		return e.T.Str("")
	}
	if seq.op == OCall && seq.s == "sorted" {
		ps = parts(seq.args[0])
	}
	if ps[0].op == OItem {
		xs := []*Term{ps[0].args[0]}
		for _, p := range ps[1:] {
			xs = append(xs, lift(p, func(x *Term) *Term { return e.cat(sep, x) }))
		}
		return e.cat(xs...)
	}
	if isEmptySeq(sep) {
		var xs []*Term
		for _, p := range ps {
			xs = append(xs, lift(p, func(x *Term) *Term { return x }))
		}
		return e.cat(xs...)
	}
	id := func(x *Term) *Term { return x }
	with := func(x *Term) *Term { return e.cat(sep, x) }
	if len(ps) == 1 {
		p := ps[0]
		switch p.op {
		case OStar:
			el := p.args[0]
			if el.op == OItem || (el.op == OAlt && allItems(el)) {
				return e.T.Alt(e.T.Str(""), e.cat(lift(el, id), e.T.Star(lift(el, with), p.s == "u")))
			}
			return e.T.Alt(e.T.Str(""), e.T.Unk("join", t))
		case OAlt:
			xs := make([]*Term, len(p.args))
			for i, a := range p.args {
				xs[i] = e.joinStr(a, sep, t)
			}
			return e.T.Alt(xs...)
		case OUnk:
			return e.T.Unk(p.s, t)
		}
		return e.T.Call("join", t, p, sep)
	}
	// leading repetition followed by known items
	if ps[0].op == OStar && ps[1].op == OItem {
		return e.cat(lift(ps[0], func(x *Term) *Term { return e.cat(x, sep) }), e.joinStr(e.catParts(ps[1:]), sep, t))
	}
	return e.T.Call("join", t, seq, sep)
}

func allItems(t *Term) bool {
	for _, a := range t.args {
		if a.op != OItem {
			return false
		}
	}
	return true
}

// snapshot freezes the heap content reachable from a value into the term.
// scalarJSON is the JSON text of a known text, truth value or nil.
func scalarJSON(t *Term, esc bool) (string, bool) {
	for t.op == OIface || t.op == OCall && t.s == "&" {
		t = t.args[0]
	}
	var v interface{}
	if s, ok := t.isStr(); ok {
		v = s
	} else if x, ok := t.isBool(); ok {
		v = x
	} else if t.op != ONil {
		return "", false
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(esc)
	if enc.Encode(v) != nil {
		return "", false
	}
	return strings.TrimSuffix(buf.String(), "\n"), true
}

func (e *Engine) snapshot(st *State, t *Term, depth int) *Term {
	if t == nil || depth <= 0 {
		return t
	}
	switch t.op {
	case OPtr:
		o := e.obj(st, t)
		if o == nil {
			return t
		}
		if o.kind == KMap {
			var xs []*Term
			for _, en := range o.ents {
				n := "entry"
				if !en.must {
					n = "entry?"
				}
				xs = append(xs, e.T.mk(OCall, n, nil, nil, nil, e.snapshot(st, en.k, depth-1), e.snapshot(st, en.v, depth-1)))
			}
			if o.val != nil {
				xs = append(xs, o.val)
			}
			return e.T.mk(OCall, "map", nil, nil, nil, xs...)
		}
		if o.val == nil {
			return t
		}
		return e.T.mk(OCall, "&", nil, t.t, nil, e.snapshot(st, o.val, depth-1))
	case OStruct, OIface, OArr, OItem, OCat, OAlt, OStar:
		xs := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			xs[i] = e.snapshot(st, a, depth-1)
			ch = ch || xs[i] != a
		}
		if !ch {
			return t
		}
		switch t.op {
		case OCat:
			return e.T.Cat(xs...)
		case OAlt:
			return e.T.Alt(xs...)
		}
		return e.T.mk(t.op, t.s, t.c, t.t, t.fn, xs...)
	}
	if o := st.heap[inKey(t)]; o != nil {
		if o.val != nil && o.kind == KCell {
			return e.T.mk(OCall, "&", nil, t.t, nil, e.snapshot(st, o.val, depth-1))
		}
	}
	return t
}

// ---------------------------------------------------------------- text sinks

func (e *Engine) text(st *State, p *Term) *Term {
	v := e.load(st, p, nil)
	if v.op == OCall && v.s == "text" {
		return v.args[0]
	}
	if v.op == OZero {
		return e.T.Str("")
	}
	if v.op == OFld || v.op == ODeref {
		return e.T.Call("contents", tString, v)
	}
	if v.op == OAlt {
		xs := make([]*Term, len(v.args))
		for i, a := range v.args {
			switch {
			case a.op == OZero:
				xs[i] = e.T.Str("")
			case a.op == OCall && a.s == "text":
				xs[i] = a.args[0]
			default:
				xs[i] = e.T.Unk("text", tString)
			}
		}
		return e.T.Alt(xs...)
	}
	return e.T.Unk("text", tString)
}

func (e *Engine) setText(st *State, p, s *Term, c *callCtx) {
	e.store(st, p, e.T.mk(OCall, "text", nil, nil, nil, s), nil, c.pos(), c.caller)
}

func (e *Engine) world(st *State, rec *Term) {
	o := st.heap["w:out"]
	var v *Term
	if o == nil {
		v = e.T.mk(OCat, "", nil, nil, nil)
	} else {
		v = o.val
	}
	st.heap["w:out"] = &Obj{kind: KCell, val: e.catParts([]*Term{v, e.T.Item(rec)}), typ: types.NewSlice(types.Typ[types.UnsafePointer])}
}

// writeTo sends text to an io.Writer value; returns the error term (nil when none).
func (e *Engine) writeTo(st *State, w, s *Term, c *callCtx) []Ret {
	x := w
	if x.op == OIface {
		x = x.args[0]
	}
	nilErr := e.T.Nil()
	switch {
	case w.op == OIface && (strings.HasSuffix(types.TypeString(w.t, nil), "bytes.Buffer") || strings.HasSuffix(types.TypeString(w.t, nil), "strings.Builder")):
		e.setText(st, x, e.cat(e.text(st, x), s), c)
		return []Ret{{st: st, val: nilErr}}
	case w.op == OIface && strings.HasSuffix(types.TypeString(w.t, nil), "bufio.Writer"):
		e.bufWrite(st, x, s, c)
		return []Ret{{st: st, val: nilErr}}
	case x.op == OCall && x.s == "file":
		path := x.args[0]
		return e.mayFail(st, "write", []*Term{path}, c, func(st *State) *Term {
			e.world(st, e.T.mk(OCall, "write", nil, nil, nil, path, s))
			return nilErr
		}, func(er *Term) *Term { return er })
	case x.op == OSym && strings.HasPrefix(x.s, "std"):
		e.world(st, e.T.mk(OCall, x.s, nil, nil, nil, s))
		return []Ret{{st: st, val: nilErr}}
	}
	e.world(st, e.T.mk(OCall, "unknownwriter", nil, nil, nil, s))
	return []Ret{{st: st, val: e.T.Unk("write", nil)}}
}

func (e *Engine) bufWrite(st *State, p, s *Term, c *callCtx) {
	v := e.load(st, p, nil)
	if v.op == OCall && v.s == "bufw" {
		e.store(st, p, e.T.mk(OCall, "bufw", nil, nil, nil, v.args[0], e.cat(v.args[1], s)), nil, c.pos(), c.caller)
		return
	}
	if v.op == OAlt {
		var xs []*Term
		for _, a := range v.args {
			if a.op == OCall && a.s == "bufw" {
				xs = append(xs, e.T.mk(OCall, "bufw", nil, nil, nil, a.args[0], e.cat(a.args[1], s)))
			} else {
				xs = append(xs, a)
			}
		}
		e.store(st, p, e.T.Alt(xs...), nil, c.pos(), c.caller)
		return
	}
	if isSymbolic(p) || v.op == ODeref {
		o := e.T.mk(OCall, "bufw", nil, nil, nil, e.T.Sym("writer:"+p.Path(), nil), s)
		e.store(st, p, o, nil, c.pos(), c.caller)
	}
}

// mayFail splits on whether an operation fails, as the scenario (or nothing) dictates.
func (e *Engine) mayFail(st *State, op string, key []*Term, c *callCtx, ok func(*State) *Term, bad func(*Term) *Term) []Ret {
	pred := e.T.Call("fails:"+op, tBool, key...)
	var out []Ret
	f, g := e.branch(st, pred, c.caller, c.pos())
	for _, s := range g {
		out = append(out, Ret{st: s, val: ok(s)})
	}
	for _, s := range f {
		out = append(out, Ret{st: s, val: bad(e.T.Err(e.T.mk(OCall, "errmsg:"+op, nil, tString, nil, key...)))})
	}
	return out
}

// ---------------------------------------------------------------- formatting

type piece struct {
	st *State
	v  *Term
}

// bigFormatted is the number when a value is formatted by math/big's Format method.
func (e *Engine) bigFormatted(st *State, t types.Type, x *Term) *Term {
	pt, ok := t.(*types.Pointer)
	if !ok || e.isNil(st, x) != 0 {
		return nil
	}
	sel := e.P.prog.MethodSets.MethodSet(t).Lookup(nil, "Format")
	if sel == nil || sel.Obj().Pkg() == nil || sel.Obj().Pkg().Path() != "math/big" {
		return nil
	}
	s, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && strings.HasSuffix(types.TypeString(s.Field(i).Type(), nil), "big.Float") {
			v := e.load(st, e.faddr(x, pt.Elem(), i), s.Field(i).Type())
			if v.op == OCall && v.s == "big" {
				return v.args[0]
			}
		}
	}
	return nil
}

func (e *Engine) fmtValue(st *State, verb byte, flags string, arg *Term, c *callCtx) []piece {
	if arg.op == OAlt {
		var out []piece
		for i, a := range arg.args {
			s := st
			if i < len(arg.args)-1 {
				s = st.clone()
			}
			e.replaceEverywhere(s, arg, a)
			out = append(out, e.fmtValue(s, verb, flags, a, c)...)
		}
		return out
	}
	p := func(v *Term) []piece { return []piece{{st, v}} }
	if arg.op == OUnk {
		return p(e.T.Unk(arg.s, tString))
	}
	if arg.op == ONil {
		return p(e.T.Str("<nil>"))
	}
	if arg.op == OErr {
		if len(arg.args) > 0 {
			return p(arg.args[0])
		}
		return p(e.T.Call("Error", tString, arg))
	}
	var t types.Type
	x := arg
	if arg.op == OIface {
		t, x = arg.t, arg.args[0]
	}
	x = e.res(st, x)
	if n := e.bigFormatted(st, t, x); n != nil && flags == "" && (verb == 'v' || verb == 'g') {
		// (*big.Float).Format
		return p(e.T.Call("big.Text", tString, n, e.T.Int('g'), e.T.Int(-1)))
	}
	if t != nil && (verb == 'v' || verb == 's' || verb == 'q') {
		for _, m := range []string{"Error", "String"} {
			ms := e.P.prog.MethodSets.MethodSet(t)
			sel := ms.Lookup(nil, m)
			if sel == nil {
				continue
			}
			f := e.P.prog.MethodValue(sel)
			if f == nil {
				continue
			}
			sig := f.Signature
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || types.TypeString(sig.Results().At(0).Type(), nil) != "string" {
				continue
			}
			if _, isp := t.(*types.Pointer); isp && e.isNil(st, x) != 0 {
				if e.isNil(st, x) == 1 {
					return p(e.T.Str("<nil>"))
				}
				return p(e.T.Call("fmtv", tString, x))
			}
			var out []piece
			for _, r := range e.callFn(st, c.caller, c.in, f, []*Term{x}, nil, tString) {
				if r.kind == RReturn {
					v := r.val
					if verb == 'q' {
						v = e.quote(v)
					}
					out = append(out, piece{r.st, v})
				}
			}
			return out
		}
	}
	if t == nil {
		t = x.t
	}
	b, _ := under(t).(*types.Basic)
	switch verb {
	case 's', 'v':
		if b != nil && b.Info()&types.IsString != 0 || isByteSlice(t) && verb == 's' {
			if flags != "" {
				return p(e.T.Call("pad:"+flags, tString, x))
			}
			return p(x)
		}
		if b != nil && verb == 'v' {
			if b.Info()&types.IsInteger != 0 {
				return p(e.itoa(x))
			}
			if b.Info()&types.IsBoolean != 0 {
				return p(e.btoa(st, x))
			}
			if b.Info()&types.IsFloat != 0 {
				return p(e.ftoa("", 'v', x, b))
			}
		}
	case 'd':
		if flags != "" && flags != "-" {
			if n, ok := x.isInt(); ok {
				return p(e.T.Str(padInt(n, flags)))
			}
			return p(e.T.Call("pad:"+flags, tString, x))
		}
		return p(e.itoa(x))
	case 'q':
		if b != nil && b.Info()&types.IsString != 0 || isByteSlice(t) {
			return p(e.quote(x))
		}
		if sl, ok := under(t).(*types.Slice); ok && isSeqType(sl.Elem()) {
			return p(e.T.Call("quotelist", tString, x))
		}
	case 'T':
		return p(e.T.Str(types.TypeString(t, nil)))
	case 't':
		return p(e.btoa(st, x))
	case 'c':
		if n, ok := x.isInt(); ok {
			return p(e.T.Str(string(rune(n))))
		}
		return p(e.T.Call("runestr", tString, x))
	case 'f', 'g', 'e', 'x', 'X', 'G':
		return p(e.ftoa(flags, verb, x, b))
	}
	return p(e.T.Call("fmtv", tString, e.snapshot(st, x, 5)))
}

// ftoa is the text of a floating point number.
func (e *Engine) ftoa(flags string, verb byte, x *Term, b *types.Basic) *Term {
	if x.op == OConst && isNum(x.c) && b != nil && b.Info()&types.IsFloat != 0 {
		f, _ := constant.Float64Val(constant.ToFloat(x.c))
		if b.Kind() == types.Float32 {
			return e.T.Str(fmt.Sprintf("%"+flags+string(verb), float32(f)))
		}
		return e.T.Str(fmt.Sprintf("%"+flags+string(verb), f))
	}
	if verb == 'v' {
		verb = 'g'
	}
	return e.T.Call("ftoa:"+flags+string(verb), tString, x)
}

func padInt(n int64, flags string) string {
	s := strconv.FormatInt(n, 10)
	w, err := strconv.Atoi(flags)
	if err != nil {
		return s
	}
	for len(s) < w {
		if flags[0] == '0' {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return s
}

func (e *Engine) itoa(x *Term) *Term {
	if n, ok := x.isInt(); ok {
		return e.T.Str(strconv.FormatInt(n, 10))
	}
	if x.op == OConst && isNum(x.c) {
		return e.T.Str(x.c.ExactString())
	}
	return e.T.Call("itoa", tString, x)
}

func (e *Engine) btoa(st *State, x *Term) *Term {
	switch e.decide(st, x) {
	case 1:
		return e.T.Str("true")
	case 0:
		return e.T.Str("false")
	}
	return e.T.Call("btoa", tString, x)
}

func (e *Engine) quote(x *Term) *Term {
	return altMap(e, x, func(x *Term) *Term {
		if s, ok := x.isStr(); ok {
			return e.T.Str(strconv.Quote(s))
		}
		if x.op == OUnk {
			return x
		}
		// identifiers need no escaping
		ok := true
		for _, p := range parts(x) {
			if s, c := p.isStr(); c {
				if q := strconv.Quote(s); q[1:len(q)-1] != s {
					ok = false
				}
			} else if !isAtom(p) && !(p.op == OCall && (p.s == "cap" || p.s == "uncap") && isAtom(p.args[0])) {
				ok = false
			}
		}
		if ok {
			return e.cat(e.T.Str(`"`), x, e.T.Str(`"`))
		}
		return e.T.Call("quote", tString, x)
	})
}

func (e *Engine) sprintf(st *State, f *Term, args *Term, c *callCtx) []piece {
	format, ok := f.isStr()
	if !ok {
		if f.op == OAlt {
			var out []piece
			for i, a := range f.args {
				s := st
				if i < len(f.args)-1 {
					s = st.clone()
				}
				out = append(out, e.sprintf(s, a, args, c)...)
			}
			return out
		}
		// a symbolic format: its % directives are unknown
		return []piece{{st, e.T.Call("sprintf", tString, f, e.snapshot(st, args, 4))}}
	}
	var list []*Term
	for _, p := range parts(args) {
		if p.op != OItem {
			return []piece{{st, e.T.Call("sprintf", tString, f, args)}}
		}
		list = append(list, p.args[0])
	}
	cur := []piece{{st, e.T.Str("")}}
	add := func(v *Term) {
		for i := range cur {
			cur[i].v = e.cat(cur[i].v, v)
		}
	}
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			add(e.T.Str(format[i:j]))
			i = j - 1
			continue
		}
		i++
		j := i
		for j < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			add(e.T.Str("%!(NOVERB)"))
			break
		}
		flags, verb := format[i:j], format[j]
		i = j
		if verb == '%' {
			add(e.T.Str("%"))
			continue
		}
		if n >= len(list) {
			add(e.T.Str("%!" + string(verb) + "(MISSING)"))
			continue
		}
		a := list[n]
		n++
		var next []piece
		for _, q := range cur {
			for _, r := range e.fmtValue(q.st, verb, flags, a, c) {
				next = append(next, piece{r.st, e.cat(q.v, r.v)})
			}
		}
		cur = next
	}
	if n < len(list) {
		add(e.T.Str("%!(EXTRA)"))
	}
	return cur
}

func (e *Engine) sprint(st *State, args *Term, c *callCtx, ln bool) []piece {
	cur := []piece{{st, e.T.Str("")}}
	for i, p := range parts(args) {
		if p.op != OItem {
			return []piece{{st, e.T.Call("sprint", tString, args)}}
		}
		var next []piece
		for _, q := range cur {
			for _, r := range e.fmtValue(q.st, 'v', "", p.args[0], c) {
				v := q.v
				if ln && i > 0 {
					v = e.cat(v, e.T.Str(" "))
				}
				next = append(next, piece{r.st, e.cat(v, r.v)})
			}
		}
		cur = next
	}
	if ln {
		for i := range cur {
			cur[i].v = e.cat(cur[i].v, e.T.Str("\n"))
		}
	}
	return cur
}

func rets(ps []piece) []Ret {
	var out []Ret
	for _, p := range ps {
		out = append(out, Ret{st: p.st, val: p.v})
	}
	return out
}

// ---------------------------------------------------------------- numbers

func (e *Engine) bigVal(st *State, p *Term) *Term {
	v := e.load(st, p, nil)
	if v.op == OCall && v.s == "big" {
		return v.args[0]
	}
	if v.op == OZero {
		return e.T.Int(0)
	}
	if v.op == OUnk {
		return v
	}
	return e.T.Call("num", types.Typ[types.Float64], v)
}

func (e *Engine) newObj(c *callCtx, tag string, v *Term, t types.Type) *Term {
	n := 0
	if c.in != nil && c.caller != nil {
		n = e.cfgOf(c.caller).number[c.in]
	}
	id := c.st.env.ctx + "." + strconv.Itoa(n) + tag
	for c.st.heap[id] != nil {
		id += "'"
	}
	c.st.heap[id] = &Obj{kind: KCell, val: v, typ: t}
	return e.T.Ptr(id, nil)
}

func numPrec(t *Term) *Term { return t }

// unmarshal models a decoder filling *p from data.
// misfit tells that a document cannot be decoded into a type.
var misfit = &Term{}

func unmarshal(kind string) model {
	return func(e *Engine, c *callCtx, a []*Term) []Ret {
		data, target := a[0], a[1]
		if target.op != OIface {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		et := pt.Elem()
		return e.mayFail(c.st, kind, []*Term{data}, c, func(st *State) *Term {
			if e.sc != nil && e.sc.decoded != nil {
				if v := e.sc.decoded(e, st, kind, et); v != nil {
					if v == misfit {
						return e.T.Err(e.T.Str("the document is of another kind"))
					}
					e.store(st, target.args[0], v, et, c.pos(), c.caller)
					return e.T.Nil()
				}
			}
			v := e.T.pinned(e.T.mk(OSym, kind+"("+data.Path()+")", nil, et, nil))
			if st2, ok := under(et).(*types.Struct); ok {
				fs := make([]*Term, st2.NumFields())
				for i := range fs {
					fs[i] = e.fld(v, st2, i)
				}
				v = e.T.mk(OStruct, "", nil, et, nil, fs...)
			}
			e.store(st, target.args[0], v, et, c.pos(), c.caller)
			return e.T.Nil()
		}, func(er *Term) *Term { return er })
	}
}

// trimSpace is the text without blanks at its ends, if both ends are known.
func (e *Engine) trimSpace(x *Term) *Term {
	if x.op == OCall && x.s == "strings.TrimSpace" {
		return x
	}
	ps := append([]*Term{}, parts(x)...)
	solid := func(t *Term) bool {
		return isAtom(t) || t.op == OCall && (t.s == "itoa" || t.s == "quote")
	}
	for len(ps) > 0 {
		s, ok := ps[0].isStr()
		if !ok {
			break
		}
		s = strings.TrimLeftFunc(s, unicode.IsSpace)
		if s != "" {
			ps[0] = e.T.Str(s)
			break
		}
		ps = ps[1:]
	}
	if len(ps) == 0 {
		return e.T.Str("")
	}
	if _, ok := ps[0].isStr(); !ok && !solid(ps[0]) {
		return nil
	}
	for {
		s, ok := ps[len(ps)-1].isStr()
		if !ok {
			break
		}
		s = strings.TrimRightFunc(s, unicode.IsSpace)
		if s != "" {
			ps[len(ps)-1] = e.T.Str(s)
			break
		}
		ps = ps[:len(ps)-1]
	}
	if _, ok := ps[len(ps)-1].isStr(); !ok && !solid(ps[len(ps)-1]) {
		return nil
	}
	return e.cat(ps...)
}

func mapStr(name string, f func(string) string) model {
	return pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			return e.T.Str(f(s))
		}
		if name == "strings.TrimSpace" {
			if t := e.trimSpace(a[0]); t != nil {
				return t
			}
		}
		if name == "strings.ToUpper" || name == "strings.ToLower" {
			if a[0].op == OCat {
				xs := make([]*Term, len(a[0].args))
				for i, x := range a[0].args {
					if s, ok := x.isStr(); ok {
						xs[i] = e.T.Str(f(s))
					} else {
						xs[i] = e.T.Call(name, t, x)
					}
				}
				return e.cat(xs...)
			}
			if a[0].op == OCall && (a[0].s == "strings.ToUpper" || a[0].s == "strings.ToLower" || a[0].s == "cap" || a[0].s == "uncap") {
				return e.T.Call(name, t, a[0].args[0])
			}
			if a[0].op == OCall && a[0].s == "itoa" {
				return a[0]
			}
		}
		return e.T.Call(name, t, a...)
	})
}

func models() map[string]model {
	m := map[string]model{}
	for _, n := range []string{"strings.HasPrefix", "strings.HasSuffix", "strings.Contains"} {
		n := n
		m[n] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.strPred(n, a[0], a[1]) })
	}
	m["strings.Index"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.strIndex("index", t, a[0], a[1]) })
	m["strings.LastIndex"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		return e.strIndex("lastindex", t, a[0], a[1])
	})
	for n, f := range map[string]func(string, string) int{"strings.IndexAny": strings.IndexAny, "strings.LastIndexAny": strings.LastIndexAny} {
		n, f := n, f
		m[n] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
			cs, ok := a[1].isStr()
			if !ok || strings.ContainsFunc(cs, func(r rune) bool { return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) }) {
				return e.T.Call(n, t, a...)
			}
			ps := parts(a[0])
			for k := range ps {
				i := k
				if n == "strings.LastIndexAny" {
					i = len(ps) - 1 - k
				}
				s, ok := ps[i].isStr()
				if !ok {
					if isAtom(ps[i]) {
						continue
					}
					return e.T.Call(n, t, a...)
				}
				if j := f(s, cs); j >= 0 {
					off := e.T.Int(int64(j))
					for _, p := range ps[:i] {
						off = e.arith("+", off, e.length(nil, p), t)
					}
					return off
				}
			}
			return e.T.Int(-1)
		})
	}
	m["strings.IndexByte"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if n, ok := a[1].isInt(); ok {
			return e.strIndex("index", t, a[0], e.T.Str(string(rune(n))))
		}
		return e.T.Call("index", t, a...)
	})
	m["strings.IndexRune"] = m["strings.IndexByte"]
	m["strings.LastIndexByte"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if n, ok := a[1].isInt(); ok {
			return e.strIndex("lastindex", t, a[0], e.T.Str(string(rune(n))))
		}
		return e.T.Call("lastindex", t, a...)
	})
	m["strings.ContainsRune"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if n, ok := a[1].isInt(); ok {
			return e.strPred("strings.Contains", a[0], e.T.Str(string(rune(n))))
		}
		return e.T.Call("containsrune", t, a...)
	})
	m["strings.EqualFold"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			if u, ok := a[1].isStr(); ok {
				return e.T.Bool(strings.EqualFold(s, u))
			}
		}
		if isAtom(a[0]) && (a[1].isConst() || isAtom(a[1])) || isAtom(a[1]) && a[0].isConst() {
			return e.T.Bool(a[0] == a[1])
		}
		return e.T.Call("strings.EqualFold", t, a...)
	})
	m["strings.ToUpper"] = mapStr("strings.ToUpper", strings.ToUpper)
	m["strings.ToLower"] = mapStr("strings.ToLower", strings.ToLower)
	m["strings.TrimSpace"] = mapStr("strings.TrimSpace", strings.TrimSpace)
	m["strings.Title"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			return e.T.Str(strings.Title(s))
		}
		if isAtom(a[0]) {
			return e.T.Call("cap", t, a[0])
		}
		return e.T.Call("strings.Title", t, a...)
	})
	m["strings.Split"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.split2(t, a[0], a[1]) })
	m["strings.SplitN"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			if u, ok := a[1].isStr(); ok {
				if n, ok := a[2].isInt(); ok {
					var xs []*Term
					for _, p := range strings.SplitN(s, u, int(n)) {
						xs = append(xs, e.T.Item(e.T.Str(p)))
					}
					return e.catParts(xs)
				}
			}
		}
		return e.T.Call("splitn", t, a...)
	})
	m["strings.Fields"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			var xs []*Term
			for _, p := range strings.Fields(s) {
				xs = append(xs, e.T.Item(e.T.Str(p)))
			}
			return e.catParts(xs)
		}
		return e.T.Call("fields", t, a...)
	})
	m["strings.Cut"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		has := e.strPred("strings.Contains", a[0], a[1])
		t, f := e.branch(c.st, has, c.caller, c.pos())
		var out []Ret
		for _, s := range t {
			var b, af *Term
			if i, ok := e.strIndex("index", tInt, a[0], a[1]).isInt(); ok {
				l, _ := e.length(s, a[1]).isInt()
				b, _ = e.slice(s, a[0], e.T.Int(0), e.T.Int(i), tString, c.caller, c.pos())
				af, _ = e.slice(s, a[0], e.T.Int(i+l), e.T.Nil(), tString, c.caller, c.pos())
			}
			if b == nil || af == nil {
				if xs := parts(e.split2(tString, a[0], a[1])); len(xs) == 2 && xs[0].op == OItem {
					b, af = xs[0].args[0], xs[1].args[0]
				} else {
					b, af = e.T.Call("before", tString, a[0], a[1]), e.T.Call("after", tString, a[0], a[1])
				}
			}
			out = append(out, Ret{st: s, val: e.T.Tuple(b, af, e.T.Bool(true))})
		}
		for _, s := range f {
			out = append(out, Ret{st: s, val: e.T.Tuple(a[0], e.T.Str(""), e.T.Bool(false))})
		}
		return out
	}
	m["strings.Join"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.joinStr(a[0], a[1], t) })
	m["strings.Repeat"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			if n, ok := a[1].isInt(); ok && n >= 0 && n < 1000 {
				return e.T.Str(strings.Repeat(s, int(n)))
			}
		}
		return e.T.Call("strings.Repeat", t, a...)
	})
	replace := func(e *Engine, t types.Type, s, o, n *Term, k int) *Term {
		os, ok1 := o.isStr()
		ns, ok2 := n.isStr()
		if ok1 && os != "" {
			if x, ok := s.isStr(); ok && ok2 {
				return e.T.Str(strings.Replace(x, os, ns, k))
			}
			if isAtom(s) {
				return s
			}
			if ps := parts(s); len(ps) > 1 && k < 0 {
				ok := true
				for _, p := range ps {
					if _, c := p.isStr(); !c && !isAtom(p) {
						ok = false
					}
				}
				if ok {
					var xs []*Term
					for _, p := range ps {
						if f, c := p.isStr(); c {
							fs := strings.Split(f, os)
							for i, q := range fs {
								if i > 0 {
									xs = append(xs, n)
								}
								xs = append(xs, e.T.Str(q))
							}
						} else {
							xs = append(xs, p)
						}
					}
					return e.cat(xs...)
				}
			}
		}
		if s == o {
			return n
		}
		if r := e.replaceNamed(s, o, n, k); r != nil {
			return r
		}
		return e.T.Call("replace", t, s, o, n, e.T.Int(int64(k)))
	}
	m["strings.Replace"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		k, _ := a[3].isInt()
		return replace(e, t, a[0], a[1], a[2], int(k))
	})
	m["strings.NewReplacer"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		return e.T.Call("replacer", t, a[0])
	})
	m["(*strings.Replacer).Replace"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		var words []string
		known := a[0].op == OCall && a[0].s == "replacer"
		if known {
			for _, p := range parts(a[0].args[0]) {
				w, c := "", false
				if p.op == OItem {
					w, c = p.args[0].isStr()
				}
				if !c {
					known = false
					break
				}
				words = append(words, w)
			}
		}
		if !known || len(words)%2 != 0 {
			return e.T.Call("replaced", t, a...)
		}
		r := strings.NewReplacer(words...)
		// a text made of letters only holds none of the words that have another character
		plain := true
		for i := 0; i < len(words); i += 2 {
			if !strings.ContainsFunc(words[i], func(c rune) bool { return !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' }) {
				plain = false
			}
		}
		var xs []*Term
		for _, p := range parts(a[1]) {
			s, c := p.isStr()
			atom := isAtom(p) || p.op == OCall && (p.s == "cap" || p.s == "uncap" || p.s == "strings.ToUpper" || p.s == "strings.ToLower") && isAtom(p.args[0]) ||
				p.op == OCall && p.s == "itoa"
			switch {
			case c:
				xs = append(xs, e.T.Str(r.Replace(s)))
			case plain && atom:
				xs = append(xs, p)
			default:
				return e.T.Call("replaced", t, a...)
			}
		}
		return e.cat(xs...)
	})
	m["strings.ReplaceAll"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		return replace(e, t, a[0], a[1], a[2], -1)
	})
	trim := func(name string, f func(s, c string) string) {
		m[name] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
			if s, ok := a[0].isStr(); ok {
				if c, ok := a[1].isStr(); ok {
					return e.T.Str(f(s, c))
				}
			}
			if isAtom(a[0]) && a[1].isConst() {
				return a[0]
			}
			cut := a[1]
			switch name {
			case "strings.TrimSuffix":
				switch e.decide(st, e.strPred("strings.HasSuffix", a[0], cut)) {
				case 0:
					return a[0]
				case 1:
					if c, ok := cut.isStr(); ok {
						r, _ := e.slice(st, a[0], e.T.Int(0), e.arith("-", e.length(st, a[0]), e.T.Int(int64(len(c))), tInt), t, nil, token.NoPos)
						if r != nil {
							return r
						}
					}
				}
			case "strings.TrimPrefix":
				switch e.decide(st, e.strPred("strings.HasPrefix", a[0], cut)) {
				case 0:
					return a[0]
				case 1:
					if c, ok := cut.isStr(); ok {
						r, _ := e.slice(st, a[0], e.T.Int(int64(len(c))), e.T.Nil(), t, nil, token.NoPos)
						if r != nil {
							return r
						}
					}
				}
			}
			return e.T.Call(name, t, a...)
		})
	}
	trim("strings.Trim", strings.Trim)
	trim("strings.TrimLeft", strings.TrimLeft)
	trim("strings.TrimRight", strings.TrimRight)
	trim("strings.TrimPrefix", strings.TrimPrefix)
	trim("strings.TrimSuffix", strings.TrimSuffix)
	m["strings.Count"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			if c, ok := a[1].isStr(); ok {
				return e.T.Int(int64(strings.Count(s, c)))
			}
		}
		return e.T.Call("strings.Count", t, a...)
	})
	m["strings.Compare"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.T.Call("strcmp", t, a...) })
	m["unicode/utf8.RuneCountInString"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.T.Call("runecount", t, a...) })

	// strconv
	m["strconv.Itoa"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.itoa(a[0]) })
	m["strconv.FormatInt"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if n, ok := a[1].isInt(); !ok || n != 10 {
			return e.T.Call("formatint", t, a...)
		}
		return e.itoa(a[0])
	})
	m["strconv.FormatBool"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.btoa(st, a[0]) })
	m["strconv.Quote"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.quote(a[0]) })
	atoi := func(e *Engine, c *callCtx, a []*Term, base, bits int, term string) []Ret {
		x := e.res(c.st, a[0])
		if x.op == OUnk {
			return one(c, e.unkResult(x.s, c.rt))
		}
		if s, ok := x.isStr(); ok {
			n, err := strconv.ParseInt(s, base, bits)
			if err != nil {
				return one(c, e.T.Tuple(e.T.Int(0), e.T.Err(e.T.Call("errmsg:strconv.Atoi", tString, x))))
			}
			return one(c, e.T.Tuple(e.T.Int(int64(n)), e.T.Nil()))
		}
		if isAtom(x) {
			return one(c, e.T.Tuple(e.T.Int(0), e.T.Err(e.T.Call("errmsg:strconv.Atoi", tString, x))))
		}
		if x.op == OCall && x.s == "itoa" && (term == "atoi" || base == 10 && fitsInt(x.args[0].t, bits)) {
			return one(c, e.T.Tuple(x.args[0], e.T.Nil()))
		}
		return e.mayFail(c.st, "strconv.Atoi", []*Term{x}, c, func(*State) *Term {
			return e.T.Tuple(e.T.Call(term, tInt, x), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Int(0), er) })
	}
	m["strconv.Atoi"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return atoi(e, c, a, 10, 64, "atoi") }
	m["strconv.ParseInt"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		base, ok1 := a[1].isInt()
		bits, ok2 := a[2].isInt()
		if !ok1 || !ok2 || base != 0 && (base < 2 || base > 36) || bits < 0 || bits > 64 {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		term := "atoi" // names the base and size only when they differ from those of Atoi
		if bits == 0 {
			bits = 64
		}
		if base != 10 || bits != 64 {
			term = "atoi:" + strconv.FormatInt(base, 10) + ":" + strconv.FormatInt(bits, 10)
		}
		return atoi(e, c, a, int(base), int(bits), term)
	}
	parsed := func(name, term string) model {
		return func(e *Engine, c *callCtx, a []*Term) []Ret {
			x := e.res(c.st, a[0])
			if x.op == OUnk {
				return one(c, e.unkResult(x.s, c.rt))
			}
			bad := func() []Ret {
				return one(c, e.T.Tuple(e.zero(c.res(0)), e.T.Err(e.T.Call("errmsg:"+name, tString, x))))
			}
			term := term
			if len(a) > 1 {
				if bits, ok := a[1].isInt(); !ok || bits != 64 {
					term += ":" + a[1].Path()
				}
			}
			if s, ok := x.isStr(); ok && term == "atob" {
				v, err := strconv.ParseBool(s)
				if err != nil {
					return bad()
				}
				return one(c, e.T.Tuple(e.T.Bool(v), e.T.Nil()))
			} else if ok && term == "atof" {
				v, err := strconv.ParseFloat(s, 64)
				if err != nil {
					return bad()
				}
				if k := constant.MakeFloat64(v); k.Kind() != constant.Unknown {
					return one(c, e.T.Tuple(e.constTerm(k, types.Typ[types.Float64]), e.T.Nil()))
				}
			}
			return e.mayFail(c.st, name, []*Term{x}, c, func(*State) *Term {
				return e.T.Tuple(e.T.Call(term, c.res(0), x), e.T.Nil())
			}, func(er *Term) *Term { return e.T.Tuple(e.zero(c.res(0)), er) })
		}
	}
	m["strconv.ParseFloat"] = parsed("strconv.ParseFloat", "atof")
	m["strconv.ParseBool"] = parsed("strconv.ParseBool", "atob")

	// fmt
	m["fmt.Sprintf"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return rets(e.sprintf(c.st, e.res(c.st, a[0]), a[1], c)) }
	m["fmt.Sprint"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return rets(e.sprint(c.st, a[0], c, false)) }
	m["fmt.Sprintln"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return rets(e.sprint(c.st, a[0], c, true)) }
	m["fmt.Errorf"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		// the message text is kept symbolic: formatting arguments has no effect on control flow
		return one(c, e.T.Err(e.T.mk(OCall, "sprintf", nil, tString, nil, a[0], e.snapshot(c.st, a[1], 3))))
	}
	m["errors.New"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return one(c, e.T.Err(a[0])) }
	emit := func(sink string) func(ps []piece, e *Engine, c *callCtx) []Ret {
		return func(ps []piece, e *Engine, c *callCtx) []Ret {
			var out []Ret
			for _, p := range ps {
				e.world(p.st, e.T.mk(OCall, sink, nil, nil, nil, p.v))
				out = append(out, Ret{st: p.st, val: e.T.Tuple(e.length(p.st, p.v), e.T.Nil())})
			}
			return out
		}
	}
	m["fmt.Print"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return emit("stdout")(e.sprint(c.st, a[0], c, false), e, c)
	}
	m["fmt.Println"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return emit("stdout")(e.sprint(c.st, a[0], c, true), e, c)
	}
	m["fmt.Printf"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return emit("stdout")(e.sprintf(c.st, a[0], a[1], c), e, c)
	}
	fpr := func(ps []piece, w *Term, e *Engine, c *callCtx) []Ret {
		var out []Ret
		for _, p := range ps {
			for _, r := range e.writeTo(p.st, w, p.v, c) {
				r.val = e.T.Tuple(e.length(r.st, p.v), r.val)
				out = append(out, r)
			}
		}
		return out
	}
	m["fmt.Fprintf"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return fpr(e.sprintf(c.st, a[1], a[2], c), a[0], e, c)
	}
	m["fmt.Fprint"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return fpr(e.sprint(c.st, a[1], c, false), a[0], e, c) }
	m["fmt.Fprintln"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return fpr(e.sprint(c.st, a[1], c, true), a[0], e, c) }
	m["io.WriteString"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return fpr([]piece{{c.st, a[1]}}, a[0], e, c)
	}

	// buffers and writers
	for _, ty := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		m[ty+".WriteString"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
			e.setText(c.st, a[0], e.cat(e.text(c.st, a[0]), a[1]), c)
			return one(c, e.T.Tuple(e.length(c.st, a[1]), e.T.Nil()))
		}
		m[ty+".Write"] = m[ty+".WriteString"]
		wb := func(e *Engine, c *callCtx, a []*Term) []Ret {
			s := e.T.Call("runestr", tString, a[1])
			if n, ok := a[1].isInt(); ok {
				s = e.T.Str(string(rune(n)))
			}
			e.setText(c.st, a[0], e.cat(e.text(c.st, a[0]), s), c)
			if _, ok := c.rt.(*types.Tuple); ok {
				return one(c, e.T.Tuple(e.T.Int(1), e.T.Nil()))
			}
			return one(c, e.T.Nil())
		}
		m[ty+".WriteByte"] = wb
		m[ty+".WriteRune"] = wb
		m[ty+".String"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return one(c, e.text(c.st, a[0])) }
		m[ty+".Bytes"] = m[ty+".String"]
		m[ty+".Len"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return one(c, e.length(c.st, e.text(c.st, a[0]))) }
		m[ty+".Reset"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
			e.setText(c.st, a[0], e.T.Str(""), c)
			return one(c, e.T.Tuple())
		}
		m[ty+".Grow"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return one(c, e.T.Tuple()) }
	}
	m["bytes.NewBuffer"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		s := a[0]
		if s.op == ONil {
			s = e.T.Str("")
		}
		return one(c, e.newObj(c, "buf", e.T.mk(OCall, "text", nil, nil, nil, s), nil))
	}
	m["bytes.NewBufferString"] = m["bytes.NewBuffer"]
	m["bufio.NewWriter"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.newObj(c, "bufw", e.T.mk(OCall, "bufw", nil, nil, nil, a[0], e.T.Str("")), nil))
	}
	m["bufio.NewWriterSize"] = m["bufio.NewWriter"]
	m["(*bufio.Writer).WriteString"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		ok, r := e.needPtr(c.st, a[0], c.caller, c.pos())
		if !ok {
			return []Ret{r}
		}
		return e.mayFail(c.st, "bufio.Write", nil, c, func(st *State) *Term {
			e.bufWrite(st, a[0], a[1], c)
			return e.T.Tuple(e.length(st, a[1]), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Int(0), er) })
	}
	m["(*bufio.Writer).Write"] = m["(*bufio.Writer).WriteString"]
	m["(*bufio.Writer).WriteByte"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		s := e.T.Call("runestr", tString, a[1])
		if n, ok := a[1].isInt(); ok {
			s = e.T.Str(string(rune(n)))
		}
		e.bufWrite(c.st, a[0], s, c)
		return one(c, e.T.Nil())
	}
	m["(*bufio.Writer).WriteRune"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		m["(*bufio.Writer).WriteByte"](e, c, a)
		return one(c, e.T.Tuple(e.T.Int(1), e.T.Nil()))
	}
	m["(*bufio.Writer).Flush"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		ok, r := e.needPtr(c.st, a[0], c.caller, c.pos())
		if !ok {
			return []Ret{r}
		}
		v := e.load(c.st, a[0], nil)
		if v.op == OCall && v.s == "bufw" {
			e.store(c.st, a[0], e.T.mk(OCall, "bufw", nil, nil, nil, v.args[0], e.T.Str("")), nil, c.pos(), c.caller)
			return e.writeTo(c.st, v.args[0], v.args[1], c)
		}
		return one(c, e.T.Nil())
	}

	// json
	m["encoding/json.Marshal"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		s := e.snapshot(c.st, a[0], 8)
		return e.mayFail(c.st, "json.Marshal", []*Term{s}, c, func(*State) *Term {
			return e.T.Tuple(e.T.Call("json", tString, s), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
	}
	m["encoding/json.MarshalIndent"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.T.Tuple(e.T.Call("jsonindent", tString, e.snapshot(c.st, a[0], 8)), e.T.Nil()))
	}
	m["encoding/json.Unmarshal"] = unmarshal("json")
	m["github.com/ghodss/yaml.Unmarshal"] = unmarshal("yaml")
	m["encoding/json.NewEncoder"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.newObj(c, "enc", e.T.mk(OCall, "enc", nil, nil, nil, a[0], e.T.Bool(true), e.T.Str("")), nil))
	}
	encSet := func(i int) model {
		return func(e *Engine, c *callCtx, a []*Term) []Ret {
			v := e.load(c.st, a[0], nil)
			if v.op == OCall && v.s == "enc" {
				xs := append([]*Term{}, v.args...)
				xs[i] = a[i]
				e.store(c.st, a[0], e.T.mk(OCall, "enc", nil, nil, nil, xs...), nil, c.pos(), c.caller)
			}
			return one(c, e.T.Tuple())
		}
	}
	m["(*encoding/json.Encoder).SetEscapeHTML"] = encSet(1)
	m["(*encoding/json.Encoder).SetIndent"] = encSet(2)
	m["(*encoding/json.Encoder).Encode"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		v := e.load(c.st, a[0], nil)
		if v.op != OCall || v.s != "enc" {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		name := "json"
		if !isEmptySeq(v.args[2]) {
			name = "jsonindent"
		}
		if b, ok := v.args[1].isBool(); ok && b {
			name += ":esc"
		}
		x := a[1]
		if x.op == OIface && x.args[0].op == OPtr {
			x = x.args[0]
		}
		s := e.snapshot(c.st, x, 8)
		return e.mayFail(c.st, "json.Encode", []*Term{s}, c, func(st *State) *Term {
			out := e.T.Call(name, tString, s)
			if t, ok := scalarJSON(s, strings.HasSuffix(name, ":esc")); ok && e.sc.foldJSON {
				out = e.T.Str(t)
			}
			e.writeTo(st, v.args[0], e.cat(out, e.T.Str("\n")), c)
			return e.T.Nil()
		}, func(er *Term) *Term { return er })
	}

	// regexp
	m["regexp.Compile"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		if s, ok := a[0].isStr(); ok {
			if _, err := regexp.Compile(s); err != nil {
				return one(c, e.T.Tuple(e.T.Nil(), e.T.Err(e.T.Str(err.Error()))))
			}
			return one(c, e.T.Tuple(e.T.mk(OCall, "nonnil", nil, nil, nil, e.T.Str("re"), a[0]), e.T.Nil()))
		}
		return e.mayFail(c.st, "regexp.Compile", []*Term{a[0]}, c, func(*State) *Term {
			return e.T.Tuple(e.T.mk(OCall, "nonnil", nil, nil, nil, e.T.Str("re"), a[0]), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
	}
	m["regexp.MustCompile"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.T.mk(OCall, "nonnil", nil, nil, nil, e.T.Str("re"), a[0]))
	}
	m["(*regexp.Regexp).MatchString"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if a[0].op == OCall && a[0].s == "nonnil" {
			if pat, ok := a[0].args[1].isStr(); ok {
				if re, err := regexp.Compile(pat); err == nil {
					if x, ok := a[1].isStr(); ok {
						return e.T.Bool(re.MatchString(x))
					}
					if isAtom(a[1]) {
						n := 0
						for _, x := range atomSamples {
							if re.MatchString(x) {
								n++
							}
						}
						if n == 0 || n == len(atomSamples) {
							return e.T.Bool(n > 0)
						}
					}
				}
			}
			return e.T.Call("match", t, a[0].args[1], a[1])
		}
		return e.T.Unk("match", t)
	})
	m["(*regexp.Regexp).Match"] = m["(*regexp.Regexp).MatchString"]
	m["regexp.MatchString"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "regexp.Compile", []*Term{a[0]}, c, func(*State) *Term {
			return e.T.Tuple(e.T.Call("match", tBool, a[0], a[1]), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Bool(false), er) })
	}
	m["(*regexp.Regexp).ReplaceAllString"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if a[0].op == OCall && a[0].s == "nonnil" {
			pat, ok1 := a[0].args[1].isStr()
			rep, ok2 := a[2].isStr()
			if re, err := regexp.Compile(pat); ok1 && ok2 && err == nil {
				if x, ok := a[1].isStr(); ok {
					return e.T.Str(re.ReplaceAllString(x, rep))
				}
				if isAtom(a[1]) {
					same := true
					for _, x := range atomSamples {
						same = same && re.ReplaceAllString(x, rep) == x
					}
					if same {
						return a[1]
					}
				}
			}
		}
		return e.T.Call("rereplace", t, a...)
	})

	// files
	m["os.Create"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "os.Create", []*Term{a[0]}, c, func(st *State) *Term {
			e.world(st, e.T.mk(OCall, "create", nil, nil, nil, a[0]))
			return e.T.Tuple(e.T.mk(OCall, "file", nil, nil, nil, a[0]), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
	}
	m["os.OpenFile"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		n, known := a[1].isInt()
		if !known {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		flags := int(n)
		notThere := func(s *State) Ret {
			return Ret{st: s, val: e.T.Tuple(e.T.Nil(), e.T.Err(e.T.mk(OCall, "notexist", nil, tString, nil, a[0])))}
		}
		there := func(s *State) Ret {
			return Ret{st: s, val: e.T.Tuple(e.T.Nil(), e.T.Err(e.T.mk(OCall, "isexist", nil, tString, nil, a[0])))}
		}
		open := func(s *State, how string) []Ret {
			return e.mayFail(s, "os.Create", []*Term{a[0]}, c, func(st *State) *Term {
				e.world(st, e.T.mk(OCall, how, nil, nil, nil, a[0]))
				return e.T.Tuple(e.T.mk(OCall, "file", nil, nil, nil, a[0]), e.T.Nil())
			}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
		}
		if flags&os.O_CREATE != 0 && flags&os.O_EXCL == 0 && flags&os.O_TRUNC != 0 {
			return open(c.st, "create")
		}
		var out []Ret
		t, f := e.branch(c.st, e.T.Call("exists", tBool, a[0]), c.caller, c.pos())
		for _, s := range t {
			switch {
			case flags&os.O_CREATE != 0 && flags&os.O_EXCL != 0:
				out = append(out, there(s))
			case flags&os.O_TRUNC != 0:
				out = append(out, open(s, "create")...)
			default:
				out = append(out, open(s, "openold")...)
			}
		}
		for _, s := range f {
			if flags&os.O_CREATE != 0 {
				out = append(out, open(s, "create")...)
			} else {
				out = append(out, notThere(s))
			}
		}
		return out
	}
	m["(*os.File).Close"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "close", nil, c, func(*State) *Term { return e.T.Nil() }, func(er *Term) *Term { return er })
	}
	m["(*os.File).Sync"] = m["(*os.File).Close"]
	m["(*os.File).WriteString"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		var out []Ret
		for _, r := range e.writeTo(c.st, a[0], a[1], c) {
			r.val = e.T.Tuple(e.length(r.st, a[1]), r.val)
			out = append(out, r)
		}
		return out
	}
	m["(*os.File).Write"] = m["(*os.File).WriteString"]
	wf := func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "os.WriteFile", []*Term{a[0]}, c, func(st *State) *Term {
			e.world(st, e.T.mk(OCall, "create", nil, nil, nil, a[0]))
			e.world(st, e.T.mk(OCall, "write", nil, nil, nil, a[0], a[1]))
			return e.T.Nil()
		}, func(er *Term) *Term { return er })
	}
	m["io/ioutil.WriteFile"] = wf
	m["os.WriteFile"] = wf
	rf := func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "os.ReadFile", []*Term{a[0]}, c, func(st *State) *Term {
			return e.T.Tuple(e.T.Call("file contents", tString, a[0]), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
	}
	m["io/ioutil.ReadFile"] = rf
	m["os.ReadFile"] = rf
	mk := func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "os.MkdirAll", []*Term{a[0]}, c, func(st *State) *Term {
			e.world(st, e.T.mk(OCall, "mkdir", nil, nil, nil, a[0]))
			return e.T.Nil()
		}, func(er *Term) *Term { return er })
	}
	m["os.MkdirAll"] = mk
	m["os.Mkdir"] = mk
	rm := func(e *Engine, c *callCtx, a []*Term) []Ret {
		e.world(c.st, e.T.mk(OCall, "remove", nil, nil, nil, a[0]))
		return one(c, e.T.Nil())
	}
	m["os.Remove"] = rm
	m["os.RemoveAll"] = rm
	m["os.Truncate"] = rm
	m["os.Rename"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "os.Create", []*Term{a[1]}, c, func(st *State) *Term {
			e.world(st, e.T.mk(OCall, "rename", nil, nil, nil, a[0], a[1]))
			return e.T.Nil()
		}, func(er *Term) *Term { return er })
	}
	m["os.Stat"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		ex := e.T.Call("exists", tBool, a[0])
		t, f := e.branch(c.st, ex, c.caller, c.pos())
		var out []Ret
		for _, s := range t {
			// the file exists, but looking at it may still fail for another reason
			out = append(out, e.mayFail(s, "os.Stat", []*Term{a[0]}, c, func(*State) *Term {
				return e.T.Tuple(e.T.mk(OCall, "nonnil", nil, nil, nil, e.T.Str("info"), a[0]), e.T.Nil())
			}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })...)
		}
		for _, s := range f {
			out = append(out, Ret{st: s, val: e.T.Tuple(e.T.Nil(), e.T.Err(e.T.mk(OCall, "notexist", nil, tString, nil, a[0])))})
		}
		return out
	}
	m["os.Lstat"] = m["os.Stat"]
	for _, n := range []string{"Size", "IsDir", "Mode", "ModTime"} {
		n := n
		m["iface."+n] = func(e *Engine, c *callCtx, a []*Term) []Ret {
			if x := a[0]; x.op == OCall && x.s == "nonnil" && len(x.args) == 2 {
				// any file may be there
				k := "file" + n
				if n == "Size" {
					k = "+" + k
				}
				return one(c, e.T.mk(OSym, k, nil, c.rt, nil))
			}
			return one(c, e.unkResult("iface."+n, c.rt))
		}
	}
	m["os.IsNotExist"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		x := a[0]
		if x.op == OErr {
			return one(c, e.T.Bool(len(x.args) > 0 && x.args[0].op == OCall && x.args[0].s == "notexist"))
		}
		if x.op == ONil {
			return one(c, e.T.Bool(false))
		}
		return one(c, altMap(e, x, func(y *Term) *Term {
			if y.op == OErr {
				return e.T.Bool(len(y.args) > 0 && y.args[0].op == OCall && y.args[0].s == "notexist")
			}
			return e.T.Bool(false)
		}))
	}
	m["os.IsExist"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		return altMap(e, a[0], func(y *Term) *Term {
			return e.T.Bool(y.op == OErr && len(y.args) > 0 && y.args[0].op == OCall && y.args[0].s == "isexist")
		})
	})
	m["os.Getenv"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.T.Call("env", t, a[0]) })
	m["os.Exit"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		e.event("exit", c.pos(), c.caller, "os.Exit", c.st)
		return []Ret{{st: c.st, val: a[0], kind: RExit, pos: c.pos(), msg: "os.Exit", fn: c.caller}}
	}
	m["path/filepath.Base"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			return e.T.Str(filepath.Base(s))
		}
		ps := parts(a[0])
		// cut everything up to the last slash when it is in the constant text
		for k := len(ps) - 1; k >= 0; k-- {
			if s, ok := ps[k].isStr(); ok {
				if i := strings.LastIndex(s, "/"); i >= 0 {
					rest := append([]*Term{e.T.Str(s[i+1:])}, ps[k+1:]...)
					r := e.cat(rest...)
					if !isEmptySeq(r) {
						return r
					}
					break
				}
				continue
			}
			if !isAtom(ps[k]) {
				return e.T.Call("basename", t, a[0])
			}
			if k == 0 {
				return a[0]
			}
		}
		return e.T.Call("basename", t, a[0])
	})
	m["path.Base"] = m["path/filepath.Base"]
	m["path/filepath.Ext"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if s, ok := a[0].isStr(); ok {
			return e.T.Str(filepath.Ext(s))
		}
		if isAtom(a[0]) {
			return e.T.Str("")
		}
		ps := parts(a[0])
		if len(ps) > 1 {
			if s, ok := ps[len(ps)-1].isStr(); ok && strings.ContainsAny(s, "./") {
				return e.T.Str(filepath.Ext("x" + s))
			}
		}
		return e.T.Call("ext", t, a[0])
	})
	m["path.Ext"] = m["path/filepath.Ext"]
	m["path/filepath.Join"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		var xs []*Term
		for _, p := range parts(a[0]) {
			if p.op != OItem {
				return e.T.Call("pathjoin", t, a[0])
			}
			x := p.args[0]
			switch e.isEmpty(st, x) {
			case 1:
				continue
			}
			if len(xs) > 0 {
				xs = append(xs, e.T.Str("/"))
			}
			xs = append(xs, x)
		}
		return e.cat(xs...)
	})
	m["path.Join"] = m["path/filepath.Join"]
	m["path/filepath.Dir"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.T.Call("dirname", t, a[0]) })

	// sort
	m["sort.Strings"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		e.sortSeq(c.st, a[0])
		return one(c, e.T.Tuple())
	}
	m["slices.Sort"] = m["sort.Strings"]
	srt := func(e *Engine, c *callCtx, a []*Term) []Ret {
		x := a[0]
		if x.op == OIface {
			x = x.args[0]
		}
		ps := parts(x)
		if len(ps) > 1 && len(a) == 2 && a[1].op == OClosure && len(a[1].fn.Params) == 2 && types.Identical(under(a[1].fn.Params[0].Type()), tInt) {
			// the comparison function decides the order when it is decided for every pair
			if ys := e.sortBy(c, ps, a[1]); ys != nil {
				e.replaceEverywhere(c.st, x, e.catParts(ys))
				return one(c, e.T.Tuple())
			}
		}
		if len(ps) > 1 || len(ps) == 1 && ps[0].op != OItem {
			e.replaceEverywhere(c.st, x, e.T.Call("sorted", nil, x))
		}
		return one(c, e.T.Tuple())
	}
	m["sort.Slice"] = srt
	m["sort.SliceStable"] = srt
	m["sort.Sort"] = srt
	m["sort.Stable"] = srt
	m["slices.SortFunc"] = srt
	m["slices.Contains"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		cur := []*State{c.st}
		var out []Ret
		for _, p := range parts(a[0]) {
			if p.op != OItem {
				out = append(out, Ret{st: cur[0], val: e.T.Call("slices.Contains", tBool, a...)})
				return out
			}
			var next []*State
			for _, s := range cur {
				t, f := e.branch(s, e.eqTerm(p.args[0], a[1]), c.caller, c.pos())
				for _, q := range t {
					out = append(out, Ret{st: q, val: e.T.Bool(true)})
				}
				next = append(next, f...)
			}
			cur = next
		}
		for _, s := range cur {
			out = append(out, Ret{st: s, val: e.T.Bool(false)})
		}
		return out
	}

	for n, f := range map[string]func(string) string{"PathEscape": url.PathEscape, "QueryEscape": url.QueryEscape} {
		n, f := n, f
		m["net/url."+n] = func(e *Engine, c *callCtx, a []*Term) []Ret {
			if s, ok := e.res(c.st, a[0]).isStr(); ok {
				return one(c, e.T.Str(f(s)))
			}
			return one(c, e.T.Call(n, tString, a[0]))
		}
	}
	// time
	m["time.Now"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.T.Call("now", c.rt))
	}
	m["time.Parse"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		if l, ok := a[0].isStr(); ok {
			if s, ok := e.res(c.st, a[1]).isStr(); ok {
				t, err := time.Parse(l, s)
				if err != nil {
					return one(c, e.T.Tuple(e.zero(c.res(0)), e.T.Err(e.T.Str(err.Error()))))
				}
				return one(c, e.T.Tuple(e.T.mk(OCall, "timeconst", constant.MakeString(t.UTC().Format(time.RFC3339Nano)), c.res(0), nil), e.T.Nil()))
			}
		}
		return e.mayFail(c.st, "time.Parse", []*Term{a[0], a[1]}, c, func(*State) *Term {
			return e.T.Tuple(e.T.Call("timeparse", c.res(0), a[0], a[1]), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.zero(c.res(0)), er) })
	}
	for _, n := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second", "Nanosecond", "UnixNano", "Unix", "UTC", "Local"} {
		n := n
		m["(time.Time)."+n] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
			x := a[0]
			if x.op == OCall && x.s == "timeconst" {
				tm, err := time.Parse(time.RFC3339Nano, constant.StringVal(x.c))
				if err == nil {
					switch n {
					case "UTC":
						return e.T.mk(OCall, "timeconst", constant.MakeString(tm.UTC().Format(time.RFC3339Nano)), x.t, nil)
					case "Year":
						return e.T.Int(int64(tm.Year()))
					case "Month":
						return e.T.Int(int64(tm.Month()))
					case "Day":
						return e.T.Int(int64(tm.Day()))
					case "Hour":
						return e.T.Int(int64(tm.Hour()))
					case "Minute":
						return e.T.Int(int64(tm.Minute()))
					case "Second":
						return e.T.Int(int64(tm.Second()))
					case "Nanosecond":
						return e.T.Int(int64(tm.Nanosecond()))
					case "UnixNano":
						return e.T.Int(tm.UnixNano())
					case "Unix":
						return e.T.Int(tm.Unix())
					}
				}
			}
			if n == "UTC" && x.op == OCall && x.s == "time.UTC" {
				return x
			}
			return e.T.Call("time."+n, t, x)
		})
	}
	for _, n := range []string{"Round", "Truncate", "Add"} {
		n := n
		m["(time.Time)."+n] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
			d, ok := a[1].isInt()
			if x := a[0]; ok && x.op == OCall && x.s == "timeconst" {
				if tm, err := time.Parse(time.RFC3339Nano, constant.StringVal(x.c)); err == nil {
					switch n {
					case "Round":
						tm = tm.Round(time.Duration(d))
					case "Truncate":
						tm = tm.Truncate(time.Duration(d))
					default:
						tm = tm.Add(time.Duration(d))
					}
					return e.T.mk(OCall, "timeconst", constant.MakeString(tm.Format(time.RFC3339Nano)), x.t, nil)
				}
			}
			if ok && d == 0 {
				return a[0]
			}
			return e.T.Call("time."+n, t, a...)
		})
	}
	m["(time.Time).IsZero"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if a[0].op == OZero {
			return e.T.Bool(true)
		}
		if a[0].op == OCall && a[0].s == "timeconst" {
			tm, err := time.Parse(time.RFC3339Nano, constant.StringVal(a[0].c))
			if err == nil {
				return e.T.Bool(tm.IsZero())
			}
		}
		return e.T.Call("time.IsZero", t, a[0])
	})
	m["(time.Time).Format"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if a[0].op == OCall && a[0].s == "timeconst" {
			if l, ok := a[1].isStr(); ok {
				tm, err := time.Parse(time.RFC3339Nano, constant.StringVal(a[0].c))
				if err == nil {
					return e.T.Str(tm.Format(l))
				}
			}
		}
		return e.T.Call("time.Format", t, a...)
	})

	// math/big
	m["math/big.NewFloat"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.newObj(c, "big", e.T.mk(OCall, "big", nil, nil, nil, a[0]), nil))
	}
	m["math/big.ParseFloat"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		x := e.res(c.st, a[0])
		if s, ok := x.isStr(); ok {
			base, ok1 := a[1].isInt()
			prec, ok2 := a[2].isInt()
			if ok1 && ok2 && prec > 0 && prec < 100000 {
				f, _, err := big.ParseFloat(s, int(base), uint(prec), big.ToNearestEven)
				if err != nil {
					return one(c, e.T.Tuple(e.T.Nil(), e.T.Int(0), e.T.Err(e.T.Str(err.Error()))))
				}
				if f.IsInf() {
					p := e.newObj(c, "big", e.T.mk(OCall, "big", nil, nil, nil, e.T.Call("infinity", types.Typ[types.Float64], e.T.Int(int64(f.Sign())))), nil)
					return one(c, e.T.Tuple(p, e.T.Int(10), e.T.Nil()))
				} else {
					v := constant.MakeFromLiteral(strings.TrimPrefix(f.Text('f', -1), "-"), token.FLOAT, 0)
					if f.Sign() < 0 {
						v = constant.UnaryOp(token.SUB, v, 0)
					}
					p := e.newObj(c, "big", e.T.mk(OCall, "big", nil, nil, nil, e.T.Const(v, types.Typ[types.Float64])), nil)
					return one(c, e.T.Tuple(p, e.T.Int(10), e.T.Nil()))
				}
			}
		}
		// printing a number and parsing it back is the number
		if x.op == OCall && (x.s == "itoa" || strings.HasPrefix(x.s, "ftoa:g")) {
			p := e.newObj(c, "big", e.T.mk(OCall, "big", nil, nil, nil, x.args[0]), nil)
			return one(c, e.T.Tuple(p, e.T.Int(10), e.T.Nil()))
		}
		if x.op == OCall && x.s == "big.Text" && len(x.args) == 3 && e.sc.printed {
			if n, ok := x.args[2].isInt(); ok && n == -1 {
				p := e.newObj(c, "big", e.T.mk(OCall, "big", nil, nil, nil, x.args[0]), nil)
				return one(c, e.T.Tuple(p, e.T.Int(10), e.T.Nil()))
			}
		}
		return e.mayFail(c.st, "big.ParseFloat", []*Term{x}, c, func(st *State) *Term {
			c2 := *c
			c2.st = st
			p := e.newObj(&c2, "big", e.T.mk(OCall, "big", nil, nil, nil, e.T.Call("parsefloat", types.Typ[types.Float64], x, a[1], a[2], a[3])), nil)
			return e.T.Tuple(p, e.T.Int(10), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), e.T.Int(0), er) })
	}
	m["(*math/big.Float).IsInf"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		if ok, r := e.needPtr(c.st, a[0], c.caller, c.pos()); !ok {
			return []Ret{r}
		}
		x := e.bigVal(c.st, a[0])
		if x.op == OUnk {
			return one(c, e.T.Unk("isinf", tBool))
		}
		return one(c, e.T.Bool(x.op == OCall && x.s == "infinity"))
	}
	m["(*math/big.Float).Cmp"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		for _, x := range a {
			if ok, r := e.needPtr(c.st, x, c.caller, c.pos()); !ok {
				return []Ret{r}
			}
		}
		x, y := e.bigVal(c.st, a[0]), e.bigVal(c.st, a[1])
		if x.op == OUnk || y.op == OUnk {
			return one(c, e.T.Unk("cmp", tInt))
		}
		if x.op == OConst && y.op == OConst {
			switch {
			case constant.Compare(x.c, token.LSS, y.c):
				return one(c, e.T.Int(-1))
			case constant.Compare(x.c, token.EQL, y.c):
				return one(c, e.T.Int(0))
			}
			return one(c, e.T.Int(1))
		}
		if e.evalLt(c.st, x, y) == 1 {
			return one(c, e.T.Int(-1))
		}
		if e.evalLt(c.st, y, x) == 1 {
			return one(c, e.T.Int(1))
		}
		if e.evalEq(c.st, x, y) == 1 {
			return one(c, e.T.Int(0))
		}
		return one(c, e.T.Call("cmp", tInt, x, y))
	}
	bigM := func(name string, tuple bool) {
		m["(*math/big.Float)."+name] = func(e *Engine, c *callCtx, a []*Term) []Ret {
			if ok, r := e.needPtr(c.st, a[0], c.caller, c.pos()); !ok {
				return []Ret{r}
			}
			x := e.bigVal(c.st, a[0])
			if x.op == OUnk {
				return one(c, e.unkResult("big", c.rt))
			}
			v := e.T.Call("big."+name, c.res(0), append([]*Term{x}, a[1:]...)...)
			if name == "IsInt" {
				if w := e.whole(x); w >= 0 {
					v = e.T.Bool(w == 1)
				}
			}
			if name == "Text" && exactBig(x) == nil && x.op == OConst && isNum(x.c) {
				k, ok := a[1].isInt()
				if p, ok2 := a[2].isInt(); ok && ok2 && k == 'f' && p == -1 {
					if s := decText(x.c); s != "" && len(s) < 70 { // short enough to be the digits of the number as a Decimal holds it
						v = e.T.Str(s)
					}
				}
			}
			if name == "Float64" && exactBig(x) == nil && x.op == OConst && isNum(x.c) {
				if n, _ := constant.Float64Val(constant.ToFloat(x.c)); !math.IsInf(n, 0) {
					v = e.T.Const(constant.ToFloat(constant.MakeFloat64(n)), c.res(0))
				}
			}
			if f := exactBig(x); f != nil {
				switch name {
				case "Int64":
					n, _ := f.Int64()
					v = e.T.Const(constant.MakeInt64(n), c.res(0))
				case "Uint64":
					n, _ := f.Uint64()
					v = e.T.Const(constant.MakeUint64(n), c.res(0))
				case "Float64":
					if n, _ := f.Float64(); !math.IsInf(n, 0) {
						v = e.T.Const(constant.ToFloat(constant.MakeFloat64(n)), c.res(0))
					}
				case "Float32":
					if n, acc := f.Float32(); acc == big.Exact {
						v = e.T.Const(constant.ToFloat(constant.MakeFloat64(float64(n))), c.res(0))
					}
				case "Text":
					k, ok := a[1].isInt()
					if p, ok2 := a[2].isInt(); ok && ok2 && (p == -1 || k == 'f' || k == 'g' || k == 'e') {
						v = e.T.Str(f.Text(byte(k), int(p)))
					}
				case "IsInt":
					v = e.T.Bool(f.IsInt())
				case "Sign":
					v = e.T.Int(int64(f.Sign()))
				case "IsInf":
					v = e.T.Bool(false)
				}
			}
			if tuple {
				return one(c, e.T.Tuple(v, e.T.Call("accuracy", nil, x)))
			}
			return one(c, v)
		}
	}
	bigM("Int64", true)
	bigM("Uint64", true)
	bigM("Float64", true)
	bigM("Float32", true)
	bigM("Int", true)
	bigM("Text", false)
	bigM("String", false)
	bigM("IsInt", false)
	bigM("Sign", false)
	bigM("Prec", false)

	// net/http, reflect
	m["net/http.StatusText"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term {
		if n, ok := a[0].isInt(); ok {
			return e.T.Str(http.StatusText(int(n)))
		}
		return e.T.Call("StatusText", t, a[0])
	})
	m["reflect.ValueOf"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.T.Call("reflect", t, a[0]) })
	m["(reflect.Value).Kind"] = pure(func(e *Engine, st *State, t types.Type, a []*Term) *Term { return e.T.Call("kind", t, a[0]) })
	m["reflect.DeepEqual"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		x, y := e.snapshot(c.st, a[0], 8), e.snapshot(c.st, a[1], 8)
		switch e.evalEq(c.st, x, y) {
		case 1:
			return one(c, e.T.Bool(true))
		}
		return one(c, e.T.Call("deepequal", tBool, x, y))
	}
	m["iface.Error"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return one(c, e.T.Call("Error", c.rt, a[0])) }
	m["iface.String"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return one(c, e.T.Call("String", c.rt, a[0])) }
	m["iface.GetKind"] = func(e *Engine, c *callCtx, a []*Term) []Ret { return one(c, e.T.Call("GetKind", c.rt, a[0])) }
	for _, n := range []string{"(*github.com/graphql-go/graphql/language/ast.Document).GetKind"} {
		_ = n
	}
	m["github.com/graphql-go/graphql/language/parser.Parse"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return e.mayFail(c.st, "graphql.Parse", nil, c, func(st *State) *Term {
			if e.sc != nil && e.sc.graphqlDoc != nil {
				return e.T.Tuple(e.sc.graphqlDoc, e.T.Nil())
			}
			return e.T.Tuple(e.T.Sym("document", c.res(0)), e.T.Nil())
		}, func(er *Term) *Term { return e.T.Tuple(e.T.Nil(), er) })
	}
	addTemplateModels(m)
	addSadlModels(m)
	return m
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// whole: whether a number is an integer (1), is none (0), or may be either (-1). Symbols of an integer type are
// integers, and so are those whose name ends in "#i"; those whose name ends in "#h" are an integer and a half.
func (e *Engine) whole(t *Term) int {
	for t.op == OCall && (t.s == "parsefloat" || t.s == "itoa" || t.s == "big") && len(t.args) > 0 {
		t = t.args[0]
	}
	l := e.lin(t)
	if !isNum(l.c) {
		return -1
	}
	half := 0
	for x, k := range l.m {
		switch {
		case isInteger(x.t) || x.op == OSym && strings.HasSuffix(x.s, "#i"):
		case x.op == OSym && strings.HasSuffix(x.s, "#h"):
			half += int(k % 2)
		default:
			return -1
		}
	}
	c := l.c
	if half%2 != 0 {
		c = constant.BinaryOp(c, token.ADD, constant.MakeFloat64(0.5))
	}
	if constant.ToInt(c).Kind() == constant.Int {
		return 1
	}
	return 0
}

// exactBig is a constant number as a big.Float that holds it exactly, nil when there is none of a moderate precision.
// decText is the number in digits, "" when they do not end.
func decText(c constant.Value) string {
	r, ok := new(big.Rat).SetString(c.ExactString())
	if !ok {
		return ""
	}
	if r.IsInt() {
		return r.Num().String()
	}
	for n := 1; n < 400; n++ {
		s := r.FloatString(n)
		if back, ok := new(big.Rat).SetString(s); ok && back.Cmp(r) == 0 {
			return s
		}
	}
	return ""
}

func exactBig(x *Term) *big.Float {
	if x.op != OConst || x.c.Kind() != constant.Int && x.c.Kind() != constant.Float {
		return nil
	}
	r, ok := new(big.Rat).SetString(x.c.ExactString())
	if !ok {
		return nil
	}
	f := new(big.Float).SetPrec(250).SetRat(r)
	if back, _ := f.Rat(nil); back == nil || back.Cmp(r) != 0 {
		return nil
	}
	return f
}

// sortBy orders the items by a less(i, j) function; nil when some pair is not decided.
func (e *Engine) sortBy(c *callCtx, ps []*Term, less *Term) []*Term {
	n := len(ps)
	if n > 12 {
		return nil
	}
	lt := make([][]bool, n)
	for i := range ps {
		if ps[i].op != OItem {
			return nil
		}
		lt[i] = make([]bool, n)
		for j := range ps {
			if i == j {
				continue
			}
			rs := e.callFn(c.st.clone(), c.caller, c.in, less.fn, []*Term{e.T.Int(int64(i)), e.T.Int(int64(j))}, less.args, tBool)
			if len(rs) != 1 || rs[0].kind != RReturn {
				return nil
			}
			d := e.decide(rs[0].st, rs[0].val)
			if d < 0 {
				return nil
			}
			lt[i][j] = d == 1
		}
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return lt[idx[i]][idx[j]] })
	out := make([]*Term, n)
	for i, k := range idx {
		out[i] = ps[k]
	}
	return out
}

func (e *Engine) sortSeq(st *State, seq *Term) {
	ps := parts(seq)
	if len(ps) == 0 {
		return
	}
	allc := true
	for _, p := range ps {
		if p.op != OItem {
			allc = false
			break
		}
		if _, ok := renderTerm(p.args[0]); !ok {
			allc = false
		}
	}
	if allc {
		// generic names are put in the order of their labels
		xs := append([]*Term{}, ps...)
		sort.SliceStable(xs, func(i, j int) bool {
			a, _ := renderTerm(xs[i].args[0])
			b, _ := renderTerm(xs[j].args[0])
			return a < b
		})
		e.replaceEverywhere(st, seq, e.catParts(xs))
		return
	}
	if len(ps) <= 1 && len(ps) == 1 && ps[0].op == OItem {
		return
	}
	items := true
	for _, p := range ps {
		items = items && p.op == OItem
	}
	if items {
		return // distinct symbolic names: any order is admissible
	}
	e.replaceEverywhere(st, seq, e.T.Call("sorted", nil, seq))
}
