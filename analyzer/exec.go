package main

// exec.go: instructions, regions, loops and calls.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// value of an operand in the current environment.
func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zero(x.Type())
		}
		return e.constTerm(x.Value, x.Type())
	case *ssa.Global:
		return e.T.Ptr("g:"+x.RelString(nil), x.Type())
	case *ssa.Function:
		return e.T.mk(OClosure, "", nil, x.Type(), x)
	case *ssa.Builtin:
		return e.T.mk(OCall, "builtin:"+x.Name(), nil, nil, nil)
	}
	if t, ok := st.env.vals[v]; ok {
		return t
	}
	return e.T.Unk("undef:"+v.Name(), v.Type())
}

func (e *Engine) constTerm(c constant.Value, t types.Type) *Term {
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		if c.Kind() == constant.Int {
			c = constant.ToFloat(c)
		}
	}
	return e.T.Const(c, t)
}

func (e *Engine) bind(st *State, v ssa.Value, t *Term) {
	if t == nil {
		t = e.T.Unk("nilterm", v.Type())
	}
	if t.t == nil && t.op != OCat && t.op != ONil && t.op != OTuple && t.op != OItem && t.op != OStar && t.op != OErr {
		t.t = v.Type()
	}
	st.env.vals[v] = t
}

// prune drops dead values at a block entry.
func (e *Engine) prune(st *State, c *cfg, b *ssa.BasicBlock) {
	live := c.live[b]
	for v := range st.env.vals {
		if !live[v] {
			delete(st.env.vals, v)
		}
	}
}

// takeEdge evaluates the phis of `to` for the edge from->to.
func (e *Engine) takeEdge(st *State, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(st, ph.Edges[k]))
	}
	for i, ph := range phis {
		e.bind(st, ph, vals[i])
	}
}

// runRegion executes the blocks of a loop body (or the whole function when l is nil)
// from its header; edges leaving the region and back edges are returned.
func (e *Engine) runRegion(fn *ssa.Function, c *cfg, l *loop, start *ssa.BasicBlock, sts []*State) (exits, backs []edge, rets []Ret) {
	pending := map[*ssa.BasicBlock][]*State{start: sts}
	route := func(ed edge) {
		if l != nil && !l.blocks[ed.to] {
			exits = append(exits, ed)
			return
		}
		if l != nil && ed.to == l.header {
			backs = append(backs, ed)
			return
		}
		pending[ed.to] = append(pending[ed.to], ed.st)
	}
	for _, b := range c.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		in := pending[b]
		if len(in) == 0 {
			continue
		}
		delete(pending, b)
		if traceBlocks {
			for i, in0 := range b.Instrs {
				if in0.Pos().IsValid() || i == len(b.Instrs)-1 {
					fmt.Fprintln(os.Stderr, "block", fn.Name(), b.Index, e.P.pos(in0.Pos()), len(in))
					break
				}
			}
		}
		for _, s := range in {
			e.prune(s, c, b)
		}
		if len(in) > 1 {
			for _, s := range in {
				e.gc(s)
			}
			in = e.merge(in)
		}
		if sub := c.loops[b]; sub != nil && sub != l {
			for _, s := range in {
				ex, rs := e.runLoop(fn, c, sub, s)
				for _, ed := range ex {
					route(ed)
				}
				rets = append(rets, rs...)
			}
			continue
		}
		for _, s := range in {
			eds, rs := e.runBlock(fn, b, s)
			for _, ed := range eds {
				route(ed)
			}
			rets = append(rets, rs...)
		}
	}
	return
}

var traceBlocks = os.Getenv("TRACE_BLOCKS") != ""

const maxPeel = 48

func isAddConst(v ssa.Value, ph *ssa.Phi) (int64, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.ADD && b.Op != token.SUB) || b.X != ssa.Value(ph) {
		return 0, false
	}
	k, ok := b.Y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	n, _ := constant.Int64Val(k.Value)
	if b.Op == token.SUB {
		n = -n
	}
	return n, true
}

// headerConst: does the loop's header decide its exit from constants?
func (e *Engine) headerConst(fn *ssa.Function, l *loop, st *State) (decided, exits bool) {
	h := l.header
	last := h.Instrs[len(h.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false, false
	}
	out := -1
	for i, s := range h.Succs {
		if !l.blocks[s] {
			out = i
		}
	}
	if out < 0 {
		return false, false
	}
	for _, in := range h.Instrs {
		switch in.(type) {
		case *ssa.Call:
			if c := in.(*ssa.Call); c.Call.StaticCallee() != nil {
				return false, false
			}
		}
	}
	s := st.clone()
	ne := len(e.events)
	sts := []*State{s}
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		res, rets := e.instr(fn, in, sts[0])
		if len(rets) > 0 || len(res) != 1 {
			e.events = e.events[:ne]
			return false, false
		}
		sts = res
	}
	e.events = e.events[:ne]
	cond := e.val(sts[0], iff.Cond)
	b, ok := cond.isBool()
	if !ok {
		if cond.has&2 != 0 || cond.unk() {
			return false, false
		}
		switch e.decide(sts[0], cond) {
		case 1:
			b, ok = true, true
		case 0:
			b, ok = false, true
		}
		if !ok {
			return false, false
		}
		// decided by facts: only a concrete loop when no sequence length is involved
		if strings.Contains(cond.Path(), "len(") || strings.Contains(cond.Path(), "empty(") {
			return false, false
		}
	}
	return true, b == (out == 0)
}

func (e *Engine) runLoop(fn *ssa.Function, c *cfg, l *loop, st0 *State) (exits []edge, rets []Ret) {
	base := st0.env.ctx
	li := &loopInst{id: base + "L" + strconv.Itoa(l.header.Index), insts: map[string]bool{}, entry: map[string]*Obj{}}
	e.loops = append(e.loops, li)
	defer func() {
		e.loops = e.loops[:len(e.loops)-1]
		if len(e.loops) > 0 {
			for k := range li.insts {
				e.loops[len(e.loops)-1].insts[k] = true
			}
		}
	}()
	out := func(eds []edge) {
		for _, ed := range eds {
			ed.st.env.ctx = base
			exits = append(exits, ed)
		}
	}
	cur := []*State{st0}
	peel := 0
	// concrete iterations
	var sym []*State
	for len(cur) > 0 && (peel < maxPeel || e.sc != nil && e.sc.follow && peel < maxFollow) {
		var conc []*State
		for _, s := range cur {
			// a scenario of constant inputs is followed round by round
			if e.sc != nil && e.sc.follow && len(cur) <= 6 {
				conc = append(conc, s)
				continue
			}
			if d, _ := e.headerConst(fn, l, s); d {
				conc = append(conc, s)
			} else {
				sym = append(sym, s)
			}
		}
		if len(conc) == 0 {
			cur = nil
			break
		}
		for _, s := range conc {
			s.env.ctx = base + "#" + strconv.Itoa(peel)
		}
		ex, backs, rs := e.runRegion(fn, c, l, l.header, conc)
		out(ex)
		rets = append(rets, rs...)
		cur = nil
		for _, ed := range backs {
			ed.st.env.ctx = base
			cur = append(cur, ed.st)
		}
		for _, s := range cur {
			e.prune(s, c, l.header)
			if len(cur) > 1 || peel%32 == 31 {
				e.gc(s)
			}
		}
		cur = e.merge(cur)
		peel++
	}
	sym = append(sym, cur...)
	for i, s := range sym {
		s.env.ctx = base + "~" + strconv.Itoa(i)
		ex, rs := e.symLoop(fn, c, l, s, li)
		out(ex)
		rets = append(rets, rs...)
	}
	// merge per exit edge
	by := map[[2]*ssa.BasicBlock][]*State{}
	var order [][2]*ssa.BasicBlock
	for _, ed := range exits {
		k := [2]*ssa.BasicBlock{ed.from, ed.to}
		if by[k] == nil {
			order = append(order, k)
		}
		by[k] = append(by[k], ed.st)
	}
	exits = nil
	for _, k := range order {
		ss := by[k]
		for _, s := range ss {
			e.prune(s, c, k[1])
			if len(ss) > 1 {
				e.gc(s)
			}
		}
		for _, s := range e.merge(ss) {
			exits = append(exits, edge{k[0], k[1], s})
		}
	}
	return
}

// partKey separates loop states that carry different flags, so that a flag and the state it describes stay correlated.
func (e *Engine) partKey(st *State) string {
	var xs []string
	cls := func(name string, t *Term, ty types.Type) {
		switch u := under(ty).(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				if b, ok := t.isBool(); ok {
					xs = append(xs, fmt.Sprintf("%s=%v", name, b))
				}
			}
			if u.Info()&types.IsString != 0 {
				xs = append(xs, fmt.Sprintf("%s=%v", name, isEmptySeq(t)))
			}
		case *types.Interface, *types.Pointer, *types.Slice:
			xs = append(xs, fmt.Sprintf("%s=%v", name, t.op == ONil))
		}
	}
	for v, t := range st.env.vals {
		if _, ok := v.(*ssa.Phi); ok {
			cls(v.Name(), t, v.Type())
		}
	}
	for id, o := range st.heap {
		if o.kind != KCell || o.val == nil || o.summary || strings.HasPrefix(id, "g:") || strings.HasPrefix(id, "w:") {
			continue
		}
		if o.val.op == OStruct {
			if s, ok := under(o.typ).(*types.Struct); ok && s.NumFields() == len(o.val.args) {
				for i, a := range o.val.args {
					if types.TypeString(s.Field(i).Type(), nil) == "error" {
						cls(id+"."+s.Field(i).Name(), a, s.Field(i).Type())
					}
				}
			}
		} else if o.typ != nil {
			if u, ok := under(o.typ).(*types.Basic); ok && u.Info()&types.IsBoolean != 0 || types.TypeString(o.typ, nil) == "error" {
				cls(id, o.val, o.typ)
			}
		}
	}
	sort.Strings(xs)
	return strings.Join(xs, ";")
}

func (e *Engine) symLoop(fn *ssa.Function, c *cfg, l *loop, st0 *State, li *loopInst) (exits []edge, rets []Ret) {
	// induction variables
	type ind struct {
		ph   *ssa.Phi
		inst string
		base int64
		step int64
	}
	var inds []ind
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		b, ok := under(ph.Type()).(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		var step int64
		good := true
		for k, p := range l.header.Preds {
			if l.blocks[p] {
				n, ok := isAddConst(ph.Edges[k], ph)
				if !ok || (step != 0 && n != step) {
					good = false
				}
				step = n
			}
		}
		if !good || step <= 0 {
			continue
		}
		n, ok := e.val(st0, ph).isInt()
		if !ok {
			continue
		}
		inst := st0.env.ctx + "/" + l.header.String() + ph.Name()
		inds = append(inds, ind{ph, inst, n, step})
		li.insts[inst] = true
	}
	li.entry = map[string]*Obj{}
	for id, o := range st0.heap {
		li.entry[id] = o
	}
	li.steps = 0
	for _, d := range inds {
		st0.env.vals[d.ph] = e.idx(d.inst, "first", d.base)
	}
	ctx := st0.env.ctx
	run := func(s *State) (parts map[string]*State, order []string) {
		ex, backs, rs := e.runRegion(fn, c, l, l.header, []*State{s})
		exits = append(exits, ex...)
		rets = append(rets, rs...)
		parts = map[string]*State{}
		for _, ed := range backs {
			ed.st.env.ctx = ctx
			e.prune(ed.st, c, l.header)
			for _, d := range inds {
				ed.st.env.vals[d.ph] = e.idx(d.inst, "next", d.base+d.step)
			}
			save := map[ssa.Value]*Term{}
			for _, d := range inds {
				save[d.ph] = ed.st.env.vals[d.ph]
				delete(ed.st.env.vals, d.ph)
			}
			e.gc(ed.st)
			e.backEdge(ed.st, li)
			for v, t := range save {
				ed.st.env.vals[v] = t
			}
			k := e.partKey(ed.st)
			if p := parts[k]; p != nil {
				parts[k] = e.joinState(p, ed.st, nil)
			} else {
				parts[k] = ed.st
				order = append(order, k)
			}
		}
		return
	}
	W := map[string]*State{}
	entryKey := e.partKey(st0)
	entrySt := st0.clone()
	work, worder := run(st0)
	rounds := 0
	var prevExits []edge
	for len(worder) > 0 {
		rounds++
		li.steps = rounds
		if rounds > 24 {
			e.overflow++
			break
		}
		var nextOrder []string
		next := map[string]*State{}
		exits0 := exits
		_ = prevExits
		for _, k := range worder {
			s := work[k]
			var nw *State
			if old := W[k]; old != nil {
				nw = e.joinState(old, s, li)
				for _, d := range inds {
					nw.env.vals[d.ph] = e.idx(d.inst, "next", d.base+d.step)
				}
				nw.env.ctx = ctx
				if e.sig(nw, nil) == e.sig(old, nil) {
					// facts may only have shrunk
					W[k] = nw
					if len(nw.facts) == len(old.facts) {
						continue
					}
				}
			} else if k == entryKey && rounds == 1 {
				// widen against the entry so that growing sequences become repetitions
				j := e.joinState(entrySt, s, li)
				nw = s
				for v := range s.env.vals {
					if jt := j.env.vals[v]; jt != nil && isSeqType(v.Type()) {
						nw.env.vals[v] = jt
					}
				}
				for id, o := range s.heap {
					if jo := j.heap[id]; jo != nil && entrySt.heap[id] != nil && o != entrySt.heap[id] {
						if o.kind == KCell && jo.val != nil && seqish(jo.val, o.typ) {
							nw.heap[id] = jo
						} else if o.kind == KCell && o.typ != nil {
							if sv, ok := under(o.typ).(*types.Struct); ok && o.val.op == OStruct && jo.val.op == OStruct {
								fs := append([]*Term{}, o.val.args...)
								for i := range fs {
									if isSeqType(sv.Field(i).Type()) {
										fs[i] = jo.val.args[i]
									}
								}
								n := *o
								n.val = e.T.mk(OStruct, "", nil, o.val.t, nil, fs...)
								nw.heap[id] = &n
							}
						}
					}
				}
			} else {
				nw = s
			}
			W[k] = nw
			parts, order := run(nw.clone())
			for _, k2 := range order {
				if p := next[k2]; p != nil {
					next[k2] = e.joinState(p, parts[k2], nil)
				} else {
					next[k2] = parts[k2]
					nextOrder = append(nextOrder, k2)
				}
			}
			if len(W) > 16 {
				e.fatal("loop partitions")
			}
		}
		_ = exits0
		work, worder = next, nextOrder
	}
	return
}

func seqish(v *Term, t types.Type) bool { return isSeqType(t) }

// ---------------------------------------------------------------- blocks and instructions

func (e *Engine) runBlock(fn *ssa.Function, b *ssa.BasicBlock, st *State) (eds []edge, rets []Ret) {
	cur := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.Jump:
			for _, s := range cur {
				e.takeEdge(s, b, b.Succs[0])
				eds = append(eds, edge{b, b.Succs[0], s})
			}
			return
		case *ssa.If:
			for _, s := range cur {
				t, f := e.branch(s, e.val(s, x.Cond), fn, x.Cond.Pos())
				if traceBlocks && len(t)+len(f) > 1 {
					fmt.Fprintln(os.Stderr, "open", fn.Name(), b.Index, e.val(s, x.Cond).Path())
				}
				for _, q := range t {
					e.takeEdge(q, b, b.Succs[0])
					eds = append(eds, edge{b, b.Succs[0], q})
				}
				for _, q := range f {
					e.takeEdge(q, b, b.Succs[1])
					eds = append(eds, edge{b, b.Succs[1], q})
				}
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				var v *Term
				switch len(x.Results) {
				case 0:
					v = e.T.Tuple()
				case 1:
					v = e.val(s, x.Results[0])
				default:
					xs := make([]*Term, len(x.Results))
					for i, r := range x.Results {
						xs[i] = e.val(s, r)
					}
					v = e.T.Tuple(xs...)
				}
				rets = append(rets, Ret{st: s, val: v, kind: RReturn, pos: x.Pos(), fn: fn})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				v := e.val(s, x.X)
				e.event("panic", x.Pos(), fn, v.Path(), s)
				rets = append(rets, Ret{st: s, val: v, kind: RPanic, pos: x.Pos(), msg: "panic(" + v.Path() + ")", fn: fn})
			}
			return
		}
		var next []*State
		for _, s := range cur {
			e.tick()
			res, rs := e.instr(fn, in, s)
			next = append(next, res...)
			rets = append(rets, rs...)
		}
		cur = next
		if len(cur) == 0 {
			return
		}
		if len(cur) > maxDisjuncts/2 {
			for _, s := range cur {
				e.gc(s)
			}
			cur = e.merge(cur)
		}
	}
	return
}

// split resolves an operand that stands for several alternatives into one state per alternative.
func (e *Engine) split(st *State, v ssa.Value) []*State {
	t := e.val(st, v)
	if t.op != OAlt {
		return []*State{st}
	}
	var out []*State
	for i, a := range t.args {
		s := st
		if i < len(t.args)-1 {
			s = st.clone()
		}
		e.replaceEverywhere(s, t, a)
		out = append(out, s)
	}
	return out
}

// needPtr checks a pointer before it is dereferenced.
func (e *Engine) needPtr(st *State, p *Term, fn *ssa.Function, pos token.Pos) (ok bool, r Ret) {
	switch e.isNil(st, p) {
	case 1:
		e.event("panic", pos, fn, "nil dereference of "+p.Path(), st)
		return false, Ret{st: st, val: p, kind: RPanic, pos: pos, msg: "nil dereference", fn: fn}
	case -1:
		if p.op != OUnk {
			e.event("maynil", pos, fn, p.Path(), st)
			if !p.unk() {
				st.facts[e.T.mk(OCall, "isnil", nil, types.Typ[types.Bool], nil, p)] = false
			}
		}
	}
	return true, Ret{}
}

func (e *Engine) alloc(st *State, in ssa.Instruction, o *Obj) string {
	c := e.cfgOf(in.Parent())
	id := st.env.ctx + "." + strconv.Itoa(c.number[in])
	for st.heap[id] != nil && !st.heap[id].summary && e.stillHeld(st, id) {
		id += "'"
		if strings.HasSuffix(id, "''''''''") {
			break
		}
	}
	st.heap[id] = o
	return id
}

func (e *Engine) stillHeld(st *State, id string) bool { return true }

func (e *Engine) instr(fn *ssa.Function, in ssa.Instruction, st *State) ([]*State, []Ret) {
	one := func() ([]*State, []Ret) { return []*State{st}, nil }
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one()
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := e.alloc(st, in, &Obj{kind: KCell, val: e.zero(t), typ: t})
		e.bind(st, x, e.T.Ptr(id, x.Type()))
		return one()
	case *ssa.BinOp:
		return e.binop(fn, x, st)
	case *ssa.UnOp:
		return e.unop(fn, x, st)
	case *ssa.ChangeType:
		e.bind(st, x, e.val(st, x.X))
		return one()
	case *ssa.ChangeInterface:
		e.bind(st, x, e.val(st, x.X))
		return one()
	case *ssa.Convert:
		e.bind(st, x, e.convert(st, e.val(st, x.X), x.X.Type(), x.Type()))
		return one()
	case *ssa.MultiConvert:
		e.bind(st, x, e.T.Unk("multiconvert", x.Type()))
		return one()
	case *ssa.SliceToArrayPointer:
		e.bind(st, x, e.T.Unk("slicetoarray", x.Type()))
		return one()
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		if v.op == OUnk {
			e.bind(st, x, e.T.Unk(v.s, x.Type()))
		} else if v.op == OAlt {
			xs := make([]*Term, len(v.args))
			for i, a := range v.args {
				xs[i] = e.T.Iface(x.X.Type(), a)
			}
			e.bind(st, x, e.T.Alt(xs...))
		} else {
			e.bind(st, x, e.T.Iface(x.X.Type(), v))
		}
		return one()
	case *ssa.MakeClosure:
		xs := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			xs[i] = e.val(st, b)
		}
		e.bind(st, x, e.T.mk(OClosure, "", nil, x.Type(), x.Fn.(*ssa.Function), xs...))
		return one()
	case *ssa.MakeMap:
		id := e.alloc(st, in, &Obj{kind: KMap, typ: x.Type()})
		e.bind(st, x, e.T.Ptr(id, x.Type()))
		return one()
	case *ssa.MakeSlice:
		n := e.val(st, x.Len)
		if k, ok := n.isInt(); ok && k <= 64 {
			if isByteSlice(x.Type()) && k > 0 {
				e.bind(st, x, e.T.mk(OCall, "make", nil, x.Type(), nil, n))
				return one()
			}
			z := e.zero(x.Type().Underlying().(*types.Slice).Elem())
			xs := make([]*Term, k)
			for i := range xs {
				xs[i] = e.T.Item(z)
			}
			e.bind(st, x, e.catParts(xs))
			return one()
		}
		e.bind(st, x, e.T.mk(OCall, "make", nil, x.Type(), nil, n))
		return one()
	case *ssa.MakeChan, *ssa.Select:
		e.bind(st, x.(ssa.Value), e.T.Unk("chan", x.(ssa.Value).Type()))
		return one()
	case *ssa.Slice:
		return e.sliceInstr(fn, x, st)
	case *ssa.FieldAddr:
		var out []*State
		var rets []Ret
		for _, s := range e.split(st, x.X) {
			p := e.val(s, x.X)
			ok, r := e.needPtr(s, p, fn, x.Pos())
			if !ok {
				rets = append(rets, r)
				continue
			}
			if p.op == OUnk {
				e.bind(s, x, e.T.Unk(p.s, x.Type()))
			} else {
				e.bind(s, x, e.faddr(p, x.X.Type(), x.Field))
			}
			out = append(out, s)
		}
		return out, rets
	case *ssa.Field:
		st2, _ := under(x.X.Type()).(*types.Struct)
		e.bind(st, x, e.fld(e.val(st, x.X), st2, x.Field))
		return one()
	case *ssa.IndexAddr:
		var out []*State
		var rets []Ret
		for _, s := range e.split(st, x.X) {
			b, i := e.val(s, x.X), e.val(s, x.Index)
			if p, ok := under(x.X.Type()).(*types.Pointer); ok {
				e.bind(s, x, e.T.mk(OEAddr, "arr", nil, p.Elem(), nil, b, i))
				out = append(out, s)
				continue
			}
			if r := e.bounds(s, b, i, fn, x.Pos()); r != nil {
				rets = append(rets, *r)
				continue
			}
			if b.op == OUnk {
				e.bind(s, x, e.T.Unk(b.s, x.Type()))
			} else {
				e.bind(s, x, e.T.mk(OEAddr, "", nil, x.X.Type(), nil, b, i))
			}
			out = append(out, s)
		}
		return out, rets
	case *ssa.Index:
		b, i := e.val(st, x.X), e.val(st, x.Index)
		if r := e.bounds(st, b, i, fn, x.Pos()); r != nil {
			return nil, []Ret{*r}
		}
		e.bind(st, x, e.index(st, b, i, x.Type()))
		return one()
	case *ssa.Lookup:
		return e.lookupInstr(fn, x, st)
	case *ssa.Range:
		v := e.val(st, x.X)
		id := e.alloc(st, in, &Obj{kind: KIter, val: v, typ: x.X.Type()})
		e.bind(st, x, e.T.mk(OIter, id, nil, x.Type(), nil))
		return one()
	case *ssa.Next:
		return e.nextInstr(fn, x, st)
	case *ssa.TypeAssert:
		var out []*State
		var rets []Ret
		for _, s := range e.split(st, x.X) {
			o, r := e.typeAssert(fn, x, s)
			out = append(out, o...)
			rets = append(rets, r...)
		}
		return out, rets
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		switch t.op {
		case OTuple:
			if x.Index < len(t.args) {
				e.bind(st, x, t.args[x.Index])
				return one()
			}
		case OAlt:
			var xs []*Term
			for _, a := range t.args {
				if a.op == OTuple {
					xs = append(xs, a.args[x.Index])
				} else {
					xs = append(xs, e.T.Unk("extract", x.Type()))
				}
			}
			e.bind(st, x, e.T.Alt(xs...))
			return one()
		}
		e.bind(st, x, e.T.Unk("extract:"+t.s, x.Type()))
		return one()
	case *ssa.Store:
		var out []*State
		var rets []Ret
		for _, s := range e.split(st, x.Addr) {
			a := e.val(s, x.Addr)
			ok, r := e.needPtr(s, a, fn, x.Pos())
			if !ok {
				rets = append(rets, r)
				continue
			}
			e.store(s, a, e.val(s, x.Val), x.Val.Type(), x.Pos(), fn)
			out = append(out, s)
		}
		return out, rets
	case *ssa.MapUpdate:
		var out []*State
		var rets []Ret
		for _, s := range e.split(st, x.Map) {
			m := e.val(s, x.Map)
			ok, r := e.needPtr(s, m, fn, x.Pos())
			if !ok {
				r.msg = "assignment to entry in nil map"
				rets = append(rets, r)
				continue
			}
			e.mapSet(s, m, e.val(s, x.Key), e.val(s, x.Value), x.Map.Type(), fn, x.Pos())
			out = append(out, s)
		}
		return out, rets
	case *ssa.Defer:
		d := deferred{call: &x.Call, pos: x}
		if x.Call.IsInvoke() {
			d.fn = e.val(st, x.Call.Value)
		} else {
			d.fn = e.val(st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(st, a))
		}
		st.env.defers = append(append([]deferred{}, st.env.defers...), d)
		return one()
	case *ssa.RunDefers:
		cur := []*State{st}
		var rets []Ret
		ds := st.env.defers
		st.env.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*State
			for _, s := range cur {
				for _, r := range e.invoke(s, fn, x, ds[i].call, ds[i].fn, ds[i].args) {
					if r.kind == RReturn {
						next = append(next, r.st)
					} else {
						rets = append(rets, r)
					}
				}
			}
			cur = next
		}
		return cur, rets
	case *ssa.Go:
		st.opaque = &Note{nil, e.P.pos(x.Pos()) + ": goroutine"}
		return one()
	case *ssa.Send:
		return one()
	case *ssa.Call:
		return e.callInstr(fn, x, st)
	}
	if v, ok := in.(ssa.Value); ok {
		e.bind(st, v, e.T.Unk("instr", v.Type()))
	}
	return one()
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// bounds reports a definite out-of-range index.
func (e *Engine) bounds(st *State, b, i *Term, fn *ssa.Function, pos token.Pos) *Ret {
	if b.op == OUnk || i.op == OUnk {
		return nil
	}
	n := e.length(st, b)
	if e.evalLt(st, i, e.T.Int(0)) == 1 || e.evalLt(st, i, n) == 0 {
		e.event("panic", pos, fn, "index out of range: "+b.Path()+"["+i.Path()+"]", st)
		return &Ret{st: st, val: i, kind: RPanic, pos: pos, msg: "index out of range", fn: fn}
	}
	if e.evalLt(st, i, n) != 1 && !b.unk() && !i.unk() && i.has&2 == 0 {
		e.event("maybounds", pos, fn, b.Path()+"["+i.Path()+"]", st)
	}
	return nil
}

func (e *Engine) binop(fn *ssa.Function, x *ssa.BinOp, st *State) ([]*State, []Ret) {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		if a.op == OUnk || b.op == OUnk {
			u := a
			if u.op != OUnk {
				u = b
			}
			if (x.Op == token.EQL || x.Op == token.NEQ) && a.op != OUnk {
				u = b
			}
			e.bind(st, x, e.T.Unk(u.s, x.Type()))
			return []*State{st}, nil
		}
		c := e.structEq(st, x, a, b)
		if c == nil {
			c = e.cmp(x.Op, a, b)
		}
		switch e.decide(st, c) {
		case 1:
			c = e.T.Bool(true)
		case 0:
			c = e.T.Bool(false)
		}
		e.bind(st, x, c)
		return []*State{st}, nil
	case token.ADD:
		if bt, ok := under(x.Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			e.bind(st, x, e.cat(a, b))
			return []*State{st}, nil
		}
	}
	e.bind(st, x, e.arith(x.Op.String(), a, b, x.Type()))
	return []*State{st}, nil
}

func (e *Engine) cat(xs ...*Term) *Term {
	r := e.T.Cat(xs...)
	if r.op == OCat && len(r.args) == 0 {
		return e.T.Str("")
	}
	return r
}

// structEq compares struct values fieldwise.
func (e *Engine) structEq(st *State, x *ssa.BinOp, a, b *Term) *Term {
	s, ok := under(x.X.Type()).(*types.Struct)
	if !ok || (x.Op != token.EQL && x.Op != token.NEQ) {
		return nil
	}
	xa, xb := e.expand(a, x.X.Type()), e.expand(b, x.X.Type())
	if xa.op != OStruct || xb.op != OStruct {
		return nil
	}
	r := 1
	for i := 0; i < s.NumFields(); i++ {
		switch e.evalEq(st, xa.args[i], xb.args[i]) {
		case 0:
			return e.T.Bool(x.Op == token.NEQ)
		case -1:
			r = -1
		}
	}
	if r == 1 {
		return e.T.Bool(x.Op == token.EQL)
	}
	return nil
}

func (e *Engine) unop(fn *ssa.Function, x *ssa.UnOp, st *State) ([]*State, []Ret) {
	switch x.Op {
	case token.MUL:
		var out []*State
		var rets []Ret
		for _, s := range e.split(st, x.X) {
			p := e.val(s, x.X)
			if p.op != OPtr {
				ok, r := e.needPtr(s, p, fn, x.Pos())
				if !ok {
					rets = append(rets, r)
					continue
				}
			}
			e.bind(s, x, e.load(s, p, x.Type()))
			out = append(out, s)
		}
		return out, rets
	case token.NOT:
		v := e.val(st, x.X)
		if v.op == OUnk {
			e.bind(st, x, v)
		} else if v.op == OAlt {
			xs := make([]*Term, len(v.args))
			for i, a := range v.args {
				xs[i] = e.T.Not(a)
			}
			e.bind(st, x, e.T.Alt(xs...))
		} else {
			e.bind(st, x, e.T.Not(v))
		}
	case token.SUB:
		v := e.val(st, x.X)
		e.bind(st, x, e.arith("-", e.T.Int(0), v, x.Type()))
	case token.ARROW:
		e.bind(st, x, e.T.Unk("recv", x.Type()))
	default:
		v := e.val(st, x.X)
		if v.op == OConst && isNum(v.c) {
			e.bind(st, x, e.T.Const(constant.UnaryOp(x.Op, v.c, 0), x.Type()))
		} else {
			e.bind(st, x, e.T.Call("unop"+x.Op.String(), x.Type(), v))
		}
	}
	return []*State{st}, nil
}

// fitsInt says whether every value of the type is a signed integer of so many bits.
func fitsInt(t types.Type, bits int) bool {
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	n, signed := intSize(b)
	return n > 0 && (signed && n <= bits || !signed && n < bits)
}

func intSize(b *types.Basic) (bits int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// wrapInt is the integer that an integer conversion of the constant gives.
func wrapInt(c constant.Value, bits int, signed bool) constant.Value {
	if c = constant.ToInt(c); c.Kind() != constant.Int || bits <= 0 {
		return nil
	}
	m := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	x, ok := new(big.Int).SetString(c.ExactString(), 10)
	y, ok2 := new(big.Int).SetString(m.ExactString(), 10)
	if !ok || !ok2 {
		return nil
	}
	x.Mod(x, y)
	if signed && x.Bit(bits-1) == 1 {
		x.Sub(x, y)
	}
	w := constant.MakeFromLiteral(new(big.Int).Abs(x).String(), token.INT, 0)
	if x.Sign() < 0 {
		w = constant.UnaryOp(token.SUB, w, 0)
	}
	return w
}

// roundFloat is the nearest floating point number of the kind.
func roundFloat(c constant.Value, k types.BasicKind) constant.Value {
	if k == types.Float32 {
		if f, _ := constant.Float32Val(constant.ToFloat(c)); !math.IsInf(float64(f), 0) {
			return constant.ToFloat(constant.MakeFloat64(float64(f)))
		}
	} else if f, _ := constant.Float64Val(constant.ToFloat(c)); !math.IsInf(f, 0) {
		return constant.ToFloat(constant.MakeFloat64(f))
	}
	return constant.ToFloat(c)
}

func (e *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	if v.op == OUnk {
		return e.T.Unk(v.s, to)
	}
	if v.op == OAlt {
		xs := make([]*Term, len(v.args))
		for i, a := range v.args {
			xs[i] = e.convert(st, a, from, to)
		}
		return e.T.Alt(xs...)
	}
	fb, fok := under(from).(*types.Basic)
	tb, tok := under(to).(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if n, ok := v.isInt(); ok {
				return e.T.Str(string(rune(n)))
			}
			return e.T.Call("runestr", to, v)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			fs, fsg := intSize(fb)
			ts, tsg := intSize(tb)
			if v.op == OConst {
				if w := wrapInt(v.c, ts, tsg); w != nil {
					if constant.Compare(w, token.EQL, v.c) {
						return v
					}
					return e.T.Const(w, to)
				}
			}
			if ts > fs && (tsg || !fsg) || ts == fs && tsg == fsg {
				return v
			}
			if nonneg(v) && ts >= 64 || v.op == OSym && tsg && fitsInt(v.t, ts) {
				return v
			}
			return e.T.Call("conv:"+tb.Name(), to, v)
		case fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsFloat != 0:
			if v.op == OConst {
				if fb.Info()&types.IsInteger != 0 || tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
					return e.T.Const(roundFloat(v.c, tb.Kind()), to)
				}
				return e.T.Const(constant.ToFloat(v.c), to)
			}
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return e.T.Call("conv:float32", to, v)
			}
			return v
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			if v.op == OConst {
				ts, tsg := intSize(tb)
				f, _ := constant.Float64Val(constant.ToFloat(v.c))
				if c := constant.ToInt(constant.MakeFloat64(math.Trunc(f))); c.Kind() == constant.Int {
					if w := wrapInt(c, ts, tsg); w != nil && constant.Compare(w, token.EQL, c) {
						return e.T.Const(c, to)
					} else if w != nil && ts < 64 { // out of range: not the number, on no machine
						return e.T.Const(constant.MakeInt64(-1<<(ts-1)), to)
					}
				}
			}
			return e.T.Call("conv:"+tb.Name(), to, v)
		}
		return v
	}
	// string <-> []byte / []rune
	if tok && tb.Info()&types.IsString != 0 {
		if isByteSlice(from) {
			if v.op == ONil {
				return e.T.Str("")
			}
			if v.op == OCat || v.op == OItem {
				// explicit bytes
				ok := true
				var bs []byte
				for _, p := range parts(v) {
					if p.op != OItem {
						ok = false
						break
					}
					n, isc := p.args[0].isInt()
					if !isc {
						ok = false
						break
					}
					bs = append(bs, byte(n))
				}
				if ok {
					return e.T.Str(string(bs))
				}
			}
			return v
		}
		return e.T.Call("runes2str", to, v)
	}
	if fok && fb.Info()&types.IsString != 0 {
		if isByteSlice(to) {
			return v
		}
		if v.op == OConst {
			s, _ := v.isStr()
			var xs []*Term
			for _, r := range s {
				xs = append(xs, e.T.Item(e.T.Int(int64(r))))
			}
			return e.catParts(xs)
		}
		return e.T.Call("runes", to, v)
	}
	return v
}

func (e *Engine) sliceInstr(fn *ssa.Function, x *ssa.Slice, st *State) ([]*State, []Ret) {
	v := e.val(st, x.X)
	if p, ok := under(x.X.Type()).(*types.Pointer); ok {
		// slicing an array
		av := e.load(st, v, p.Elem())
		at := under(p.Elem()).(*types.Array)
		if av.op == OZero {
			xs := make([]*Term, 0)
			if at.Len() <= 64 {
				for i := int64(0); i < at.Len(); i++ {
					xs = append(xs, e.T.Item(e.zero(at.Elem())))
				}
			}
			e.bind(st, x, e.catParts(xs))
			return []*State{st}, nil
		}
		if av.op == OArr && x.Low == nil && x.High == nil {
			xs := make([]*Term, len(av.args))
			for i, a := range av.args {
				xs[i] = e.T.Item(a)
			}
			e.bind(st, x, e.catParts(xs))
			return []*State{st}, nil
		}
		e.bind(st, x, e.T.Unk("slicearray", x.Type()))
		return []*State{st}, nil
	}
	lo, hi := e.T.Int(0), e.T.Nil()
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	r, ret := e.slice(st, v, lo, hi, x.Type(), fn, x.Pos())
	if ret != nil {
		return nil, []Ret{*ret}
	}
	e.bind(st, x, r)
	return []*State{st}, nil
}

func (e *Engine) slice(st *State, v, lo, hi *Term, t types.Type, fn *ssa.Function, pos token.Pos) (*Term, *Ret) {
	if v.op == OUnk || lo.op == OUnk || hi.op == OUnk {
		return e.T.Unk("slice", t), nil
	}
	bad := func(what string) (*Term, *Ret) {
		e.event("panic", pos, fn, "slice bounds out of range: "+what, st)
		return nil, &Ret{st: st, val: v, kind: RPanic, pos: pos, msg: "slice bounds out of range", fn: fn}
	}
	n := e.length(st, v)
	if hi.op == OConst || lo.op == OConst {
		h := hi
		if h.op == ONil {
			h = lo
		}
		if e.evalLt(st, n, h) == 1 {
			return bad(v.Path() + "[" + lo.Path() + ":" + hi.Path() + "]")
		}
		if e.evalLt(st, n, h) == -1 && !v.unk() && !h.unk() {
			e.event("maybounds", pos, fn, v.Path()+"["+lo.Path()+":"+hi.Path()+"]", st)
		}
	}
	if e.evalLt(st, lo, e.T.Int(0)) == 1 {
		return bad("negative low bound")
	}
	if hi.op != ONil && e.evalLt(st, hi, e.T.Int(0)) == 1 {
		return bad("negative high bound")
	}
	if hi.op != ONil && e.evalEq(st, hi, n) == 1 {
		hi = e.T.Nil()
	}
	l, lok := lo.isInt()
	h, hok := hi.isInt()
	if lok && l == 0 && hi.op == ONil {
		return v, nil
	}
	if s, ok := v.isStr(); ok && lok {
		if hi.op == ONil {
			return e.T.Str(s[l:]), nil
		}
		if hok && l <= h && int(h) <= len(s) {
			return e.T.Str(s[l:h]), nil
		}
	}
	if v.op == OAlt {
		xs := make([]*Term, len(v.args))
		for i, a := range v.args {
			r, ret := e.slice(st, a, lo, hi, t, fn, pos)
			if ret != nil {
				r = e.T.Unk("slicealt", t)
			}
			xs[i] = r
		}
		return e.T.Alt(xs...), nil
	}
	// cut constant/known prefixes and suffixes
	ps := append([]*Term{}, parts(v)...)
	if lok && len(ps) > 1 {
		rem := l
		h2, h2ok := h, hok
		for rem > 0 && len(ps) > 0 {
			if s, ok := ps[0].isStr(); ok {
				if int64(len(s)) <= rem {
					rem -= int64(len(s))
					ps = ps[1:]
					continue
				}
				ps[0] = e.T.Str(s[rem:])
				rem = 0
				continue
			}
			if ps[0].op == OItem {
				rem--
				ps = ps[1:]
				continue
			}
			break
		}
		if rem == 0 {
			if hi.op == ONil {
				r := e.catParts(ps)
				if len(ps) == 0 && !isItemSeq(v) {
					return e.T.Str(""), nil
				}
				return r, nil
			}
			if h2ok {
				need := h2 - l
				var out []*Term
				ok := true
				for need > 0 && len(ps) > 0 {
					if s, isS := ps[0].isStr(); isS {
						if int64(len(s)) >= need {
							out = append(out, e.T.Str(s[:need]))
							need = 0
						} else {
							out = append(out, ps[0])
							need -= int64(len(s))
							ps = ps[1:]
						}
						continue
					}
					if ps[0].op == OItem {
						out = append(out, ps[0])
						need--
						ps = ps[1:]
						continue
					}
					ok = false
					break
				}
				if ok && need == 0 {
					return e.catParts(out), nil
				}
			}
			// hi = len(v)-k
			if hi.op != ONil {
				l2 := e.lin(n)
				e.linAdd(l2, hi, -1)
				if len(l2.m) == 0 {
					if k, ok := constant.Int64Val(constant.ToInt(l2.c)); ok {
						for k > 0 && len(ps) > 0 {
							last := ps[len(ps)-1]
							if s, isS := last.isStr(); isS {
								if int64(len(s)) <= k {
									k -= int64(len(s))
									ps = ps[:len(ps)-1]
								} else {
									ps[len(ps)-1] = e.T.Str(s[:int64(len(s))-k])
									k = 0
								}
								continue
							}
							if last.op == OItem {
								k--
								ps = ps[:len(ps)-1]
								continue
							}
							break
						}
						if k == 0 {
							return e.catParts(ps), nil
						}
					}
				}
			}
		}
	}
	if v.op == OItem && lok {
		if l >= 1 {
			return e.catParts(nil), nil
		}
		if hok && h == 0 {
			return e.catParts(nil), nil
		}
		return v, nil
	}
	// x[:i] with i = index(x, sep)
	if hi.op == OCall && hi.s == "index" && hi.args[0] == v && lok && l == 0 {
		return e.T.Call("before", t, v, hi.args[1]), nil
	}
	if hi.op == OCall && hi.s == "lastindex" && hi.args[0] == v && lok && l == 0 {
		return e.T.Call("beforelast", t, v, hi.args[1]), nil
	}
	if hi.op == ONil {
		ll := e.lin(lo)
		if len(ll.m) == 1 {
			for a, k := range ll.m {
				if k == 1 && a.op == OCall && (a.s == "index" || a.s == "lastindex") && a.args[0] == v {
					if s, ok := a.args[1].isStr(); ok {
						if c, ok := constant.Int64Val(constant.ToInt(ll.c)); ok && int(c) == len(s) {
							if a.s == "index" {
								return e.T.Call("after", t, v, a.args[1]), nil
							}
							return e.T.Call("afterlast", t, v, a.args[1]), nil
						}
					}
				}
				// v = P + rest, lo = len(P)
				if k == 1 && a.op == OCall && a.s == "len" && constant.Sign(ll.c) == 0 && len(ps) > 0 && ps[0] == a.args[0] {
					return e.catParts(ps[1:]), nil
				}
			}
		}
	}
	if all := parts(v); len(all) > 1 {
		mid, ok := all, true
		if hi.op != ONil {
			mid, _, ok = e.cutAt(st, mid, hi)
		}
		if ok && !(lok && l == 0) {
			_, mid, ok = e.cutAt(st, mid, lo)
		}
		if ok {
			if len(mid) == 0 && !isItemSeq(v) {
				return e.T.Str(""), nil
			}
			return e.catParts(mid), nil
		}
	}
	return e.T.Call("slice", t, v, lo, hi), nil
}

// cutAt splits a sequence where its length is n.
func (e *Engine) cutAt(st *State, ps []*Term, n *Term) (l, r []*Term, ok bool) {
	rest := e.lin(n)
	for i := 0; ; i++ {
		if len(rest.m) == 0 {
			if k, exact := constant.Int64Val(constant.ToInt(rest.c)); exact && k >= 0 {
				if k == 0 {
					return ps[:i:i], ps[i:], true
				}
				if i < len(ps) {
					if s, is := ps[i].isStr(); is && k < int64(len(s)) {
						return append(ps[:i:i], e.T.Str(s[:k])), append([]*Term{e.T.Str(s[k:])}, ps[i+1:]...), true
					}
				}
			}
		}
		if i >= len(ps) {
			return nil, nil, false
		}
		e.linAdd(rest, e.length(st, ps[i]), -1)
	}
}

func isItemSeq(t *Term) bool {
	for _, p := range parts(t) {
		if p.op == OItem {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- maps

func (e *Engine) mapObj(st *State, m *Term, mt types.Type) (string, *Obj) {
	if m.op == OPtr {
		o := e.obj(st, m)
		return m.s, o
	}
	k := inKey(m)
	return k, st.heap[k]
}

func (e *Engine) mapSet(st *State, m, k, v *Term, mt types.Type, fn *ssa.Function, pos token.Pos) {
	if m.op == OUnk || m.op == OAlt {
		return
	}
	id, o := e.mapObj(st, m, mt)
	if m.op != OPtr {
		e.event("mutate", pos, fn, m.Path()+"[…]", st)
		if o == nil {
			o = &Obj{kind: KMap, typ: mt, val: m}
		}
	}
	if o == nil {
		return
	}
	if strings.HasPrefix(id, "g:") && !e.initing {
		e.event("global", pos, fn, id, st)
	}
	if strings.HasPrefix(id, "m:") && !e.building {
		e.event("mutate", pos, fn, id, st)
	}
	n := *o
	n.ents = nil
	done := false
	for _, en := range o.ents {
		r := e.evalEq(st, en.k, k)
		if en.k == k && !k.unk() {
			r = 1
		}
		switch {
		case r == 1 && !o.summary:
			n.ents = append(n.ents, Ent{k, v, true})
			done = true
		case r == 0:
			n.ents = append(n.ents, en)
		default:
			var vt types.Type
			if mm, ok := under(mt).(*types.Map); ok {
				vt = mm.Elem()
			}
			if en.k == k {
				n.ents = append(n.ents, Ent{k, e.join(en.v, v, vt, nil), en.must})
				done = true
			} else {
				n.ents = append(n.ents, en)
			}
		}
	}
	if !done {
		n.ents = append(n.ents, Ent{k, v, !o.summary})
	}
	if len(n.ents) > 80 {
		e.overflow++
	}
	st.heap[id] = &n
}

func (e *Engine) mapDelete(st *State, m, k *Term, mt types.Type, fn *ssa.Function, pos token.Pos) {
	id, o := e.mapObj(st, m, mt)
	if o == nil {
		if m.op != OPtr && m.op != ONil {
			e.event("mutate", pos, fn, "delete "+m.Path()+"[…]", st)
		}
		return
	}
	n := *o
	n.ents = nil
	for _, en := range o.ents {
		switch e.evalEq(st, en.k, k) {
		case 1:
		case 0:
			n.ents = append(n.ents, en)
		default:
			n.ents = append(n.ents, Ent{en.k, en.v, false})
		}
	}
	st.heap[id] = &n
}

type lookRes struct {
	st  *State
	v   *Term
	has *Term
}

func (e *Engine) lookup(st *State, m, k *Term, mt types.Type, fn *ssa.Function, pos token.Pos) []lookRes {
	mm, _ := under(mt).(*types.Map)
	vt := mm.Elem()
	if m.op == ONil {
		return []lookRes{{st, e.zero(vt), e.T.Bool(false)}}
	}
	if m.op == OUnk {
		return []lookRes{{st, e.T.Unk("lookup", vt), e.T.Unk("lookup", types.Typ[types.Bool])}}
	}
	_, o := e.mapObj(st, m, mt)
	if m.op == OPtr && o == nil {
		return []lookRes{{st, e.T.Unk("lookup", vt), e.T.Unk("lookup", types.Typ[types.Bool])}}
	}
	var out []lookRes
	if o != nil {
		for i := len(o.ents) - 1; i >= 0; i-- {
			en := o.ents[i]
			r := e.evalEq(st, en.k, k)
			if en.k == k && !k.unk() && !(k.op == OIdx) {
				r = 1
				if strings.HasSuffix(k.Path(), "*") && k.has&2 != 0 {
					r = -1
				}
			}
			if r == 0 {
				continue
			}
			if r == 1 && en.must {
				return append(out, lookRes{st, en.v, e.T.Bool(true)})
			}
			// may match
			s2 := st.clone()
			if !en.k.unk() && !k.unk() && en.k != k {
				e.assume(s2, e.eqTerm(en.k, k), true, fn, pos)
				if en.must {
					e.assume(st, e.eqTerm(en.k, k), false, fn, pos)
				}
			} else if (en.k.unk() || k.unk()) && s2.opaque == nil {
				s2.opaque = &Note{nil, e.P.pos(pos) + ": map key " + k.Path()}
			}
			out = append(out, lookRes{s2, en.v, e.T.Bool(true)})
		}
		if o.val == nil {
			return append(out, lookRes{st, e.zero(vt), e.T.Bool(false)})
		}
		m = o.val
	}
	has := e.T.pinned(e.T.mk(OHas, "", nil, types.Typ[types.Bool], nil, m, k))
	v := e.look(m, k, vt)
	if k.op == OCall && k.s == "key" && k.args[0] == m {
		return append(out, lookRes{st, v, e.T.Bool(true)})
	}
	switch e.decide(st, has) {
	case 0:
		return append(out, lookRes{st, e.zero(vt), e.T.Bool(false)})
	case 1:
		return append(out, lookRes{st, v, e.T.Bool(true)})
	}
	return append(out, lookRes{st, v, has})
}

func (e *Engine) look(m, k *Term, vt types.Type) *Term {
	x := e.T.mk(OLook, "", nil, vt, nil, m, k)
	if x.t == nil {
		x.t = vt
	}
	return e.T.pinned(x)
}

func (e *Engine) lookupInstr(fn *ssa.Function, x *ssa.Lookup, st *State) ([]*State, []Ret) {
	if _, ok := under(x.X.Type()).(*types.Map); !ok {
		b, i := e.val(st, x.X), e.val(st, x.Index)
		if r := e.bounds(st, b, i, fn, x.Pos()); r != nil {
			return nil, []Ret{*r}
		}
		e.bind(st, x, e.index(st, b, i, x.Type()))
		return []*State{st}, nil
	}
	var out []*State
	for _, s0 := range e.split(st, x.X) {
		for _, s := range e.split(s0, x.Index) {
			for _, r := range e.lookup(s, e.val(s, x.X), e.val(s, x.Index), x.X.Type(), fn, x.Pos()) {
				vt := under(x.X.Type()).(*types.Map).Elem()
				if x.CommaOk {
					if r.has.op != OConst && !r.has.unk() {
						t, f := e.branch(r.st, r.has, fn, x.Pos())
						for _, q := range t {
							e.bind(q, x, e.T.Tuple(r.v, e.T.Bool(true)))
							out = append(out, q)
						}
						for _, q := range f {
							e.bind(q, x, e.T.Tuple(e.zero(vt), e.T.Bool(false)))
							out = append(out, q)
						}
						continue
					}
					e.bind(r.st, x, e.T.Tuple(r.v, r.has))
					out = append(out, r.st)
					continue
				}
				if r.has.op != OConst && !r.has.unk() {
					t, f := e.branch(r.st, r.has, fn, x.Pos())
					for _, q := range t {
						e.bind(q, x, r.v)
						out = append(out, q)
					}
					for _, q := range f {
						e.bind(q, x, e.zero(vt))
						out = append(out, q)
					}
					continue
				}
				e.bind(r.st, x, r.v)
				out = append(out, r.st)
			}
		}
	}
	return out, nil
}

func (e *Engine) nextInstr(fn *ssa.Function, x *ssa.Next, st *State) ([]*State, []Ret) {
	it := e.val(st, x.Iter)
	o := st.heap[it.s]
	tt := x.Type().(*types.Tuple)
	if o == nil || o.kind != KIter {
		e.bind(st, x, e.T.Tuple(e.T.Unk("iter", types.Typ[types.Bool]), e.T.Unk("iter", tt.At(1).Type()), e.T.Unk("iter", tt.At(2).Type())))
		return []*State{st}, nil
	}
	inst := it.s
	for _, li := range e.loops {
		li.insts[inst] = true
	}
	if x.IsString {
		s := o.val
		if c, ok := s.isStr(); ok {
			rs := []rune(c)
			offs := []int{}
			for i := range c {
				offs = append(offs, i)
			}
			n := *o
			n.next++
			st.heap[it.s] = &n
			if o.next < len(rs) {
				e.bind(st, x, e.T.Tuple(e.T.Bool(true), e.T.Int(int64(offs[o.next])), e.T.Int(int64(rs[o.next]))))
			} else {
				e.bind(st, x, e.T.Tuple(e.T.Bool(false), e.T.Int(0), e.T.Int(0)))
			}
			return []*State{st}, nil
		}
		if txt, ok := renderTerm(s); ok {
			// a generic name: as many characters as its label
			n := *o
			n.next++
			st.heap[it.s] = &n
			if o.next < len(txt) {
				i := e.T.Int(int64(o.next))
				e.bind(st, x, e.T.Tuple(e.T.Bool(true), i, e.T.Call("rune", tt.At(2).Type(), s, i)))
			} else {
				e.bind(st, x, e.T.Tuple(e.T.Bool(false), e.T.Int(0), e.T.Int(0)))
			}
			return []*State{st}, nil
		}
		ph := "first"
		cond := e.T.Not(e.emptyTerm(s))
		if o.next > 0 {
			ph = "next"
			cond = e.T.Unk("more runes", types.Typ[types.Bool])
			cond = e.T.Call("more", types.Typ[types.Bool], s, e.idx(inst, "next", 1))
		}
		n := *o
		n.next = 1
		st.heap[it.s] = &n
		i := e.idx(inst, ph, int64(o.next))
		t, f := e.branch(st, cond, fn, x.Pos())
		var out []*State
		for _, q := range t {
			e.bind(q, x, e.T.Tuple(e.T.Bool(true), i, e.T.Call("rune", tt.At(2).Type(), s, i)))
			out = append(out, q)
		}
		for _, q := range f {
			e.bind(q, x, e.T.Tuple(e.T.Bool(false), e.T.Int(0), e.T.Int(0)))
			out = append(out, q)
		}
		return out, nil
	}
	m := o.val
	mt := under(o.typ).(*types.Map)
	kz, vz := e.zero(mt.Key()), e.zero(mt.Elem())
	fin := func(s *State) { e.bind(s, x, e.T.Tuple(e.T.Bool(false), kz, vz)) }
	if m.op == ONil {
		fin(st)
		return []*State{st}, nil
	}
	_, mo := e.mapObj(st, m, o.typ)
	if mo != nil && mo.val == nil && !e.detMode && !mo.summary {
		must := true
		for _, en := range mo.ents {
			must = must && en.must && !en.k.unk() && !(en.k.has&2 != 0)
		}
		if must {
			n := *o
			n.next++
			st.heap[it.s] = &n
			if o.next < len(mo.ents) {
				i := o.next
				switch {
				case e.sc != nil && e.sc.mapOrder == 1:
					i = len(mo.ents) - 1 - i
				case e.sc != nil && e.sc.mapOrder == 2:
					i = (i + 1) % len(mo.ents)
				}
				en := mo.ents[i]
				e.bind(st, x, e.T.Tuple(e.T.Bool(true), en.k, en.v))
			} else {
				fin(st)
			}
			return []*State{st}, nil
		}
	}
	for _, li := range e.loops[max(0, len(e.loops)-1):] {
		li.unordered = true
	}
	ph := "first"
	cond := e.emptyTerm(m)
	if o.next > 0 {
		ph = "next"
		cond = e.T.Call("done", types.Typ[types.Bool], m, e.idx(inst, "next", 1))
	}
	n := *o
	n.next = 1
	st.heap[it.s] = &n
	i := e.idx(inst, ph, int64(o.next))
	var out []*State
	done, more := e.branch(st, cond, fn, x.Pos())
	for _, q := range done {
		fin(q)
		out = append(out, q)
	}
	for _, q := range more {
		if mo != nil {
			// any of the entries, or one of the underlying map's
			for _, en := range mo.ents {
				s := q.clone()
				e.bind(s, x, e.T.Tuple(e.T.Bool(true), en.k, en.v))
				out = append(out, s)
			}
			if mo.val == nil {
				continue
			}
			m = mo.val
		}
		k := e.T.mk(OCall, "key", nil, mt.Key(), nil, m, i)
		e.bind(q, x, e.T.Tuple(e.T.Bool(true), k, e.look(m, k, mt.Elem())))
		out = append(out, q)
	}
	return out, nil
}

// ---------------------------------------------------------------- type assertions

func (e *Engine) typeAssert(fn *ssa.Function, x *ssa.TypeAssert, st *State) ([]*State, []Ret) {
	v := e.val(st, x.X)
	t := x.AssertedType
	if v.op == OUnk {
		if x.CommaOk {
			e.bind(st, x, e.T.Tuple(e.T.Unk(v.s, t), e.T.Unk(v.s, types.Typ[types.Bool])))
		} else {
			e.bind(st, x, e.T.Unk(v.s, t))
		}
		return []*State{st}, nil
	}
	var good, bad []*State
	switch e.evalIs(st, v, t) {
	case 1:
		good = []*State{st}
	case 0:
		bad = []*State{st}
	default:
		c := e.T.pinned(e.T.mk(OIs, "", nil, t, nil, v))
		good, bad = e.branch(st, c, fn, x.Pos())
	}
	var out []*State
	var rets []Ret
	for _, s := range good {
		var r *Term
		switch {
		case types.IsInterface(t):
			r = v
		case v.op == OIface:
			r = v.args[0]
		default:
			r = e.T.mk(OAs, "", nil, t, nil, v)
			if r.t == nil {
				r.t = t
			}
			r = e.T.pinned(r)
		}
		if x.CommaOk {
			e.bind(s, x, e.T.Tuple(r, e.T.Bool(true)))
		} else {
			e.bind(s, x, r)
		}
		out = append(out, s)
	}
	for _, s := range bad {
		if x.CommaOk {
			e.bind(s, x, e.T.Tuple(e.zero(t), e.T.Bool(false)))
			out = append(out, s)
			continue
		}
		e.event("panic", x.Pos(), fn, "type assertion "+v.Path()+".("+types.TypeString(t, types.RelativeTo(fn.Pkg.Pkg))+")", s)
		rets = append(rets, Ret{st: s, val: v, kind: RPanic, pos: x.Pos(), msg: "type assertion fails", fn: fn})
	}
	return out, rets
}

// ---------------------------------------------------------------- calls

func (e *Engine) callInstr(fn *ssa.Function, x *ssa.Call, st *State) ([]*State, []Ret) {
	var pre []*State
	pre = e.split(st, x.Call.Value)
	if len(x.Call.Args) > 0 && !x.Call.IsInvoke() {
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil {
			var n []*State
			for _, s := range pre {
				n = append(n, e.split(s, x.Call.Args[0])...)
			}
			pre = n
		}
	}
	var out []*State
	var rets []Ret
	for _, s := range pre {
		fv := e.val(s, x.Call.Value)
		args := make([]*Term, len(x.Call.Args))
		for i, a := range x.Call.Args {
			args[i] = e.val(s, a)
		}
		rs := e.invoke(s, fn, x, &x.Call, fv, args)
		for _, r := range rs {
			if r.kind != RReturn {
				rets = append(rets, r)
				continue
			}
			v := r.val
			if v == nil {
				v = e.T.Tuple()
			}
			r.st.env.vals[x] = v
			if v.t == nil && (v.op == OCall || v.op == OSym) {
				v.t = x.Type()
			}
			out = append(out, r.st)
		}
	}
	if len(out) > 1 {
		for _, s := range out {
			e.gc(s)
		}
		out = e.merge(out)
	}
	return out, rets
}

// invoke performs a call; every returned state has the caller's environment.
func (e *Engine) invoke(st *State, caller *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, fv *Term, args []*Term) []Ret {
	e.calls++
	pos := in.Pos()
	if !pos.IsValid() {
		pos = c.Pos()
	}
	rt := types.Type(c.Signature().Results())
	if c.Signature().Results().Len() == 1 {
		rt = c.Signature().Results().At(0).Type()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, caller, in, b.Name(), c, args, rt)
	}
	if c.IsInvoke() {
		recv := fv
		name := c.Method.Name()
		switch recv.op {
		case OIface:
			if f := e.methodOf(recv.t, c.Method); f != nil {
				return e.callFn(st, caller, in, f, append([]*Term{recv.args[0]}, args...), nil, rt)
			}
			return e.modelled(st, caller, in, methodName(recv.t, name), append([]*Term{recv.args[0]}, args...), rt)
		case OErr:
			if name == "Error" {
				if len(recv.args) > 0 {
					return []Ret{{st: st, val: recv.args[0]}}
				}
				return []Ret{{st: st, val: e.T.Call("Error", rt, recv)}}
			}
		}
		if ok, r := e.needPtr(st, recv, caller, pos); !ok {
			return []Ret{r}
		}
		if recv.op == OAlt || recv.op == OUnk {
			return e.modelled(st, caller, in, "iface."+name, append([]*Term{recv}, args...), rt)
		}
		return e.modelled(st, caller, in, "iface."+name, append([]*Term{recv}, args...), rt)
	}
	if fv.op == OClosure {
		return e.callFn(st, caller, in, fv.fn, args, fv.args, rt)
	}
	if fv.op == ONil {
		e.event("panic", pos, caller, "call of nil function", st)
		return []Ret{{st: st, kind: RPanic, pos: pos, msg: "nil function", fn: caller}}
	}
	return e.opaqueCall(st, caller, in, "dynamic:"+fv.Path(), args, rt)
}

func methodName(t types.Type, m string) string {
	return "(" + types.TypeString(t, nil) + ")." + m
}

func (e *Engine) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := e.P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.P.prog.MethodValue(sel)
}

func (e *Engine) callFn(st *State, caller *ssa.Function, in ssa.Instruction, f *ssa.Function, args, free []*Term, rt types.Type) []Ret {
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if m := e.modelFor(name); m != nil {
		if strings.HasPrefix(name, "(*regexp.") || strings.HasPrefix(name, "(*text/template.") || strings.HasPrefix(name, "(*bufio.") || strings.HasPrefix(name, "(*bytes.") || strings.HasPrefix(name, "(*encoding/json.") || strings.HasPrefix(name, "(*strings.") {
			if len(args) > 0 && e.isNil(st, args[0]) == 1 {
				var pos token.Pos
				if in != nil {
					pos = in.Pos()
				}
				return []Ret{{st: st, kind: RPanic, pos: pos, msg: "nil receiver of " + name, fn: caller}}
			}
		}
		return m(e, &callCtx{st: st, caller: caller, in: in, rt: rt, fn: f, name: name}, args)
	}
	if len(f.Blocks) == 0 {
		return e.modelled(st, caller, in, name, args, rt)
	}
	if f.Pkg != nil && f.Name() == "init" && f.Synthetic != "" {
		return []Ret{{st: st, val: e.T.Tuple()}}
	}
	// recursion
	n := 0
	for _, fr := range e.stack {
		if fr.fn == f {
			n++
		}
	}
	var kb strings.Builder
	ptrs := false
	for _, a := range args {
		kb.WriteString(strconv.Itoa(a.id))
		kb.WriteByte(',')
		ptrs = ptrs || a.has&4 != 0
	}
	key := kb.String()
	if ptrs {
		// what the arguments point to may differ between two calls: compare it too, once a recursion is under way
		if n < 2 {
			key = ""
		} else {
			key += e.reachSig(st, args)
		}
	}
	if n > 0 && key != "" {
		for _, fr := range e.stack {
			if fr.fn == f && fr.key == key {
				e.event("recursion", f.Pos(), f, f.String()+" re-enters itself with the same arguments", st)
				return []Ret{{st: st, kind: RPanic, pos: in.Pos(), msg: "unbounded recursion in " + f.String(), fn: f}}
			}
		}
	}
	if n >= e.recLimit || len(e.stack) > 60 {
		return e.opaqueCall(st, caller, in, "rec:"+f.String(), args, rt)
	}
	ctx := st.env.ctx
	if in != nil && caller != nil {
		ctx += "/" + strconv.Itoa(e.cfgOf(caller).number[in])
	}
	return e.callBody(st, f, args, free, ctx, key)
}

// reachSig describes everything in memory that a call with these arguments can see: what they reach and the globals.
func (e *Engine) reachSig(st *State, args []*Term) string {
	live := map[string]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	mark := func(id string) {
		o := st.heap[id]
		if o == nil || live[id] {
			return
		}
		live[id] = true
		visit(o.val)
		for _, en := range o.ents {
			visit(en.k)
			visit(en.v)
		}
	}
	visit = func(t *Term) {
		if t == nil || t.has&4 == 0 || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OPtr || t.op == OIter {
			mark(t.s)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, a := range args {
		visit(a)
	}
	for id := range st.heap {
		if strings.HasPrefix(id, "g:") || strings.HasPrefix(id, "in:") || strings.HasPrefix(id, "w:") || strings.HasPrefix(id, "m:") {
			mark(id)
		}
	}
	ids := make([]string, 0, len(live))
	for id := range live {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var b strings.Builder
	for _, id := range ids {
		b.WriteString(id)
		b.WriteByte('=')
		st.heap[id].sig(&b)
		b.WriteByte(';')
	}
	return b.String()
}

func (e *Engine) callBody(st *State, f *ssa.Function, args, free []*Term, ctx, key string) []Ret {
	e.fnSeen[f.String()] = true
	parent := st.env
	env := &Env{vals: map[ssa.Value]*Term{}, parent: parent, fn: f, ctx: ctx}
	for i, p := range f.Params {
		if i < len(args) {
			env.vals[p] = args[i]
		} else {
			env.vals[p] = e.T.Unk("arg", p.Type())
		}
	}
	for i, p := range f.FreeVars {
		if i < len(free) {
			env.vals[p] = free[i]
		} else {
			env.vals[p] = e.T.Unk("free", p.Type())
		}
	}
	st.env = env
	e.stack = append(e.stack, &callFrame{f, key})
	loops := e.loops
	c := e.cfgOf(f)
	if c.irred {
		e.fatal("irreducible flow in " + f.String())
	}
	_, _, rets := e.runRegion(f, c, nil, f.Blocks[0], []*State{st})
	e.loops = loops
	e.stack = e.stack[:len(e.stack)-1]
	// pop
	idx := map[string]int{}
	var out []Ret
	for _, r := range rets {
		par := r.st.env.parent
		if par != nil {
			r.st.env = par.clone()
		}
		if r.kind == RReturn && len(rets) > 1 {
			if par != nil {
				e.gc(r.st, r.val)
			}
			k := e.sig(r.st, r.val)
			if j, ok := idx[k]; ok {
				e.intersectFacts(out[j].st, r.st)
				continue
			}
			idx[k] = len(out)
		}
		out = append(out, r)
	}
	return out
}

// opaqueCall: the callee is not interpreted; its result is unknown and what it can reach through pointers is havocked.
func (e *Engine) opaqueCall(st *State, caller *ssa.Function, in ssa.Instruction, name string, args []*Term, rt types.Type) []Ret {
	e.unmodelled[name]++
	for _, a := range args {
		e.havoc(st, a, name)
	}
	return []Ret{{st: st, val: e.unkResult(name, rt)}}
}

func (e *Engine) unkResult(name string, rt types.Type) *Term {
	if tt, ok := rt.(*types.Tuple); ok {
		xs := make([]*Term, tt.Len())
		for i := range xs {
			xs[i] = e.T.Unk(name, tt.At(i).Type())
		}
		return e.T.Tuple(xs...)
	}
	return e.T.Unk(name, rt)
}

func (e *Engine) havoc(st *State, a *Term, why string) {
	seen := map[string]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || t.has&4 == 0 {
			return
		}
		if t.op == OPtr {
			if seen[t.s] || strings.HasPrefix(t.s, "g:") {
				return
			}
			seen[t.s] = true
			o := st.heap[t.s]
			if o == nil {
				return
			}
			if o.val != nil {
				visit(o.val)
			}
			n := *o
			n.ents = nil
			if o.kind == KMap {
				n.val = e.T.Unk(why, o.typ)
			} else {
				n.val = e.T.Unk(why, o.typ)
			}
			st.heap[t.s] = &n
			return
		}
		for _, x := range t.args {
			visit(x)
		}
	}
	visit(a)
}

func (e *Engine) modelled(st *State, caller *ssa.Function, in ssa.Instruction, name string, args []*Term, rt types.Type) []Ret {
	if m := e.modelFor(name); m != nil {
		return m(e, &callCtx{st: st, caller: caller, in: in, rt: rt, name: name}, args)
	}
	return e.opaqueCall(st, caller, in, name, args, rt)
}

func (e *Engine) builtin(st *State, caller *ssa.Function, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term, rt types.Type) []Ret {
	ret := func(v *Term) []Ret { return []Ret{{st: st, val: v}} }
	switch name {
	case "len":
		if at, ok := under(c.Args[0].Type()).(*types.Array); ok {
			return ret(e.T.Int(at.Len()))
		}
		return ret(e.length(st, args[0]))
	case "cap":
		return ret(e.T.Call("capof", rt, args[0]))
	case "append":
		if len(args) == 1 {
			return ret(args[0])
		}
		a, b := args[0], args[1]
		if a.op == OUnk {
			return ret(a)
		}
		if b.op == OUnk {
			return ret(e.T.Cat(a, e.T.Star(b, false)))
		}
		if isByteSlice(c.Args[0].Type()) {
			// byte items become constant text
			var xs []*Term
			for _, p := range parts(b) {
				if p.op == OItem {
					if n, ok := p.args[0].isInt(); ok && n < 128 {
						xs = append(xs, e.T.Str(string([]byte{byte(n)})))
						continue
					}
					xs = append(xs, e.T.Call("byte", rt, p.args[0]))
					continue
				}
				xs = append(xs, p)
			}
			return ret(e.catParts(append([]*Term{a}, xs...)))
		}
		return ret(e.catParts([]*Term{a, b}))
	case "copy":
		e.replaceEverywhere(st, args[0], e.T.Unk("copy", c.Args[0].Type()))
		return ret(e.T.Unk("copy", rt))
	case "delete":
		e.mapDelete(st, args[0], args[1], c.Args[0].Type(), caller, in.Pos())
		return ret(e.T.Tuple())
	case "print", "println":
		return ret(e.T.Tuple())
	case "recover":
		return ret(e.T.Nil())
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch e.evalLt(st, a, r) {
			case 1:
				if name == "min" {
					r = a
				}
			case 0:
				if name == "max" {
					r = a
				}
			default:
				r = e.T.Call(name, rt, r, a)
			}
		}
		return ret(r)
	case "close":
		return ret(e.T.Tuple())
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "clear":
		return ret(e.T.Tuple())
	}
	return e.opaqueCall(st, caller, in, "builtin "+name, args, rt)
}

// InitGlobals evaluates package initialisers abstractly, giving the initial contents of globals.
func (e *Engine) InitGlobals() {
	e.globals = map[string]*Obj{}
	st := &State{env: &Env{vals: map[ssa.Value]*Term{}}, heap: map[string]*Obj{}, facts: map[*Term]bool{}, eqc: map[*Term]*Term{}}
	var order []string
	for q := range e.P.pkgs {
		order = append(order, q)
	}
	sort.Strings(order)
	for _, q := range order {
		for _, m := range e.P.pkgs[q].Members {
			if g, ok := m.(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				st.heap["g:"+g.RelString(nil)] = &Obj{kind: KCell, val: e.zero(t), typ: t}
			}
		}
	}
	// standard globals
	e.initing = true
	defer func() { e.initing = false }()
	for _, q := range order {
		f := e.P.pkgs[q].Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		// the init guard must read false
		rets := e.callBody(st.clone(), f, nil, nil, "init:"+q, "")
		for _, r := range rets {
			if r.kind == RReturn && len(r.st.heap) > 0 {
				// the guarded path is the one where initialisation ran: keep the last
				st.heap = r.st.heap
			}
		}
	}
	for id, o := range st.heap {
		e.globals[id] = o
	}
}

func (e *Engine) modelFor(name string) model {
	if e.sc != nil && e.sc.calls != nil {
		if m, ok := e.sc.calls[name]; ok {
			return m
		}
	}
	return e.modelCall[name]
}
