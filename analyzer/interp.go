package main

// interp.go: disjunctive abstract interpreter over SSA. Control flow is followed on the
// (reducible) flow graph; loops are summarised by a fixpoint with widening; calls are
// analysed per calling context; conditions that the abstract values leave undecided
// keep both branches.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type RetKind uint8

const (
	RReturn RetKind = iota
	RPanic
	RExit
)

type Ret struct {
	st   *State
	val  *Term
	kind RetKind
	pos  token.Pos
	msg  string
	fn   *ssa.Function
}

type Event struct {
	kind string // "maynil", "mutate", "panic", "exit", "recursion", "mayassert"
	pos  token.Pos
	fn   string
	what string
	st   *State
}

type Engine struct {
	T          *Terms
	P          *Program
	overflow   int
	steps      int
	maxSteps   int
	stack      []*callFrame
	sc         *Scenario
	events     []Event
	evSeen     map[string]bool
	unmodelled map[string]int
	fnSeen     map[string]bool
	calls      int
	forks      int
	cfgs       map[*ssa.Function]*cfg
	loops      []*loopInst
	globals    map[string]*Obj
	recLimit   int
	detMode    bool
	symCount   int
	tmplCache  map[string]interface{}
	modelCall  map[string]model
	natTypes   map[string]types.Type
	initing    bool
	building   bool
	roots      []*Term
}

type callFrame struct {
	fn  *ssa.Function
	key string
}

type budgetExceeded struct{ why string }

func NewEngine(p *Program) *Engine {
	e := &Engine{T: NewTerms(), P: p, evSeen: map[string]bool{}, unmodelled: map[string]int{}, fnSeen: map[string]bool{},
		cfgs: map[*ssa.Function]*cfg{}, maxSteps: 400000, recLimit: 10, tmplCache: map[string]interface{}{}}
	e.modelCall = models()
	return e
}

func (e *Engine) event(kind string, pos token.Pos, fn *ssa.Function, what string, st *State) {
	name := ""
	if fn != nil {
		name = fn.String()
	}
	op := "0"
	if st != nil && st.opaque != nil {
		op = "1"
	}
	k := kind + "|" + strconv.Itoa(int(pos)) + "|" + what + op
	if e.evSeen[k] {
		return
	}
	e.evSeen[k] = true
	e.events = append(e.events, Event{kind, pos, name, what, st})
}

// ---------------------------------------------------------------- control-flow graph

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type cfg struct {
	rpo    []*ssa.BasicBlock
	num    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loop // by header
	inner  map[*ssa.BasicBlock]*loop // innermost loop containing block
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	irred  bool
	number map[ssa.Instruction]int
}

func (e *Engine) cfgOf(fn *ssa.Function) *cfg {
	if c := e.cfgs[fn]; c != nil {
		return c
	}
	c := &cfg{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{},
		live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, number: map[ssa.Instruction]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.num[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			n++
			c.number[in] = n
		}
	}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if _, ok := c.num[p]; ok && !l.blocks[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			} else if c.num[s] <= c.num[b] {
				c.irred = true
			}
		}
	}
	var ls []*loop
	for _, b := range c.rpo {
		if l := c.loops[b]; l != nil {
			ls = append(ls, l)
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].blocks) > len(ls[j].blocks) })
	for _, l := range ls {
		l.parent = c.inner[l.header]
		for b := range l.blocks {
			c.inner[b] = l
		}
	}
	// liveness (values needed after entry of each block; phis count at the predecessor)
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	isLocal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	for _, b := range c.rpo {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && isLocal(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		c.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(c.rpo) - 1; i >= 0; i-- {
			b := c.rpo[i]
			in := c.live[b]
			add := func(v ssa.Value) {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range c.live[s] {
					if !def[b][v] {
						// a phi of s is defined on the edge
						if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
							continue
						}
						add(v)
					}
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, x := range s.Instrs {
						ph, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						if v := ph.Edges[k]; isLocal(v) && !def[b][v] {
							add(v)
						}
					}
				}
			}
		}
	}
	// phis of the block itself are live on entry when used anywhere
	for _, b := range c.rpo {
		for _, x := range b.Instrs {
			if ph, ok := x.(*ssa.Phi); ok {
				c.live[b][ph] = true
			}
		}
	}
	e.cfgs[fn] = c
	return c
}

// ---------------------------------------------------------------- values

func (e *Engine) idx(inst, phase string, base int64) *Term {
	if phase == "*" {
		return e.T.mk(OIdx, inst, nil, types.Typ[types.Int], nil)
	}
	return e.T.mk(OIdx, inst, constant.MakeInt64(base), types.Typ[types.Int], nil, e.T.Str(phase))
}

func idxPhase(t *Term) (phase string, base int64) {
	if t.c == nil {
		return "*", 0
	}
	base, _ = constant.Int64Val(t.c)
	phase, _ = t.args[0].isStr()
	return
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.T.Str("")
		case u.Info()&types.IsBoolean != 0:
			return e.T.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return e.T.Int(0)
		case u.Info()&types.IsFloat != 0:
			return e.T.Const(constant.ToFloat(constant.MakeInt64(0)), t)
		}
		return e.T.Nil()
	case *types.Struct, *types.Array:
		return e.T.mk(OZero, "", nil, t, nil)
	case *types.Tuple:
		xs := make([]*Term, u.Len())
		for i := range xs {
			xs[i] = e.zero(u.At(i).Type())
		}
		return e.T.Tuple(xs...)
	}
	return e.T.Nil()
}

func (e *Engine) expand(v *Term, t types.Type) *Term {
	if v.op == OStruct || v.op == OUnk {
		return v
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return v
	}
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		fs[i] = e.fld(v, st, i)
	}
	return e.T.mk(OStruct, "", nil, t, nil, fs...)
}

func (e *Engine) fld(v *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	switch v.op {
	case OStruct:
		if i < len(v.args) {
			return v.args[i]
		}
	case OZero:
		return e.zero(f.Type())
	case OUnk:
		return e.T.Unk(v.s, f.Type())
	case OAlt:
		xs := make([]*Term, len(v.args))
		for k, a := range v.args {
			xs[k] = e.fld(a, st, i)
		}
		return e.T.Alt(xs...)
	case ODeref:
		v = v.args[0]
	}
	x := e.T.mk(OFld, f.Name(), nil, f.Type(), nil, v)
	x.emb = f.Embedded()
	if x.t == nil {
		x.t = f.Type()
	}
	return e.T.pinned(x)
}

func (e *Engine) deref(p *Term, t types.Type) *Term {
	return e.T.pinned(e.T.mk(ODeref, "", nil, t, nil, p))
}

func structOf(t types.Type) *types.Struct {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := under(t).(*types.Struct)
	return s
}

func (e *Engine) faddr(p *Term, t types.Type, i int) *Term {
	st := structOf(t)
	pt := t
	if pp, ok := under(t).(*types.Pointer); ok {
		pt = pp.Elem()
	}
	x := e.T.mk(OFAddr, st.Field(i).Name(), constant.MakeInt64(int64(i)), pt, nil, p)
	return x
}

func inKey(p *Term) string { return "in:" + strconv.Itoa(p.id) }

// load reads the value at address a whose pointee type is t.
func (e *Engine) load(st *State, a *Term, t types.Type) *Term {
	switch a.op {
	case OPtr:
		o := st.heap[a.s]
		if o == nil {
			if g := e.globals[a.s]; g != nil {
				st.heap[a.s] = g
				o = g
			} else {
				return e.T.Unk("dangling:"+a.s, t)
			}
		}
		if o.kind != KCell || o.val == nil {
			return e.T.Unk("load", t)
		}
		return o.val
	case OFAddr:
		i, _ := constant.Int64Val(a.c)
		sv := e.load(st, a.args[0], a.t)
		s, _ := under(a.t).(*types.Struct)
		if s == nil {
			return e.T.Unk("faddr", t)
		}
		return e.fld(sv, s, int(i))
	case OEAddr:
		b := a.args[0]
		if a.s == "arr" {
			av := e.load(st, b, a.t)
			return e.index(st, av, a.args[1], t)
		}
		return e.index(st, b, a.args[1], t)
	case OAlt:
		xs := make([]*Term, 0, len(a.args))
		for _, x := range a.args {
			if x.op != ONil {
				xs = append(xs, e.load(st, x, t))
			}
		}
		if len(xs) == 0 {
			return e.T.Unk("nil", t)
		}
		return e.T.Alt(xs...)
	case OUnk, ONil:
		return e.T.Unk("load", t)
	}
	if o := st.heap[inKey(a)]; o != nil {
		return o.val
	}
	return e.deref(a, t)
}

func (e *Engine) store(st *State, a, v *Term, t types.Type, pos token.Pos, fn *ssa.Function) {
	switch a.op {
	case OPtr:
		o := st.heap[a.s]
		if o == nil {
			o = e.globals[a.s]
		}
		if o == nil {
			o = &Obj{kind: KCell, typ: t}
		}
		n := *o
		if o.summary && o.val != nil {
			n.val = e.join(o.val, v, t, nil)
		} else {
			n.val = v
		}
		if strings.HasPrefix(a.s, "g:") && !e.initing {
			e.event("global", pos, fn, a.s, st)
		}
		if strings.HasPrefix(a.s, "m:") && n.val != o.val && !e.building {
			e.event("mutate", pos, fn, a.s, st)
		}
		st.heap[a.s] = &n
	case OFAddr:
		i, _ := constant.Int64Val(a.c)
		sv := e.load(st, a.args[0], a.t)
		x := e.expand(sv, a.t)
		if x.op != OStruct {
			return
		}
		fs := append([]*Term{}, x.args...)
		fs[i] = v
		e.store(st, a.args[0], e.T.mk(OStruct, "", nil, a.t, nil, fs...), a.t, pos, fn)
	case OEAddr:
		b := a.args[0]
		if a.s == "arr" {
			av := e.load(st, b, a.t)
			nv := e.setElem(av, a.args[1], v, a.t)
			e.store(st, b, nv, a.t, pos, fn)
			return
		}
		if b.op == OSym || b.op == OFld || b.op == OElem || b.op == OLook {
			e.event("mutate", pos, fn, a.Path(), st)
		}
		nv := e.setElem(b, a.args[1], v, a.t)
		e.replaceEverywhere(st, b, nv)
	case OAlt:
		for _, x := range a.args {
			if x.op == ONil {
				continue
			}
			old := e.load(st, x, t)
			e.store(st, x, e.join(old, v, t, nil), t, pos, fn)
		}
	case ONil, OUnk:
	default:
		e.event("mutate", pos, fn, a.Path(), st)
		st.heap[inKey(a)] = &Obj{kind: KCell, typ: t, val: v}
	}
}

// replaceEverywhere models an in-place update of a slice held as an immutable term.
func (e *Engine) replaceEverywhere(st *State, old, nw *Term) {
	if old == nw {
		return
	}
	memo := map[*Term]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if t == old {
			return nw
		}
		switch t.op {
		case OStruct, OIface, OTuple, OClosure, OArr, OItem, OCat:
		default:
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rw(a)
			ch = ch || na[i] != a
		}
		r := t
		if ch {
			if t.op == OCat {
				r = e.T.Cat(na...)
			} else {
				r = e.T.mk(t.op, t.s, t.c, t.t, t.fn, na...)
			}
		}
		memo[t] = r
		return r
	}
	var fix func(env *Env) *Env
	fix = func(env *Env) *Env {
		if env == nil {
			return nil
		}
		par := fix(env.parent)
		var n *Env
		if par != env.parent {
			n = env.clone()
			n.parent = par
		}
		for v, t := range env.vals {
			if r := rw(t); r != t {
				if n == nil {
					n = env.clone()
				}
				n.vals[v] = r
			}
		}
		if n == nil {
			return env
		}
		return n
	}
	st.env = fix(st.env)
	for id, o := range st.heap {
		ch := false
		n := *o
		if o.val != nil {
			if r := rw(o.val); r != o.val {
				n.val = r
				ch = true
			}
		}
		for i, en := range o.ents {
			if r := rw(en.v); r != en.v {
				if !ch {
					n.ents = append([]Ent{}, o.ents...)
				}
				ch = true
				if &n.ents[0] == &o.ents[0] {
					n.ents = append([]Ent{}, o.ents...)
				}
				n.ents[i].v = r
			}
		}
		if ch {
			st.heap[id] = &n
		}
	}
}

func (e *Engine) setElem(seq, i, v *Term, t types.Type) *Term {
	n, isc := i.isInt()
	if at, ok := under(t).(*types.Array); ok {
		if seq.op == OZero {
			xs := make([]*Term, at.Len())
			for k := range xs {
				xs[k] = e.zero(at.Elem())
			}
			seq = e.T.mk(OArr, "", nil, t, nil, xs...)
		}
		if seq.op == OArr {
			xs := append([]*Term{}, seq.args...)
			if isc && int(n) < len(xs) {
				xs[n] = v
			} else {
				for k := range xs {
					xs[k] = e.T.Alt(xs[k], v)
				}
			}
			return e.T.mk(OArr, "", nil, t, nil, xs...)
		}
		return e.T.Unk("array", t)
	}
	if isc {
		ps := parts(seq)
		if int(n) < len(ps) {
			ok := true
			for k := 0; k <= int(n); k++ {
				ok = ok && ps[k].op == OItem
			}
			if ok {
				xs := append([]*Term{}, ps...)
				xs[n] = e.T.Item(v)
				return e.catParts(xs)
			}
		}
	}
	if seq.op == OCall && seq.s == "make" {
		return e.T.Star(e.T.Item(v), false)
	}
	if seq.op == OStar && seq.args[0].op == OItem {
		return e.T.Star(e.T.Item(e.T.Alt(seq.args[0].args[0], v)), seq.s == "u")
	}
	return e.T.Unk("setelem", t)
}

// index reads element i of a sequence, array or string value.
func (e *Engine) index(st *State, seq, i *Term, t types.Type) *Term {
	n, isc := i.isInt()
	if i.op == OIdx {
		if ph, b := idxPhase(i); ph == "first" {
			n, isc = b, true
		}
	}
	switch seq.op {
	case OArr:
		if isc && n >= 0 && int(n) < len(seq.args) {
			return seq.args[n]
		}
		return e.T.Alt(seq.args...)
	case OZero:
		if at, ok := under(seq.t).(*types.Array); ok {
			return e.zero(at.Elem())
		}
	case OUnk:
		return e.T.Unk(seq.s, t)
	case OConst:
		if s, ok := seq.isStr(); ok && isc && n >= 0 && int(n) < len(s) {
			return e.T.Int(int64(s[n]))
		}
		return e.T.Call("at", t, seq, i)
	case OAlt:
		xs := make([]*Term, len(seq.args))
		for k, a := range seq.args {
			xs[k] = e.index(st, a, i, t)
		}
		return e.T.Alt(xs...)
	}
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Uint8 && seq.op != OItem && !(seq.op == OCat && len(seq.args) > 0 && seq.args[0].op == OItem) {
		// string or byte slice
		if isc && n >= 0 {
			if ps := parts(seq); len(ps) > 0 {
				if s, ok := ps[0].isStr(); ok && int(n) < len(s) {
					return e.T.Int(int64(s[n]))
				}
			}
		}
		return e.T.Call("at", t, seq, i)
	}
	if seq.op == OCall && (seq.s == "sorted") {
		return e.anyElem(seq.args[0], i, t)
	}
	if seq.op == OCall && seq.s == "make" {
		return e.zero(t)
	}
	ps := parts(seq)
	if isc && n >= 0 {
		ok := true
		for k := 0; k <= int(n) && k < len(ps); k++ {
			if ps[k].op != OItem {
				ok = false
			}
		}
		if ok && int(n) < len(ps) {
			return ps[n].args[0]
		}
	}
	return e.anyElem(seq, i, t)
}

func (e *Engine) anyElem(seq, i *Term, t types.Type) *Term {
	ps := parts(seq)
	switch {
	case len(ps) == 1 && ps[0].op == OItem:
		return ps[0].args[0]
	case len(ps) == 1 && ps[0].op == OStar:
		return e.anyElem(ps[0].args[0], i, t)
	case len(ps) == 1 && ps[0].op == OAlt:
		var xs []*Term
		for _, a := range ps[0].args {
			if isEmptySeq(a) {
				continue
			}
			xs = append(xs, e.anyElem(a, i, t))
		}
		if len(xs) == 0 {
			return e.T.Unk("elem", t)
		}
		return e.T.Alt(xs...)
	case len(ps) == 1 && ps[0].op == OUnk:
		return e.T.Unk(ps[0].s, t)
	case len(ps) == 1 && ps[0].op == OCall && ps[0].s == "sorted":
		return e.anyElem(ps[0].args[0], i, t)
	case len(ps) == 1:
		x := e.T.mk(OElem, "", nil, t, nil, ps[0], i)
		if x.t == nil {
			x.t = t
		}
		return e.T.pinned(x)
	case len(ps) == 0:
		return e.T.Unk("elem", t)
	}
	var xs []*Term
	for _, p := range ps {
		xs = append(xs, e.anyElem(p, i, t))
	}
	return e.T.Alt(xs...)
}

func isEmptySeq(t *Term) bool {
	if t.op == ONil || (t.op == OCat && len(t.args) == 0) {
		return true
	}
	s, ok := t.isStr()
	return ok && s == ""
}

func (e *Engine) length(st *State, x *Term) *Term {
	switch x.op {
	case OConst:
		if s, ok := x.isStr(); ok {
			return e.T.Int(int64(len(s)))
		}
	case ONil:
		return e.T.Int(0)
	case OItem:
		return e.T.Int(1)
	case OCat:
		var n int64
		var r *Term
		for _, a := range x.args {
			if a.op == OItem {
				n++
			} else if l := e.length(st, a); r == nil {
				r = l
			} else {
				r = e.arith("+", r, l, types.Typ[types.Int])
			}
		}
		if r == nil {
			return e.T.Int(n)
		}
		return e.arith("+", r, e.T.Int(n), types.Typ[types.Int])
	case OArr:
		return e.T.Int(int64(len(x.args)))
	case OZero:
		if at, ok := under(x.t).(*types.Array); ok {
			return e.T.Int(at.Len())
		}
	case OAlt:
		xs := make([]*Term, len(x.args))
		for i, a := range x.args {
			xs[i] = e.length(st, a)
		}
		return e.T.Alt(xs...)
	case OCall:
		switch x.s {
		case "make":
			return x.args[0]
		case "sorted", "bytes":
			return e.length(st, x.args[0])
		case "cap", "uncap":
			return e.length(st, x.args[0])
		}
	case OUnk:
		return e.T.Unk(x.s, types.Typ[types.Int])
	case OPtr:
		if o := e.obj(st, x); o != nil && o.kind == KMap && o.val == nil {
			all := true
			for i, en := range o.ents {
				if !en.must {
					all = false
				}
				for _, q := range o.ents[:i] {
					if e.evalEq(st, q.k, en.k) != 0 {
						all = false
					}
				}
			}
			if all {
				return e.T.Int(int64(len(o.ents)))
			}
			return e.T.Call("maplen:"+e.mapSig(o), types.Typ[types.Int], x)
		}
	}
	if st == nil {
		return e.T.Call("len", types.Typ[types.Int], x)
	}
	if o := st.heap[inKey(x)]; o != nil && o.kind == KMap {
		return e.T.Call("maplen:"+e.mapSig(o), types.Typ[types.Int], x)
	}
	return e.T.Call("len", types.Typ[types.Int], x)
}

func (e *Engine) mapSig(o *Obj) string {
	var b strings.Builder
	o.sig(&b)
	return b.String()
}

func (e *Engine) obj(st *State, p *Term) *Obj {
	if p.op != OPtr && p.op != OIter {
		return nil
	}
	if o := st.heap[p.s]; o != nil {
		return o
	}
	if g := e.globals[p.s]; g != nil {
		st.heap[p.s] = g
		return g
	}
	return nil
}

// ---------------------------------------------------------------- linear arithmetic

type linear struct {
	c constant.Value
	m map[*Term]int64
}

func isNum(c constant.Value) bool {
	return c != nil && (c.Kind() == constant.Int || c.Kind() == constant.Float)
}

func (e *Engine) lin(t *Term) *linear {
	l := &linear{c: constant.MakeInt64(0), m: map[*Term]int64{}}
	e.linAdd(l, t, 1)
	return l
}

func (e *Engine) linAdd(l *linear, t *Term, k int64) {
	switch {
	case t.op == OConst && isNum(t.c):
		l.c = constant.BinaryOp(l.c, token.ADD, constant.BinaryOp(t.c, token.MUL, constant.MakeInt64(k)))
	case t.op == OIdx && t.c != nil:
		ph, b := idxPhase(t)
		if ph == "first" {
			l.c = constant.BinaryOp(l.c, token.ADD, constant.MakeInt64(b*k))
			return
		}
		// next: base + nonneg unknown
		l.c = constant.BinaryOp(l.c, token.ADD, constant.MakeInt64(b*k))
		a := e.T.mk(OSym, "+next:"+t.s, nil, types.Typ[types.Int], nil)
		l.m[a] += k
		if l.m[a] == 0 {
			delete(l.m, a)
		}
	case t.op == OBin && t.s == "+":
		e.linAdd(l, t.args[0], k)
		e.linAdd(l, t.args[1], k)
	case t.op == OBin && t.s == "-":
		e.linAdd(l, t.args[0], k)
		e.linAdd(l, t.args[1], -k)
	case t.op == OBin && t.s == "*" && t.args[0].op == OConst && t.args[0].c.Kind() == constant.Int:
		n, _ := t.args[0].isInt()
		e.linAdd(l, t.args[1], k*n)
	default:
		l.m[t] += k
		if l.m[t] == 0 {
			delete(l.m, t)
		}
	}
}

func (e *Engine) linTerm(l *linear, t types.Type) *Term {
	ks := make([]*Term, 0, len(l.m))
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var r *Term
	for _, k := range ks {
		x := k
		if l.m[k] != 1 {
			x = e.T.mk(OBin, "*", nil, t, nil, e.T.Int(l.m[k]), k)
		}
		if r == nil {
			r = x
		} else {
			r = e.T.mk(OBin, "+", nil, t, nil, r, x)
		}
	}
	if r == nil {
		return e.T.Const(l.c, t)
	}
	if constant.Sign(l.c) != 0 {
		r = e.T.mk(OBin, "+", nil, t, nil, r, e.T.Const(l.c, t))
	}
	return r
}

func nonneg(t *Term) bool {
	switch t.op {
	case OSym:
		return strings.HasPrefix(t.s, "+")
	case OCall:
		return t.s == "len" || strings.HasPrefix(t.s, "maplen")
	}
	return false
}

func positive(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.s, "++") }

// signOf: lower/upper sign knowledge of a linear form: returns (lo>0, lo>=0, hi<0, hi<=0)
func (l *linear) sign() (pos, nn, neg, np bool) {
	allUp, allDown, strictUp, strictDown := true, true, false, false
	for t, k := range l.m {
		if !nonneg(t) {
			allUp, allDown = false, false
			break
		}
		if k > 0 {
			allDown = false
			strictUp = strictUp || positive(t)
		} else {
			allUp = false
			strictDown = strictDown || positive(t)
		}
	}
	s := constant.Sign(l.c)
	if allUp {
		pos = s > 0 || (s == 0 && strictUp)
		nn = s >= 0
	}
	if allDown {
		neg = s < 0 || (s == 0 && strictDown)
		np = s <= 0
	}
	return
}

func (e *Engine) arith(op string, a, b *Term, t types.Type) *Term {
	if a.op == OUnk {
		return e.T.Unk(a.s, t)
	}
	if b.op == OUnk {
		return e.T.Unk(b.s, t)
	}
	if a.op == OAlt && len(a.args) <= 8 {
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = e.arith(op, x, b, t)
		}
		return e.T.Alt(xs...)
	}
	if b.op == OAlt && len(b.args) <= 8 {
		xs := make([]*Term, len(b.args))
		for i, x := range b.args {
			xs[i] = e.arith(op, a, x, t)
		}
		return e.T.Alt(xs...)
	}
	switch op {
	case "+", "-":
		if a.op == OIdx {
			if n, ok := b.isInt(); ok {
				if op == "-" {
					n = -n
				}
				ph, base := idxPhase(a)
				if ph == "*" {
					return a
				}
				return e.idx(a.s, ph, base+n)
			}
		}
		l := e.lin(a)
		k := int64(1)
		if op == "-" {
			k = -1
		}
		e.linAdd(l, b, k)
		return e.linTerm(l, t)
	}
	if a.op == OConst && b.op == OConst && isNum(a.c) && isNum(b.c) {
		isInt := false
		if bt, ok := under(t).(*types.Basic); ok {
			isInt = bt.Info()&types.IsInteger != 0
		}
		switch op {
		case "*":
			return e.T.Const(constant.BinaryOp(a.c, token.MUL, b.c), t)
		case "/":
			if constant.Sign(b.c) != 0 {
				if isInt {
					return e.T.Const(constant.BinaryOp(constant.ToInt(a.c), token.QUO_ASSIGN, constant.ToInt(b.c)), t)
				}
				return e.T.Const(constant.BinaryOp(a.c, token.QUO, b.c), t)
			}
		case "%":
			if constant.Sign(b.c) != 0 && isInt {
				return e.T.Const(constant.BinaryOp(a.c, token.REM, b.c), t)
			}
		case "<<", ">>":
			if n, ok := b.isInt(); ok && n < 512 && isInt {
				tk := token.SHL
				if op == ">>" {
					tk = token.SHR
				}
				return e.T.Const(constant.Shift(a.c, tk, uint(n)), t)
			}
		case "&":
			return e.T.Const(constant.BinaryOp(a.c, token.AND, b.c), t)
		case "|":
			return e.T.Const(constant.BinaryOp(a.c, token.OR, b.c), t)
		case "^":
			return e.T.Const(constant.BinaryOp(a.c, token.XOR, b.c), t)
		case "&^":
			return e.T.Const(constant.BinaryOp(a.c, token.AND_NOT, b.c), t)
		}
	}
	if op == "*" && b.op == OConst {
		a, b = b, a
	}
	return e.T.mk(OBin, op, nil, t, nil, a, b)
}

// ---------------------------------------------------------------- conditions

// labelChar is the character of a generic name's label that a term stands for.
func labelChar(t *Term) (int64, bool) {
	if t.op != OCall || (t.s != "at" && t.s != "rune") || len(t.args) != 2 {
		return 0, false
	}
	i, ok := t.args[1].isInt()
	if !ok {
		return 0, false
	}
	s, ok := renderTerm(t.args[0])
	if !ok || i < 0 || int(i) >= len(s) {
		return 0, false
	}
	return int64(s[i]), true
}

func (e *Engine) eqTerm(a, b *Term) *Term {
	if n, ok := b.isInt(); ok {
		if c, ok := labelChar(a); ok {
			return e.T.Bool(n == c)
		}
	}
	if n, ok := a.isInt(); ok {
		if c, ok := labelChar(b); ok {
			return e.T.Bool(n == c)
		}
	}
	if a.op == ONil {
		a, b = b, a
	}
	if b.op == ONil {
		if a.op == ONil {
			return e.T.Bool(true)
		}
		return e.T.pinned(e.T.mk(OCall, "isnil", nil, types.Typ[types.Bool], nil, a))
	}
	if s, ok := b.isStr(); ok && s == "" {
		return e.emptyTerm(a)
	}
	if s, ok := a.isStr(); ok && s == "" {
		return e.emptyTerm(b)
	}
	if _, ok := a.isInt(); ok {
		a, b = b, a
	}
	if n, ok := b.isInt(); ok {
		if n == 0 && a.op == OCall && a.s == "len" {
			return e.emptyTerm(a.args[0])
		}
		if a.op == OCall && a.s == "cmp" {
			switch n {
			case 0:
				return e.eqTerm(a.args[0], a.args[1])
			case -1:
				return e.ltTerm(a.args[0], a.args[1])
			case 1:
				return e.ltTerm(a.args[1], a.args[0])
			}
		}
		if n == -1 && a.op == OCall && a.s == "index" {
			return e.T.Not(e.strPred("strings.Contains", a.args[0], a.args[1]))
		}
	}
	if bb, ok := b.isBool(); ok {
		if bb {
			return a
		}
		return e.T.Not(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.T.pinned(e.T.mk(OBin, "==", nil, types.Typ[types.Bool], nil, a, b))
}

func (e *Engine) emptyTerm(x *Term) *Term {
	if isEmptySeq(x) {
		return e.T.Bool(true)
	}
	return e.T.pinned(e.T.mk(OCall, "empty", nil, types.Typ[types.Bool], nil, x))
}

// cmp builds the boolean term for a source-level comparison.
func (e *Engine) cmp(op token.Token, a, b *Term) *Term {
	if a.op == OAlt && len(a.args) <= 6 && (b.op == OConst || b.op == ONil) {
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = e.cmp(op, x, b)
		}
		same := true
		for _, x := range xs[1:] {
			same = same && x == xs[0]
		}
		if same {
			return xs[0]
		}
	}
	switch op {
	case token.EQL:
		return e.eqTerm(a, b)
	case token.NEQ:
		return e.T.Not(e.eqTerm(a, b))
	case token.LSS:
		return e.ltTerm(a, b)
	case token.GTR:
		return e.ltTerm(b, a)
	case token.GEQ:
		return e.T.Not(e.ltTerm(a, b))
	case token.LEQ:
		return e.T.Not(e.ltTerm(b, a))
	}
	return e.T.Unk("cmp", types.Typ[types.Bool])
}

func (e *Engine) ltTerm(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && a.c.Kind() != constant.Bool && b.c.Kind() != constant.Bool {
		if (a.c.Kind() == constant.String) == (b.c.Kind() == constant.String) {
			return e.T.Bool(constant.Compare(a.c, token.LSS, b.c))
		}
	}
	if n, ok := b.isInt(); ok {
		if c, ok := labelChar(a); ok {
			return e.T.Bool(c < n)
		}
	}
	if n, ok := a.isInt(); ok {
		if c, ok := labelChar(b); ok {
			return e.T.Bool(n < c)
		}
	}
	// generic names are ordered by their labels
	if isAtom(a) && (isAtom(b) || b.op == OConst && b.c.Kind() == constant.String) || isAtom(b) && a.op == OConst && a.c.Kind() == constant.String {
		x, _ := renderTerm(a)
		y, _ := renderTerm(b)
		return e.T.Bool(x < y)
	}
	// x.Cmp(y) compared with zero
	if n, ok := b.isInt(); ok && a.op == OCall && a.s == "cmp" && n == 0 {
		return e.ltTerm(a.args[0], a.args[1])
	}
	if n, ok := a.isInt(); ok && b.op == OCall && b.s == "cmp" && n == 0 {
		return e.ltTerm(b.args[1], b.args[0])
	}
	if n, ok := b.isInt(); ok && a.op == OCall && a.s == "len" {
		if n == 1 {
			return e.emptyTerm(a.args[0])
		}
		if n <= 0 {
			return e.T.Bool(false)
		}
	}
	if n, ok := a.isInt(); ok && b.op == OCall && b.s == "len" {
		if n == 0 {
			return e.T.Not(e.emptyTerm(b.args[0]))
		}
		if n < 0 {
			return e.T.Bool(true)
		}
	}
	if a.op == OCall && a.s == "index" {
		// strings.Index(x,y) < 0  <=> !contains
		if n, ok := b.isInt(); ok && n == 0 {
			return e.T.Not(e.T.Call("strings.Contains", types.Typ[types.Bool], a.args...))
		}
	}
	if b.op == OCall && b.s == "index" {
		if n, ok := a.isInt(); ok && n == -1 {
			return e.T.Call("strings.Contains", types.Typ[types.Bool], b.args...)
		}
	}
	return e.T.pinned(e.T.mk(OBin, "<", nil, types.Typ[types.Bool], nil, a, b))
}

// decide: 1 true, 0 false, -1 unknown.
func (e *Engine) decide(st *State, c *Term) int {
	if b, ok := c.isBool(); ok {
		if b {
			return 1
		}
		return 0
	}
	switch c.op {
	case ONot:
		r := e.decide(st, c.args[0])
		if r >= 0 {
			return 1 - r
		}
		return -1
	case OAlt:
		r := e.decide(st, c.args[0])
		for _, a := range c.args[1:] {
			if r < 0 || e.decide(st, a) != r {
				return -1
			}
		}
		return r
	case OUnk:
		return -1
	}
	if v, ok := st.facts[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	if k, ok := st.eqc[c]; ok {
		return e.decide(st, k)
	}
	switch c.op {
	case OBin:
		switch c.s {
		case "==":
			return e.evalEq(st, c.args[0], c.args[1])
		case "<":
			return e.evalLt(st, c.args[0], c.args[1])
		}
	case OCall:
		switch c.s {
		case "isnil":
			return e.isNil(st, c.args[0])
		case "empty":
			return e.isEmpty(st, c.args[0])
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			a, b := e.res(st, c.args[0]), e.res(st, c.args[1])
			if a != c.args[0] || b != c.args[1] {
				if x := e.strPred(c.s, a, b); x.op == OConst {
					return e.decide(st, x)
				}
			}
			if e.isEmpty(st, a) == 1 && e.isEmpty(st, b) == 0 {
				return 0
			}
		}
	case OIs:
		return e.evalIs(st, c.args[0], c.t)
	case OHas:
		return e.evalHas(st, c.args[0], c.args[1])
	}
	return -1
}

func (e *Engine) evalHas(st *State, m, k *Term) int {
	if e.isEmpty(st, m) == 1 {
		return 0
	}
	return -1
}

func (e *Engine) evalIs(st *State, x *Term, t types.Type) int {
	switch x.op {
	case ONil:
		return 0
	case OIface:
		if types.IsInterface(t) {
			if types.Implements(x.t, under(t).(*types.Interface)) {
				return 1
			}
			return 0
		}
		if types.Identical(x.t, t) {
			return 1
		}
		return 0
	case OErr:
		if types.IsInterface(t) {
			if types.TypeString(t, nil) == "error" || under(t).(*types.Interface).NumMethods() == 0 {
				return 1
			}
			return -1
		}
		return 0
	}
	if types.IsInterface(t) && under(t).(*types.Interface).NumMethods() == 0 {
		r := e.isNil(st, x)
		if r >= 0 {
			return 1 - r
		}
	}
	if e.isNil(st, x) == 1 {
		return 0
	}
	if !types.IsInterface(t) {
		for f, v := range st.facts {
			if v && f.op == OIs && f.args[0] == x && !types.IsInterface(f.t) && !types.Identical(f.t, t) {
				return 0
			}
		}
	}
	return -1
}

func (e *Engine) res(st *State, t *Term) *Term {
	if k, ok := st.eqc[t]; ok {
		return k
	}
	if t.op == OCat {
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = a
			if k, ok := st.eqc[a]; ok {
				na[i] = k
				ch = true
			}
		}
		if ch {
			return e.T.Cat(na...)
		}
	}
	return t
}

func definitelyNonNil(t *Term) bool {
	switch t.op {
	case OPtr, OFAddr, OEAddr, OErr, OClosure, OStruct, OIter, OItem, OArr, OZero:
		return true
	case OIface:
		return true
	case OConst:
		return true
	case OCat:
		return true
	case OSym:
		return strings.HasPrefix(t.s, "@")
	case OCall:
		return t.s == "make" || t.s == "nonnil"
	}
	return false
}

func (e *Engine) isNil(st *State, x *Term) int {
	if x.op == ONil {
		return 1
	}
	if definitelyNonNil(x) {
		return 0
	}
	if x.op == OAlt {
		r := e.isNil(st, x.args[0])
		for _, a := range x.args[1:] {
			if e.isNil(st, a) != r {
				return -1
			}
		}
		return r
	}
	q := e.T.mk(OCall, "isnil", nil, types.Typ[types.Bool], nil, x)
	if v, ok := st.facts[q]; ok {
		if v {
			return 1
		}
		return 0
	}
	for f, v := range st.facts {
		if v && f.op == OIs && f.args[0] == x {
			return 0
		}
	}
	q2 := e.T.mk(OCall, "empty", nil, types.Typ[types.Bool], nil, x)
	if v, ok := st.facts[q2]; ok && !v {
		return 0
	}
	if p := e.T.pinned(q); p != q {
		return e.decide(st, p)
	}
	if p := e.T.pinned(q2); p != q2 {
		if b, ok := p.isBool(); ok && !b {
			return 0
		}
	}
	if e.sc != nil {
		if v, ok := e.sc.nilDefault(x); ok {
			if v {
				return 1
			}
			return 0
		}
	}
	if x.op == OElem || x.op == OAs {
		// elements of collections and asserted payloads
		if _, ok := under(x.t).(*types.Pointer); ok {
			return 0
		}
	}
	return -1
}

func (e *Engine) isEmpty(st *State, x *Term) int {
	if isEmptySeq(x) {
		return 1
	}
	switch x.op {
	case OItem:
		return 0
	case OConst:
		return 0
	case OCat:
		for _, a := range x.args {
			if e.isEmpty(st, a) == 0 {
				return 0
			}
		}
		for _, a := range x.args {
			if e.isEmpty(st, a) != 1 {
				return -1
			}
		}
		return 1
	case OAlt:
		r := e.isEmpty(st, x.args[0])
		for _, a := range x.args[1:] {
			if e.isEmpty(st, a) != r {
				return -1
			}
		}
		return r
	case OSym:
		if strings.HasPrefix(x.s, "@") {
			return 0
		}
	case OPtr:
		if o := e.obj(st, x); o != nil && o.kind == KMap {
			for _, en := range o.ents {
				if en.must {
					return 0
				}
			}
			if len(o.ents) == 0 && o.val == nil {
				return 1
			}
			return -1
		}
		return 0
	case OCall:
		switch x.s {
		case "cap", "uncap", "strings.ToUpper", "strings.ToLower", "sorted", "bytes":
			return e.isEmpty(st, x.args[0])
		case "itoa", "quote", "json", "jsonindent", "Text", "fmtv":
			return 0
		case "make":
			return e.evalEq(st, x.args[0], e.T.Int(0))
		}
	case OUnk:
		return -1
	}
	if k, ok := st.eqc[x]; ok {
		return e.isEmpty(st, k)
	}
	q := e.T.mk(OCall, "empty", nil, types.Typ[types.Bool], nil, x)
	if v, ok := st.facts[q]; ok {
		if v {
			return 1
		}
		return 0
	}
	if v, ok := st.facts[e.T.mk(OCall, "isnil", nil, types.Typ[types.Bool], nil, x)]; ok && v {
		return 1
	}
	if p := e.T.pinned(q); p != q {
		return e.decide(st, p)
	}
	if e.sc != nil {
		if v, ok := e.sc.nilDefault(x); ok && v {
			return 1
		}
	}
	for f, v := range st.facts {
		if v && f.op == OHas && f.args[0] == x {
			return 0
		}
		if v && f.op == OCall && len(f.args) == 2 && f.args[0] == x && (f.s == "strings.HasPrefix" || f.s == "strings.HasSuffix" || f.s == "strings.Contains") && e.isEmpty(st, f.args[1]) == 0 {
			return 0
		}
	}
	ln := e.T.mk(OCall, "len", nil, types.Typ[types.Int], nil, x)
	if p := e.T.pinned(ln); p != ln {
		return e.evalEq(st, p, e.T.Int(0))
	}
	return -1
}

func (e *Engine) evalEq(st *State, a, b *Term) int {
	a, b = e.res(st, a), e.res(st, b)
	if a == b {
		if a.op == OUnk || a.op == OAlt || a.unk() {
			return -1
		}
		if a.op == OIdx && a.c == nil {
			return -1
		}
		return 1
	}
	if a.op == OUnk || b.op == OUnk {
		return -1
	}
	if a.op == ONil || b.op == ONil {
		if a.op == ONil {
			a = b
		}
		return e.isNil(st, a)
	}
	if a.op == OConst && b.op == OConst {
		if a.c.Kind() == constant.String != (b.c.Kind() == constant.String) || a.c.Kind() == constant.Bool != (b.c.Kind() == constant.Bool) {
			return 0
		}
		if constant.Compare(a.c, token.EQL, b.c) {
			return 1
		}
		return 0
	}
	if a.op == OAlt || b.op == OAlt {
		if a.op != OAlt {
			a, b = b, a
		}
		r := e.evalEq(st, a.args[0], b)
		for _, x := range a.args[1:] {
			if r < 0 || e.evalEq(st, x, b) != r {
				return -1
			}
		}
		return r
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.t, b.t) {
			return 0
		}
		return e.evalEq(st, a.args[0], b.args[0])
	}
	fresh := func(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.s, "@") }
	if fresh(a) && (b.op == OConst || fresh(b)) || fresh(b) && a.op == OConst {
		return 0
	}
	if isPtrTerm(a) && isPtrTerm(b) {
		if a.op == OPtr && b.op == OPtr {
			if o := st.heap[a.s]; o != nil && o.summary {
				return -1
			}
			return 0
		}
		if a.op == OFAddr && b.op == OFAddr {
			if a.s != b.s {
				return 0
			}
			return e.evalEq(st, a.args[0], b.args[0])
		}
		return 0
	}
	if (isPtrTerm(a) && isSymbolic(b)) || (isPtrTerm(b) && isSymbolic(a)) {
		// a local allocation is never an input pointer
		return 0
	}
	if s, ok := b.isStr(); ok && s == "" {
		return e.isEmpty(st, a)
	}
	if s, ok := a.isStr(); ok && s == "" {
		return e.isEmpty(st, b)
	}
	if a.op == OErr && b.op == OErr {
		return 0
	}
	q := e.eqTerm(a, b)
	if q.op == OConst {
		return e.decide(st, q)
	}
	if v, ok := st.facts[q]; ok {
		if v {
			return 1
		}
		return 0
	}
	if r := e.eqStr(st, a, b); r >= 0 {
		return r
	}
	if isNumericTerm(a) && isNumericTerm(b) {
		l := e.lin(a)
		e.linAdd(l, b, -1)
		if len(l.m) == 0 {
			if constant.Sign(l.c) == 0 {
				return 1
			}
			return 0
		}
		pos, _, neg, _ := l.sign()
		if pos || neg {
			return 0
		}
	}
	if a.op == OCall && b.op == OCall && a.s == b.s && len(a.args) == 1 && len(b.args) == 1 && injective[a.s] {
		return e.evalEq(st, a.args[0], b.args[0])
	}
	return -1
}

var injective = map[string]bool{"quote": true, "itoa": true, "bytes": true}

func isNumericTerm(t *Term) bool {
	if t.op == OConst {
		return isNum(t.c)
	}
	if t.t == nil {
		return false
	}
	b, ok := under(t.t).(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isPtrTerm(t *Term) bool { return t.op == OPtr || t.op == OFAddr || t.op == OClosure }
func isSymbolic(t *Term) bool {
	switch t.op {
	case OSym, OFld, OElem, OLook, ODeref:
		return true
	}
	return false
}

// eqStr compares concatenations structurally.
// jsonStringsDiffer: both are the JSON text of a known string, and the strings differ.
func jsonStringsDiffer(a, b *Term) bool {
	get := func(t *Term) (string, bool) {
		if t.op != OCall || !strings.HasPrefix(t.s, "json") || len(t.args) != 1 {
			return "", false
		}
		x := t.args[0]
		for x.op == OIface || x.op == OCall && x.s == "&" && len(x.args) == 1 {
			x = x.args[0]
		}
		return x.isStr()
	}
	x, ok1 := get(a)
	y, ok2 := get(b)
	return ok1 && ok2 && x != y
}

func (e *Engine) eqStr(st *State, a, b *Term) int {
	strish := func(t *Term) bool {
		if t.op == OCat {
			for _, x := range t.args {
				if x.op == OItem {
					return false
				}
			}
			return true
		}
		_, ok := t.isStr()
		return ok
	}
	if jsonStringsDiffer(a, b) {
		return 0
	}
	if !strish(a) && !strish(b) {
		return -1
	}
	if !strish(a) || !strish(b) {
		// a symbolic string against a concatenation
		x, y := a, b
		if !strish(x) {
			x, y = y, x
		}
		if y.op == OItem || y.op == OStar {
			return -1
		}
		// cap(v) vs const: first letter must be upper case
		if s, ok := x.isStr(); ok && s != "" {
			return e.constVs(st, s, y)
		}
		return -1
	}
	pa, pb := parts(a), parts(b)
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y && !x.unk() && x.op != OAlt && x.op != OStar {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if jsonStringsDiffer(x, y) {
			return 0
		}
		sx, okx := x.isStr()
		sy, oky := y.isStr()
		if okx && oky {
			n := len(sx)
			if len(sy) < n {
				n = len(sy)
			}
			if sx[:n] != sy[:n] {
				return 0
			}
			pa, pb = append([]*Term{e.T.Str(sx[n:])}, pa[1:]...), append([]*Term{e.T.Str(sy[n:])}, pb[1:]...)
			if sx[n:] == "" {
				pa = pa[1:]
			}
			if sy[n:] == "" {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y && !x.unk() && x.op != OAlt && x.op != OStar {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		sx, okx := x.isStr()
		sy, oky := y.isStr()
		if okx && oky {
			n := len(sx)
			if len(sy) < n {
				n = len(sy)
			}
			if sx[len(sx)-n:] != sy[len(sy)-n:] {
				return 0
			}
			pa, pb = append([]*Term{}, pa...), append([]*Term{}, pb...)
			pa[len(pa)-1], pb[len(pb)-1] = e.T.Str(sx[:len(sx)-n]), e.T.Str(sy[:len(sy)-n])
			if len(sx) == n {
				pa = pa[:len(pa)-1]
			}
			if len(sy) == n {
				pb = pb[:len(pb)-1]
			}
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return 1
	}
	if len(pa) == 0 || len(pb) == 0 {
		rest := pa
		if len(rest) == 0 {
			rest = pb
		}
		return e.isEmpty(st, e.catParts(rest))
	}
	if len(pa) == 1 && len(pb) == 1 {
		x, y := pa[0], pb[0]
		if x != a || y != b {
			return e.evalEq(st, x, y)
		}
	}
	// a constant against a concatenation with more constant text than it has
	if len(pa) == 1 || len(pb) == 1 {
		x, ys := pa[0], pb
		if len(pa) != 1 {
			x, ys = pb[0], pa
		}
		if s, ok := x.isStr(); ok {
			min := 0
			for _, y := range ys {
				if t, ok := y.isStr(); ok {
					min += len(t)
				} else if e.isEmpty(st, y) == 0 {
					min++
				}
			}
			if min > len(s) {
				return 0
			}
			for _, y := range ys {
				if y.op == OSym && strings.HasPrefix(y.s, "@") {
					return 0
				}
				if y.op == OCall && (y.s == "cap" || y.s == "uncap") && len(y.args) == 1 && y.args[0].op == OSym && strings.HasPrefix(y.args[0].s, "@") {
					return 0
				}
			}
		}
	}
	return -1
}

func (e *Engine) constVs(st *State, s string, y *Term) int {
	if y.op == OCall {
		switch y.s {
		case "cap", "uncap", "strings.ToUpper", "strings.ToLower", "quote", "strings.TrimSpace":
			x := y.args[0]
			if x.op == OSym && strings.HasPrefix(x.s, "@") {
				return 0
			}
			if y.s == "cap" && s[0] >= 'a' && s[0] <= 'z' {
				return 0
			}
			if y.s == "uncap" && s[0] >= 'A' && s[0] <= 'Z' {
				return 0
			}
			if y.s == "strings.ToLower" && strings.ToLower(s) != s || y.s == "strings.ToUpper" && strings.ToUpper(s) != s {
				return 0
			}
			if y.s == "quote" && s[0] != '"' {
				return 0
			}
		case "itoa":
			if _, err := strconv.Atoi(s); err != nil {
				return 0
			}
		}
	}
	return -1
}

func (e *Engine) evalLt(st *State, a, b *Term) int {
	a, b = e.res(st, a), e.res(st, b)
	if a.op == OUnk || b.op == OUnk {
		return -1
	}
	if a.op == OAlt || b.op == OAlt {
		x := a
		if x.op != OAlt {
			x = b
		}
		r := -2
		for _, y := range x.args {
			var q int
			if a.op == OAlt {
				q = e.evalLt(st, y, b)
			} else {
				q = e.evalLt(st, a, y)
			}
			if r != -2 && q != r || q < 0 {
				return -1
			}
			r = q
		}
		return r
	}
	q := e.ltTerm(a, b)
	if q.op == OConst {
		return e.decide(st, q)
	}
	if q.op == ONot || q.op == OCall {
		return e.decide(st, q)
	}
	if v, ok := st.facts[q]; ok {
		if v {
			return 1
		}
		return 0
	}
	// b<a known true => not a<b
	if v, ok := st.facts[e.T.mk(OBin, "<", nil, types.Typ[types.Bool], nil, b, a)]; ok && v {
		return 0
	}
	if a == b {
		return 0
	}
	if a.op == OConst && a.c.Kind() == constant.String || b.op == OConst && b.c.Kind() == constant.String {
		return -1
	}
	l := e.lin(b)
	e.linAdd(l, a, -1)
	// use nonemptiness of len atoms
	for t, k := range l.m {
		if t.op == OCall && t.s == "len" {
			switch e.isEmpty(st, t.args[0]) {
			case 1:
				delete(l.m, t)
			case 0:
				if k > 0 {
					l.c = constant.BinaryOp(l.c, token.ADD, constant.MakeInt64(k))
				} else {
					l.c = constant.BinaryOp(l.c, token.ADD, constant.MakeInt64(k))
				}
			}
		}
	}
	pos, _, _, np := l.sign()
	if pos {
		return 1
	}
	if np {
		return 0
	}
	return -1
}

func (e *Engine) assume(st *State, c *Term, v bool, fn *ssa.Function, pos token.Pos) {
	if c.op == ONot {
		e.assume(st, c.args[0], !v, fn, pos)
		return
	}
	if c.unk() {
		if st.opaque == nil {
			st.opaque = &Note{nil, e.P.pos(pos) + ": " + c.Path()}
		}
	} else if c.op != OAlt {
		st.facts[c] = v
	}
	if v && c.op == OBin && c.s == "==" {
		a, b := c.args[0], c.args[1]
		if b.op == OConst {
			a, b = b, a
		}
		if a.op == OConst && b.op != OConst {
			st.eqc[b] = a
		}
	}
	s := "is false"
	if v {
		s = "holds"
	}
	p := c.Path()
	if len(p) > 120 {
		p = p[:120] + "…"
	}
	st.note(e.P.pos(pos) + ": " + p + " " + s)
}

// branch splits a state on a condition.
func (e *Engine) branch(st *State, c *Term, fn *ssa.Function, pos token.Pos) (t, f []*State) {
	if c.op == OAlt && e.decide(st, c) < 0 {
		for i, a := range c.args {
			s := st
			if i < len(c.args)-1 {
				s = st.clone()
			}
			e.replaceEverywhere(s, c, a)
			x, y := e.branch(s, a, fn, pos)
			t = append(t, x...)
			f = append(f, y...)
		}
		return
	}
	switch e.decide(st, c) {
	case 1:
		return []*State{st}, nil
	case 0:
		return nil, []*State{st}
	}
	e.forks++
	// a comparison of an Alt operand: split the alternatives first
	if a := altOperand(c); a != nil {
		for i, x := range a.args {
			s := st
			if i < len(a.args)-1 {
				s = st.clone()
			}
			e.replaceEverywhere(s, a, x)
			nc := e.substCond(c, a, x)
			p, q := e.branch(s, nc, fn, pos)
			t = append(t, p...)
			f = append(f, q...)
		}
		return
	}
	o := st.clone()
	e.assume(st, c, true, fn, pos)
	e.assume(o, c, false, fn, pos)
	if st.clash() {
		return nil, []*State{o}
	}
	if o.clash() {
		return []*State{st}, nil
	}
	return []*State{st}, []*State{o}
}

// clash says whether two codes, which differ, are taken for the same number.
func (st *State) clash() bool {
	var seen map[*Term]bool
	for k, v := range st.eqc {
		if k.op == OSym && strings.HasPrefix(k.s, "!#") {
			if seen[v] {
				return true
			}
			if seen == nil {
				seen = map[*Term]bool{}
			}
			seen[v] = true
		}
	}
	return false
}

func altOperand(c *Term) *Term {
	for c.op == ONot {
		c = c.args[0]
	}
	for _, a := range c.args {
		if a.op == OAlt && len(a.args) <= 12 {
			return a
		}
	}
	return nil
}

func (e *Engine) substCond(c, a, x *Term) *Term {
	if c.op == ONot {
		return e.T.Not(e.substCond(c.args[0], a, x))
	}
	na := make([]*Term, len(c.args))
	for i, y := range c.args {
		na[i] = y
		if y == a {
			na[i] = x
		}
	}
	switch {
	case c.op == OBin && c.s == "==":
		return e.eqTerm(na[0], na[1])
	case c.op == OBin && c.s == "<":
		return e.ltTerm(na[0], na[1])
	case c.op == OCall && c.s == "empty":
		return e.emptyTerm(na[0])
	case c.op == OCall && c.s == "isnil":
		return e.eqTerm(na[0], e.T.Nil())
	case c.op == OCall && len(na) == 2 && strings.HasPrefix(c.s, "strings."):
		return e.strPred(c.s, na[0], na[1])
	}
	return e.T.pinned(e.T.mk(c.op, c.s, c.c, c.t, c.fn, na...))
}

func (e *Engine) fatal(why string) { panic(budgetExceeded{why}) }

func (e *Engine) tick() {
	e.steps++
	if e.steps > e.maxSteps {
		e.fatal("step budget")
	}
}

func fmtPos(p *Program, in ssa.Instruction) string { return p.pos(in.Pos()) }

var _ = fmt.Sprint
