package main

// state.go: abstract states, joins and merges.

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjKind uint8

const (
	KCell ObjKind = iota
	KMap
	KIter
)

type Ent struct {
	k, v *Term
	must bool
}

type Obj struct {
	kind    ObjKind
	val     *Term      // cell content, or map term for iterators
	typ     types.Type // type of the cell / map
	ents    []Ent
	summary bool
	next    int // iterator phase
}

type deferred struct {
	call *ssa.CallCommon
	args []*Term
	fn   *Term
	pos  ssa.Instruction
}

type Env struct {
	vals   map[ssa.Value]*Term
	parent *Env
	defers []deferred
	fn     *ssa.Function
	ctx    string
}

func (e *Env) clone() *Env {
	n := &Env{vals: make(map[ssa.Value]*Term, len(e.vals)+4), parent: e.parent, defers: e.defers, fn: e.fn, ctx: e.ctx}
	for k, v := range e.vals {
		n.vals[k] = v
	}
	return n
}

type Note struct {
	prev *Note
	text string
}

type State struct {
	env    *Env
	heap   map[string]*Obj
	facts  map[*Term]bool
	eqc    map[*Term]*Term
	notes  *Note
	opaque *Note // non-nil when this path depends on a decision the analysis could not interpret
}

func (s *State) clone() *State {
	n := &State{env: s.env.clone(), heap: make(map[string]*Obj, len(s.heap)+4), facts: make(map[*Term]bool, len(s.facts)+2),
		eqc: make(map[*Term]*Term, len(s.eqc)+2), notes: s.notes, opaque: s.opaque}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	return n
}

func (s *State) note(t string) { s.notes = &Note{s.notes, t} }

func (n *Note) list(max int) []string {
	var out []string
	for ; n != nil && len(out) < max; n = n.prev {
		out = append(out, n.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// reach marks the heap objects reachable from the environments and the extra terms.
func (e *Engine) gc(st *State, extra ...*Term) {
	live := map[string]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	var mark func(id string)
	mark = func(id string) {
		if live[id] {
			return
		}
		o := st.heap[id]
		if o == nil {
			return
		}
		live[id] = true
		if o.val != nil {
			visit(o.val)
		}
		for _, en := range o.ents {
			visit(en.k)
			visit(en.v)
		}
	}
	visit = func(t *Term) {
		if t == nil || t.has&4 == 0 || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OPtr || t.op == OIter {
			mark(t.s)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for env := st.env; env != nil; env = env.parent {
		for _, v := range env.vals {
			visit(v)
		}
		for _, d := range env.defers {
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for _, x := range extra {
		visit(x)
	}
	for _, x := range e.roots {
		visit(x)
	}
	for id := range st.heap {
		if !live[id] && (strings.HasPrefix(id, "g:") || strings.HasPrefix(id, "in:") || strings.HasPrefix(id, "w:") || strings.HasPrefix(id, "m:")) {
			mark(id)
		}
	}
	for id := range st.heap {
		if !live[id] {
			delete(st.heap, id)
		}
	}
}

func (o *Obj) sig(b *strings.Builder) {
	b.WriteByte(byte('0' + o.kind))
	if o.val != nil {
		b.WriteString(strconv.Itoa(o.val.id))
	}
	for _, en := range o.ents {
		b.WriteByte('[')
		b.WriteString(strconv.Itoa(en.k.id))
		b.WriteByte(':')
		b.WriteString(strconv.Itoa(en.v.id))
		if en.must {
			b.WriteByte('!')
		}
	}
	b.WriteString(strconv.Itoa(o.next))
}

func (e *Engine) sig(st *State, extra *Term) string {
	var b strings.Builder
	vals := make([]string, 0, len(st.env.vals))
	for v, t := range st.env.vals {
		vals = append(vals, v.Name()+"="+strconv.Itoa(t.id))
	}
	sort.Strings(vals)
	for _, v := range vals {
		b.WriteString(v)
		b.WriteByte(';')
	}
	ids := make([]string, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		b.WriteString(id)
		b.WriteByte('=')
		st.heap[id].sig(&b)
		b.WriteByte(';')
	}
	if extra != nil {
		b.WriteString("r" + strconv.Itoa(extra.id))
	}
	var reps []string
	for k, v := range st.eqc {
		// what a number with a representative is known to be decides how it is shown
		if k.op == OSym && strings.Contains(k.s, "#") {
			reps = append(reps, k.s+"="+strconv.Itoa(v.id))
		}
	}
	sort.Strings(reps)
	b.WriteString(strings.Join(reps, ","))
	return b.String()
}

func (e *Engine) intersectFacts(a, b *State) {
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || w != v {
			delete(a.facts, k)
		}
	}
	for k, v := range a.eqc {
		if b.eqc[k] != v {
			delete(a.eqc, k)
		}
	}
	if b.opaque == nil {
		a.opaque = nil
		a.notes = b.notes
	}
}

const maxDisjuncts = 96

// merge removes duplicate states (keeping only the facts they share) and joins when there are too many.
func (e *Engine) merge(sts []*State) []*State {
	if len(sts) <= 1 {
		return sts
	}
	idx := map[string]*State{}
	var out []*State
	for _, s := range sts {
		k := e.sig(s, nil)
		if o, ok := idx[k]; ok {
			e.intersectFacts(o, s)
			continue
		}
		idx[k] = s
		out = append(out, s)
	}
	if len(out) > maxDisjuncts {
		e.overflow++
		j := out[0]
		for _, s := range out[1:] {
			j = e.joinState(j, s, nil)
		}
		out = []*State{j}
	}
	return out
}

type loopInst struct {
	id        string
	unordered bool
	insts     map[string]bool
	entry     map[string]*Obj
	steps     int
}

func (e *Engine) joinState(a, b *State, li *loopInst) *State {
	n := &State{env: a.env.clone(), heap: map[string]*Obj{}, facts: map[*Term]bool{}, eqc: map[*Term]*Term{}, notes: a.notes, opaque: a.opaque}
	if b.opaque == nil {
		n.opaque = nil
		n.notes = b.notes
	}
	for v, t := range a.env.vals {
		u, ok := b.env.vals[v]
		if !ok {
			delete(n.env.vals, v)
			continue
		}
		n.env.vals[v] = e.join(t, u, v.Type(), li)
	}
	for id, o := range a.heap {
		p, ok := b.heap[id]
		if !ok {
			n.heap[id] = o
			continue
		}
		n.heap[id] = e.joinObj(o, p, li)
	}
	for id, p := range b.heap {
		if _, ok := a.heap[id]; !ok {
			n.heap[id] = p
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && w == v {
			n.facts[k] = v
		}
	}
	for k, v := range a.eqc {
		if b.eqc[k] == v {
			n.eqc[k] = v
		}
	}
	return n
}

func (e *Engine) joinObj(o, p *Obj, li *loopInst) *Obj {
	if o == p {
		return o
	}
	r := &Obj{kind: o.kind, typ: o.typ, summary: o.summary || p.summary, next: o.next}
	if p.next > r.next {
		r.next = p.next
	}
	if o.val != nil && p.val != nil {
		r.val = e.join(o.val, p.val, o.typ, li)
	} else if o.val != nil {
		r.val = o.val
	} else {
		r.val = p.val
	}
	if o.kind == KMap {
		used := map[int]bool{}
		var vt types.Type
		if m, ok := under(o.typ).(*types.Map); ok {
			vt = m.Elem()
		}
		for _, en := range o.ents {
			found := false
			for j, pn := range p.ents {
				if pn.k == en.k {
					used[j] = true
					found = true
					r.ents = append(r.ents, Ent{en.k, e.join(en.v, pn.v, vt, li), en.must && pn.must})
					break
				}
			}
			if !found {
				r.ents = append(r.ents, Ent{en.k, en.v, false})
			}
		}
		for j, pn := range p.ents {
			if !used[j] {
				r.ents = append(r.ents, Ent{pn.k, pn.v, false})
			}
		}
		if len(r.ents) > 60 {
			r.ents = []Ent{{e.T.Unk("mapkey", nil), e.T.Unk("mapval", vt), false}}
		}
	}
	return r
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isSeqType(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func (e *Engine) join(a, b *Term, t types.Type, li *loopInst) *Term {
	if a == b {
		return a
	}
	if a == nil || b == nil {
		if a == nil {
			return b
		}
		return a
	}
	if a.op == OUnk {
		return a
	}
	if b.op == OUnk {
		return b
	}
	if a.op == OIdx && b.op == OIdx && a.s == b.s {
		return e.idx(a.s, "*", 0)
	}
	if isSeqType(t) {
		return e.joinSeq(a, b, li)
	}
	if st, ok := under(t).(*types.Struct); ok {
		xa, xb := e.expand(a, t), e.expand(b, t)
		if xa.op == OStruct && xb.op == OStruct && len(xa.args) == len(xb.args) {
			na := make([]*Term, len(xa.args))
			for i := range na {
				na[i] = e.join(xa.args[i], xb.args[i], st.Field(i).Type(), li)
			}
			return e.T.mk(OStruct, "", nil, t, nil, na...)
		}
	}
	if a.op == OIface && b.op == OIface && types.Identical(a.t, b.t) {
		return e.T.Iface(a.t, e.join(a.args[0], b.args[0], a.t, li))
	}
	if a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args) {
		na := make([]*Term, len(a.args))
		tt, _ := t.(*types.Tuple)
		for i := range na {
			var ft types.Type
			if tt != nil {
				ft = tt.At(i).Type()
			}
			na[i] = e.join(a.args[i], b.args[i], ft, li)
		}
		return e.T.Tuple(na...)
	}
	if a.op == OErr && b.op == OErr {
		return e.T.Err()
	}
	if bt, ok := under(t).(*types.Basic); ok && li != nil && bt.Info()&types.IsNumeric != 0 {
		return e.T.Unk("loopvar", t)
	}
	return e.T.Alt(a, b)
}

func parts(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if t.op == ONil {
		return nil
	}
	if s, ok := t.isStr(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

func (e *Engine) catParts(xs []*Term) *Term {
	if len(xs) == 0 {
		return e.T.mk(OCat, "", nil, nil, nil)
	}
	return e.T.Cat(xs...)
}

// cutPrefix: the parts of b after a, if a is a prefix of b.
func (e *Engine) cutPrefix(pa, pb []*Term) ([]*Term, bool) {
	for i, x := range pa {
		if i >= len(pb) {
			return nil, false
		}
		if pb[i] == x {
			continue
		}
		if i == len(pa)-1 {
			s, ok1 := x.isStr()
			u, ok2 := pb[i].isStr()
			if ok1 && ok2 && strings.HasPrefix(u, s) {
				rest := []*Term{e.T.Str(u[len(s):])}
				return append(rest, pb[i+1:]...), true
			}
		}
		return nil, false
	}
	return pb[len(pa):], true
}

func (e *Engine) cutSuffix(pa, pb []*Term) ([]*Term, bool) {
	for i := range pa {
		x := pa[len(pa)-1-i]
		j := len(pb) - 1 - i
		if j < 0 {
			return nil, false
		}
		if pb[j] == x {
			continue
		}
		if i == len(pa)-1 {
			s, ok1 := x.isStr()
			u, ok2 := pb[j].isStr()
			if ok1 && ok2 && strings.HasSuffix(u, s) {
				rest := append([]*Term{}, pb[:j]...)
				return append(rest, e.T.Str(u[:len(u)-len(s)])), true
			}
		}
		return nil, false
	}
	return pb[:len(pb)-len(pa)], true
}

func (e *Engine) absorb(star, y *Term, unordered bool) *Term {
	x := star.args[0]
	alts := []*Term{x}
	if x.op == OAlt {
		alts = x.args
	}
	for _, a := range alts {
		if a == y {
			return star
		}
	}
	if len(alts) > 12 {
		return e.T.Star(e.T.Unk("star", nil), unordered || star.s == "u")
	}
	return e.T.Star(e.T.Alt(append(append([]*Term{}, alts...), y)...), unordered || star.s == "u")
}

func (e *Engine) joinSeq(a, b *Term, li *loopInst) *Term {
	if a == b {
		return a
	}
	isEmpty := func(t *Term) bool {
		if t.op == ONil || (t.op == OCat && len(t.args) == 0) {
			return true
		}
		s, ok := t.isStr()
		return ok && s == ""
	}
	if isEmpty(a) && isEmpty(b) {
		return a
	}
	if li == nil {
		return e.T.Alt(a, b)
	}
	un := li.unordered
	pa, pb := parts(a), parts(b)
	if li.steps > 6 {
		return e.T.Unk("seq", nil)
	}
	// a = P Star(x), b = P Star(x) y
	if n := len(pa); n > 0 && pa[n-1].op == OStar {
		if rest, ok := e.cutPrefix(pa, pb); ok {
			if len(rest) == 0 {
				return a
			}
			st := e.absorb(pa[n-1], e.catParts(rest), un)
			return e.catParts(append(append([]*Term{}, pa[:n-1]...), st))
		}
	}
	if len(pa) > 0 && pa[0].op == OStar {
		if rest, ok := e.cutSuffix(pa, pb); ok && len(rest) > 0 {
			st := e.absorb(pa[0], e.catParts(rest), un)
			return e.catParts(append([]*Term{st}, pa[1:]...))
		}
	}
	if rest, ok := e.cutPrefix(pa, pb); ok && len(rest) > 0 {
		st := e.T.Star(e.catParts(rest), un)
		return e.catParts(append(append([]*Term{}, pa...), st))
	}
	if rest, ok := e.cutSuffix(pa, pb); ok && len(rest) > 0 {
		st := e.T.Star(e.catParts(rest), un)
		return e.catParts(append([]*Term{st}, pa...))
	}
	if rest, ok := e.cutPrefix(pb, pa); ok && len(rest) > 0 {
		// b is a prefix of a: optional tail
		return e.catParts(append(append([]*Term{}, pb...), e.T.Alt(e.catParts(rest), e.T.mk(OCat, "", nil, nil, nil))))
	}
	// common prefix / suffix
	i := 0
	for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
		i++
	}
	j := 0
	for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
		j++
	}
	ma, mb := pa[i:len(pa)-j], pb[i:len(pb)-j]
	if len(ma) == 1 && ma[0].op == OStar {
		// middle star absorbing new repetitions: mb = Star(x') or Star(x) y
		if len(mb) >= 1 && mb[0].op == OStar && len(mb) == 1 {
			st := e.absorb(ma[0], mb[0].args[0], un || mb[0].s == "u")
			return e.catParts(cat3(pa[:i], []*Term{st}, pa[len(pa)-j:]))
		}
	}
	mid := e.T.Alt(e.catParts(ma), e.catParts(mb))
	return e.catParts(cat3(pa[:i], []*Term{mid}, pa[len(pa)-j:]))
}

func cat3(a, b, c []*Term) []*Term {
	r := append([]*Term{}, a...)
	r = append(r, b...)
	return append(r, c...)
}

// rename rewrites the whole state at a back edge: objects made in this iteration become
// summaries, and this iteration's loop indices become the generic index.
func (e *Engine) backEdge(st *State, li *loopInst) {
	ren := map[string]string{}
	for id := range st.heap {
		if _, ok := li.entry[id]; !ok && !strings.HasSuffix(id, "*") && !strings.HasPrefix(id, "g:") && !strings.HasPrefix(id, "in:") && !strings.HasPrefix(id, "w:") {
			ren[id] = id + "*"
		}
	}
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		switch t.op {
		case OPtr, OIter:
			if n, ok := ren[t.s]; ok {
				return e.T.mk(t.op, n, nil, t.t, nil)
			}
		case OIdx:
			if li.insts[t.s] {
				return e.idx(t.s, "*", 0)
			}
		}
		return nil
	}
	rw := func(t *Term) *Term { return e.T.Rewrite(t, 6, memo, f) }
	for v, t := range st.env.vals {
		st.env.vals[v] = rw(t)
	}
	nh := make(map[string]*Obj, len(st.heap))
	ids := make([]string, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		o := st.heap[id]
		n := &Obj{kind: o.kind, typ: o.typ, summary: o.summary, next: o.next}
		if o.val != nil {
			n.val = rw(o.val)
		}
		for _, en := range o.ents {
			k, v := rw(en.k), rw(en.v)
			merged := false
			for x := range n.ents {
				if n.ents[x].k == k {
					var vt types.Type
					if m, ok := under(o.typ).(*types.Map); ok {
						vt = m.Elem()
					}
					n.ents[x].v = e.join(n.ents[x].v, v, vt, nil)
					n.ents[x].must = n.ents[x].must || en.must
					merged = true
				}
			}
			if !merged {
				n.ents = append(n.ents, Ent{k, v, en.must})
			}
		}
		if nid, ok := ren[id]; ok {
			n.summary = true
			id = nid
		}
		if p, ok := nh[id]; ok {
			p2 := *p
			nh[id] = e.joinObj(&p2, n, nil)
		} else {
			nh[id] = n
		}
	}
	st.heap = nh
	for k := range st.facts {
		if r := rw(k); r != k {
			delete(st.facts, k)
		}
	}
	for k := range st.eqc {
		if r := rw(k); r != k {
			delete(st.eqc, k)
		}
	}
}
