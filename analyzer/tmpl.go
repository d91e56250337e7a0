package main

// tmpl.go: abstract evaluation of text/template templates with constant source.

import (
	"go/constant"
	"go/types"
	"strconv"
	"text/template/parse"
)

type tmplInfo struct {
	tree *parse.Tree
	set  map[string]*parse.Tree
}

var builtinTmpl = map[string]bool{"and": true, "or": true, "not": true, "eq": true, "ne": true, "lt": true, "le": true, "gt": true, "ge": true, "len": true, "index": true, "slice": true,
	"print": true, "printf": true, "println": true, "html": true, "js": true, "urlquery": true, "call": true}

func addTemplateModels(m map[string]model) {
	cell := func(e *Engine, name, funcs, src *Term) *Term {
		return e.T.mk(OCall, "tmpl", nil, nil, nil, name, funcs, src)
	}
	m["text/template.New"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		return one(c, e.newObj(c, "tmpl", cell(e, a[0], e.T.Nil(), e.T.Nil()), nil))
	}
	m["(*text/template.Template).Funcs"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		v := e.load(c.st, a[0], nil)
		if v.op == OCall && v.s == "tmpl" {
			f := a[1]
			if v.args[1].op != ONil {
				f = e.T.Unk("funcs", nil)
			}
			e.store(c.st, a[0], cell(e, v.args[0], f, v.args[2]), nil, c.pos(), c.caller)
		}
		return one(c, a[0])
	}
	m["(*text/template.Template).Parse"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		v := e.load(c.st, a[0], nil)
		src := e.res(c.st, a[1])
		s, ok := src.isStr()
		if v.op != OCall || v.s != "tmpl" || !ok {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		ti, err := parseTmpl(s)
		if err == nil && v.args[1].op != OUnk {
			for fn := range tmplFuncs(ti) {
				if !builtinTmpl[fn] && e.tmplFunc(c.st, v.args[1], fn) == nil {
					return one(c, e.T.Tuple(e.T.Nil(), e.T.Err(e.T.Str("function "+fn+" not defined"))))
				}
			}
		}
		if err != nil {
			return one(c, e.T.Tuple(e.T.Nil(), e.T.Err(e.T.Str(err.Error()))))
		}
		e.store(c.st, a[0], cell(e, v.args[0], v.args[1], src), nil, c.pos(), c.caller)
		return one(c, e.T.Tuple(a[0], e.T.Nil()))
	}
	m["text/template.Must"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		if a[1].op != ONil {
			return []Ret{{st: c.st, kind: RPanic, pos: c.pos(), msg: "template.Must", fn: c.caller}}
		}
		return one(c, a[0])
	}
	m["(*text/template.Template).Execute"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		v := e.load(c.st, a[0], nil)
		if v.op != OCall || v.s != "tmpl" || v.args[1].op == OUnk {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		s, ok := v.args[2].isStr()
		if !ok {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		ti, err := parseTmpl(s)
		if err != nil {
			return e.opaqueCall(c.st, c.caller, c.in, c.name, a, c.rt)
		}
		x := &tmplExec{e: e, c: c, funcs: v.args[1], ti: ti}
		var out []Ret
		for _, r := range x.list(tmplSt{st: c.st, out: e.T.Str(""), vars: map[string]*Term{"$": a[2]}}, a[2], ti.tree.Root) {
			if r.exit != nil {
				out = append(out, *r.exit)
				continue
			}
			if r.err != nil {
				// the text so far has been written
				for _, w := range e.writeTo(r.st, a[1], r.out, c) {
					out = append(out, Ret{st: w.st, val: r.err})
				}
				continue
			}
			out = append(out, e.writeTo(r.st, a[1], r.out, c)...)
		}
		return out
	}
}

var tmplParsed = map[string]*tmplInfo{}

func parseTmpl(s string) (*tmplInfo, error) {
	if t, ok := tmplParsed[s]; ok {
		return t, nil
	}
	t := parse.New("t")
	t.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	_, err := t.Parse(s, "", "", set)
	if err != nil {
		return nil, err
	}
	ti := &tmplInfo{tree: t, set: set}
	tmplParsed[s] = ti
	return ti, nil
}

func tmplFuncs(ti *tmplInfo) map[string]bool {
	out := map[string]bool{}
	var walk func(n parse.Node)
	walk = func(n parse.Node) {
		switch x := n.(type) {
		case *parse.ListNode:
			if x != nil {
				for _, y := range x.Nodes {
					walk(y)
				}
			}
		case *parse.ActionNode:
			walk(x.Pipe)
		case *parse.PipeNode:
			if x != nil {
				for _, y := range x.Cmds {
					for _, z := range y.Args {
						walk(z)
					}
				}
			}
		case *parse.IdentifierNode:
			out[x.Ident] = true
		case *parse.IfNode:
			walk(x.Pipe)
			walk(x.List)
			walk(x.ElseList)
		case *parse.RangeNode:
			walk(x.Pipe)
			walk(x.List)
			walk(x.ElseList)
		case *parse.WithNode:
			walk(x.Pipe)
			walk(x.List)
			walk(x.ElseList)
		case *parse.TemplateNode:
			walk(x.Pipe)
		case *parse.ChainNode:
			walk(x.Node)
		}
	}
	walk(ti.tree.Root)
	for _, t := range ti.set {
		walk(t.Root)
	}
	return out
}

func (e *Engine) tmplFunc(st *State, funcs *Term, name string) *Term {
	if funcs.op == ONil {
		return nil
	}
	o := e.obj(st, funcs)
	if o == nil || o.kind != KMap {
		return nil
	}
	for _, en := range o.ents {
		if s, ok := en.k.isStr(); ok && s == name {
			return en.v
		}
	}
	return nil
}

type tmplSt struct {
	st   *State
	out  *Term
	vars map[string]*Term
	err  *Term // execution error
	exit *Ret
	val  *Term // result of an expression
	brk  int   // 1 break, 2 continue
}

type tmplExec struct {
	e     *Engine
	c     *callCtx
	funcs *Term
	ti    *tmplInfo
	n     int
}

func (x *tmplExec) fail(s tmplSt, why string) []tmplSt {
	s.err = x.e.T.Err(x.e.T.Str("template: " + why))
	return []tmplSt{s}
}

func (x *tmplExec) unknown(s tmplSt, why string) []tmplSt {
	x.e.unmodelled["template:"+why]++
	s.val = x.e.T.Unk("template:"+why, nil)
	return []tmplSt{s}
}

func bindVar(v map[string]*Term, k string, t *Term) map[string]*Term {
	n := map[string]*Term{}
	for a, b := range v {
		n[a] = b
	}
	n[k] = t
	return n
}

func (x *tmplExec) list(s tmplSt, dot *Term, l *parse.ListNode) []tmplSt {
	cur := []tmplSt{s}
	if l == nil {
		return cur
	}
	for _, n := range l.Nodes {
		var next []tmplSt
		for _, q := range cur {
			if q.err != nil || q.exit != nil || q.brk != 0 {
				next = append(next, q)
				continue
			}
			next = append(next, x.node(q, dot, n)...)
		}
		cur = next
		if len(cur) > 64 {
			x.e.fatal("template: too many outcomes")
		}
	}
	return cur
}

func (x *tmplExec) node(s tmplSt, dot *Term, n parse.Node) []tmplSt {
	e := x.e
	e.tick()
	switch n := n.(type) {
	case *parse.TextNode:
		s.out = e.cat(s.out, e.T.Str(string(n.Text)))
		return []tmplSt{s}
	case *parse.CommentNode:
		return []tmplSt{s}
	case *parse.BreakNode:
		s.brk = 1
		return []tmplSt{s}
	case *parse.ContinueNode:
		s.brk = 2
		return []tmplSt{s}
	case *parse.ActionNode:
		var out []tmplSt
		for _, r := range x.pipe(s, dot, n.Pipe) {
			if r.err != nil || r.exit != nil || len(n.Pipe.Decl) > 0 {
				out = append(out, r)
				continue
			}
			out = append(out, x.print(r, r.val)...)
		}
		return out
	case *parse.IfNode:
		return x.cond(s, dot, n.Pipe, n.List, n.ElseList, false)
	case *parse.WithNode:
		return x.cond(s, dot, n.Pipe, n.List, n.ElseList, true)
	case *parse.RangeNode:
		return x.rng(s, dot, n)
	case *parse.TemplateNode:
		t := x.ti.set[n.Name]
		if t == nil {
			return x.fail(s, "template not defined")
		}
		rs := []tmplSt{s}
		if n.Pipe != nil {
			rs = x.pipe(s, dot, n.Pipe)
		}
		var out []tmplSt
		for _, r := range rs {
			if r.err != nil || r.exit != nil {
				out = append(out, r)
				continue
			}
			d := r.val
			if n.Pipe == nil {
				d = e.T.Nil()
			}
			vars := r.vars
			r.vars = map[string]*Term{"$": d}
			for _, q := range x.list(r, d, t.Root) {
				q.vars = vars
				out = append(out, q)
			}
		}
		return out
	}
	return x.unknown(s, "node")
}

// truth splits on the truth value of a template value.
func (x *tmplExec) truth(s tmplSt, v *Term) (t, f []tmplSt) {
	e := x.e
	var cond *Term
	ty := x.typeOf(v)
	y := unIface(v)
	neg := false
	if y.op == ONil || y.op == OZero && !isStructType(ty) {
		return nil, []tmplSt{s}
	}
	switch u := under(ty).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			cond = y
		case u.Info()&types.IsString != 0:
			cond, neg = e.emptyTerm(y), true
		case u.Info()&types.IsNumeric != 0:
			cond, neg = e.eqTerm(y, e.T.Int(0)), true
		}
	case *types.Slice, *types.Map, *types.Array:
		cond, neg = e.emptyTerm(y), true
		if n := e.isEmpty(s.st, y); n >= 0 {
			cond = e.T.Bool(n == 1)
		}
	case *types.Pointer, *types.Interface:
		cond, neg = e.eqTerm(y, e.T.Nil()), true
		if n := e.isNil(s.st, y); n >= 0 {
			cond = e.T.Bool(n == 1)
		}
	case *types.Struct:
		return []tmplSt{s}, nil
	}
	if cond == nil {
		cond = e.T.Unk("template condition", tBool)
	}
	a, b := e.branch(s.st, cond, x.c.caller, x.c.pos())
	if neg {
		a, b = b, a
	}
	for _, q := range a {
		r := s
		r.st = q
		t = append(t, r)
	}
	for _, q := range b {
		r := s
		r.st = q
		f = append(f, r)
	}
	return
}

func isStructType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}

func (x *tmplExec) typeOf(v *Term) types.Type {
	if v == nil {
		return nil
	}
	if v.t != nil {
		if v.op == OIface {
			return v.t
		}
		return v.t
	}
	if v.op == OConst {
		switch v.c.Kind() {
		case constant.String:
			return tString
		case constant.Bool:
			return tBool
		case constant.Int:
			return types.Typ[types.Int]
		}
	}
	if isSeqTerm(v) {
		return tString
	}
	return nil
}

func isSeqTerm(v *Term) bool { return v.op == OCat && (len(v.args) == 0 || !isItemSeq(v)) }

// typed keeps the static type of a value by boxing it.
func (x *tmplExec) typed(v *Term, t types.Type) *Term {
	if t == nil || v.op == OIface {
		return v
	}
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	return x.e.T.Iface(t, v)
}

func (x *tmplExec) cond(s tmplSt, dot *Term, p *parse.PipeNode, l, el *parse.ListNode, with bool) []tmplSt {
	var out []tmplSt
	vars := s.vars
	for _, r := range x.pipe(s, dot, p) {
		if r.err != nil || r.exit != nil {
			out = append(out, r)
			continue
		}
		v := r.val
		t, f := x.truth(r, v)
		for _, q := range t {
			d := dot
			if with {
				d = v
			}
			out = append(out, x.list(q, d, l)...)
		}
		for _, q := range f {
			out = append(out, x.list(q, dot, el)...)
		}
	}
	for i := range out {
		out[i].vars = vars
	}
	return out
}

func (x *tmplExec) rng(s tmplSt, dot *Term, n *parse.RangeNode) []tmplSt {
	e := x.e
	vars := s.vars
	var out []tmplSt
	p := *n.Pipe
	decl := p.Decl
	p.Decl = nil
	for _, r := range x.pipe(s, dot, &p) {
		if r.err != nil || r.exit != nil {
			out = append(out, r)
			continue
		}
		ty := x.typeOf(r.val)
		v := e.res(r.st, unIface(r.val))
		var et types.Type
		type kv struct{ k, v *Term }
		var items []kv
		known := false
		switch u := under(ty).(type) {
		case *types.Slice:
			et = u.Elem()
			if v.op == ONil || v.op == OZero {
				known = true
				break
			}
			known = true
			for i, q := range parts(v) {
				if q.op != OItem {
					known = false
					break
				}
				items = append(items, kv{e.T.Int(int64(i)), q.args[0]})
			}
		case *types.Map:
			et = u.Elem()
			if v.op == ONil {
				known = true
				break
			}
			if o := e.obj(r.st, v); o != nil && o.kind == KMap && o.val == nil {
				known = true
				// templates iterate in sorted key order; only constant keys have a known order
				for _, en := range o.ents {
					_, ok := en.k.isStr()
					if !en.must || !ok && len(o.ents) > 1 {
						known = false
					}
					items = append(items, kv{en.k, en.v})
				}
				for i := 1; i < len(items); i++ {
					for j := i; j > 0; j-- {
						a, _ := items[j-1].k.isStr()
						b, _ := items[j].k.isStr()
						if b < a {
							items[j-1], items[j] = items[j], items[j-1]
						}
					}
				}
			}
		}
		if !known {
			e.unmodelled["template:range"]++
			r.out = e.cat(r.out, e.T.Unk("template:range", tString))
			out = append(out, r)
			continue
		}
		if len(items) == 0 {
			out = append(out, x.list(r, dot, n.ElseList)...)
			continue
		}
		cur := []tmplSt{r}
		for _, it := range items {
			var next []tmplSt
			for _, q := range cur {
				if q.err != nil || q.exit != nil || q.brk == 1 {
					next = append(next, q)
					continue
				}
				d := x.typed(it.v, et)
				if len(decl) == 1 {
					q.vars = bindVar(q.vars, decl[0].Ident[0], d)
				} else if len(decl) == 2 {
					q.vars = bindVar(bindVar(q.vars, decl[0].Ident[0], it.k), decl[1].Ident[0], d)
				}
				for _, z := range x.list(q, d, n.List) {
					if z.brk == 2 {
						z.brk = 0
					}
					next = append(next, z)
				}
			}
			cur = next
		}
		for _, q := range cur {
			q.brk = 0
			out = append(out, q)
		}
	}
	for i := range out {
		out[i].vars = vars
	}
	return out
}

func (x *tmplExec) print(s tmplSt, v *Term) []tmplSt {
	e := x.e
	if v.op == ONil {
		s.out = e.cat(s.out, e.T.Str("<no value>"))
		return []tmplSt{s}
	}
	t := x.typeOf(v)
	y := v
	if v.op != OIface && t != nil {
		y = e.T.Iface(t, v)
	}
	if pt, ok := under(t).(*types.Pointer); ok && y.op == OIface {
		ms := e.P.prog.MethodSets.MethodSet(t)
		if ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil {
			if e.isNil(s.st, y.args[0]) == 1 {
				s.out = e.cat(s.out, e.T.Str("<nil>"))
				return []tmplSt{s}
			}
			y = e.T.Iface(pt.Elem(), e.load(s.st, y.args[0], pt.Elem()))
		}
	}
	var out []tmplSt
	for _, p := range e.fmtValue(s.st, 'v', "", y, x.c) {
		q := s
		q.st = p.st
		q.out = e.cat(s.out, p.v)
		out = append(out, q)
	}
	return out
}

func (x *tmplExec) pipe(s tmplSt, dot *Term, p *parse.PipeNode) []tmplSt {
	cur := []tmplSt{s}
	for i, cmd := range p.Cmds {
		var next []tmplSt
		for _, q := range cur {
			if q.err != nil || q.exit != nil {
				next = append(next, q)
				continue
			}
			var final *Term
			if i > 0 {
				final = q.val
			}
			next = append(next, x.cmd(q, dot, cmd, final)...)
		}
		cur = next
	}
	for i := range cur {
		for _, d := range p.Decl {
			if cur[i].val != nil {
				cur[i].vars = bindVar(cur[i].vars, d.Ident[0], cur[i].val)
			}
		}
	}
	return cur
}

func (x *tmplExec) cmd(s tmplSt, dot *Term, cmd *parse.CommandNode, final *Term) []tmplSt {
	first := cmd.Args[0]
	switch n := first.(type) {
	case *parse.IdentifierNode:
		return x.callNamed(s, dot, n.Ident, cmd.Args[1:], final)
	case *parse.FieldNode:
		return x.chain(s, dot, dot, n.Ident, cmd.Args[1:], final)
	case *parse.VariableNode:
		v, ok := s.vars[n.Ident[0]]
		if !ok {
			return x.unknown(s, "variable")
		}
		return x.chain(s, dot, v, n.Ident[1:], cmd.Args[1:], final)
	}
	return x.arg(s, dot, first)
}

func (x *tmplExec) arg(s tmplSt, dot *Term, n parse.Node) []tmplSt {
	e := x.e
	ret := func(v *Term) []tmplSt { s.val = v; return []tmplSt{s} }
	switch n := n.(type) {
	case *parse.DotNode:
		return ret(dot)
	case *parse.NilNode:
		return ret(e.T.Nil())
	case *parse.BoolNode:
		return ret(e.T.Iface(tBool, e.T.Bool(n.True)))
	case *parse.StringNode:
		return ret(e.T.Iface(tString, e.T.Str(n.Text)))
	case *parse.NumberNode:
		if n.IsInt {
			return ret(e.T.Iface(types.Typ[types.Int], e.T.Int(n.Int64)))
		}
		return x.unknown(s, "number")
	case *parse.FieldNode:
		return x.chain(s, dot, dot, n.Ident, nil, nil)
	case *parse.VariableNode:
		v, ok := s.vars[n.Ident[0]]
		if !ok {
			return x.unknown(s, "variable")
		}
		return x.chain(s, dot, v, n.Ident[1:], nil, nil)
	case *parse.PipeNode:
		return x.pipe(s, dot, n)
	case *parse.IdentifierNode:
		return x.callNamed(s, dot, n.Ident, nil, nil)
	case *parse.ChainNode:
		var out []tmplSt
		for _, r := range x.arg(s, dot, n.Node) {
			if r.err != nil || r.exit != nil {
				out = append(out, r)
				continue
			}
			out = append(out, x.chain(r, dot, r.val, n.Field, nil, nil)...)
		}
		return out
	}
	return x.unknown(s, "argument")
}

func (x *tmplExec) args(s tmplSt, dot *Term, ns []parse.Node, final *Term) (out []tmplSt, vals [][]*Term) {
	out = []tmplSt{s}
	vals = [][]*Term{nil}
	for _, n := range ns {
		var o2 []tmplSt
		var v2 [][]*Term
		for i, q := range out {
			if q.err != nil || q.exit != nil {
				o2, v2 = append(o2, q), append(v2, vals[i])
				continue
			}
			for _, r := range x.arg(q, dot, n) {
				o2 = append(o2, r)
				v2 = append(v2, append(append([]*Term{}, vals[i]...), r.val))
			}
		}
		out, vals = o2, v2
	}
	if final != nil {
		for i := range vals {
			vals[i] = append(vals[i], final)
		}
	}
	return
}

func (x *tmplExec) chain(s tmplSt, dot, v *Term, names []string, args []parse.Node, final *Term) []tmplSt {
	cur := []tmplSt{s}
	cur[0].val = v
	for i, nm := range names {
		var next []tmplSt
		for _, q := range cur {
			if q.err != nil || q.exit != nil {
				next = append(next, q)
				continue
			}
			if i == len(names)-1 {
				next = append(next, x.field(q, dot, q.val, nm, args, final)...)
			} else {
				next = append(next, x.field(q, dot, q.val, nm, nil, nil)...)
			}
		}
		cur = next
	}
	return cur
}

func (x *tmplExec) field(s tmplSt, dot, v *Term, name string, args []parse.Node, final *Term) []tmplSt {
	e := x.e
	t := x.typeOf(v)
	y := unIface(v)
	if t == nil {
		if y.op == ONil {
			return x.fail(s, "nil data; no entry for "+name)
		}
		return x.unknown(s, "field "+name)
	}
	if y.op == OAlt || y.op == OUnk {
		return x.unknown(s, "field "+name)
	}
	// methods
	ms := e.P.prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(nil, name); sel != nil {
		if f := e.P.prog.MethodValue(sel); f != nil {
			os, vs := x.args(s, dot, args, final)
			var out []tmplSt
			for i, q := range os {
				if q.err != nil || q.exit != nil {
					out = append(out, q)
					continue
				}
				out = append(out, x.callFn(q, f, nil, append([]*Term{y}, vs[i]...), f.Signature, true)...)
			}
			return out
		}
	}
	if pt, ok := under(t).(*types.Pointer); ok {
		switch e.isNil(s.st, y) {
		case 1:
			return x.fail(s, "nil pointer evaluating "+name)
		case -1:
			a, b := e.branch(s.st, e.eqTerm(y, e.T.Nil()), x.c.caller, x.c.pos())
			var out []tmplSt
			for _, q := range a {
				r := s
				r.st = q
				out = append(out, x.fail(r, "nil pointer evaluating "+name)...)
			}
			for _, q := range b {
				r := s
				r.st = q
				out = append(out, x.field(r, dot, e.T.Iface(pt.Elem(), e.load(q, y, pt.Elem())), name, args, final)...)
			}
			return out
		}
		return x.field(s, dot, e.T.Iface(pt.Elem(), e.load(s.st, y, pt.Elem())), name, args, final)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		r, ft := x.structField(s.st, y, u, name)
		if r == nil {
			return x.fail(s, "no field "+name)
		}
		s.val = x.typed(r, ft)
		return []tmplSt{s}
	case *types.Map:
		var out []tmplSt
		for _, l := range e.lookup(s.st, y, e.T.Str(name), t, x.c.caller, x.c.pos()) {
			q := s
			q.st = l.st
			q.val = x.typed(l.v, u.Elem())
			out = append(out, q)
		}
		return out
	}
	return x.fail(s, "cannot evaluate field "+name)
}

func (x *tmplExec) structField(st *State, v *Term, s *types.Struct, name string) (*Term, types.Type) {
	e := x.e
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if !s.Field(i).Exported() {
				return nil, nil
			}
			return e.fld(v, s, i), s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		ft := f.Type()
		sub := e.fld(v, s, i)
		if p, ok := ft.(*types.Pointer); ok {
			if e.isNil(st, sub) == 1 {
				continue
			}
			sub = e.load(st, sub, p.Elem())
			ft = p.Elem()
		}
		if u, ok := under(ft).(*types.Struct); ok {
			if r, t := x.structField(st, sub, u, name); r != nil {
				return r, t
			}
		}
	}
	return nil, nil
}

func (x *tmplExec) callNamed(s tmplSt, dot *Term, name string, ns []parse.Node, final *Term) []tmplSt {
	e := x.e
	os, vs := x.args(s, dot, ns, final)
	var out []tmplSt
	fv := e.tmplFunc(s.st, x.funcs, name)
	for i, q := range os {
		if q.err != nil || q.exit != nil {
			out = append(out, q)
			continue
		}
		if fv != nil {
			f := unIface(fv)
			if f.op != OClosure {
				out = append(out, x.unknown(q, "func "+name)...)
				continue
			}
			out = append(out, x.callFn(q, f.fn, f.args, vs[i], f.fn.Signature, false)...)
			continue
		}
		out = append(out, x.builtin(q, name, vs[i])...)
	}
	return out
}

func (x *tmplExec) builtin(s tmplSt, name string, a []*Term) []tmplSt {
	e := x.e
	switch name {
	case "eq", "ne":
		if len(a) == 2 {
			c := e.eqTerm(unIface(a[0]), unIface(a[1]))
			if n := e.evalEq(s.st, unIface(a[0]), unIface(a[1])); n >= 0 {
				c = e.T.Bool(n == 1)
			}
			if name == "ne" {
				c = e.T.Not(c)
			}
			s.val = e.T.Iface(tBool, c)
			return []tmplSt{s}
		}
	case "not":
		t, f := x.truth(s, a[0])
		for i := range t {
			t[i].val = e.T.Iface(tBool, e.T.Bool(false))
		}
		for i := range f {
			f[i].val = e.T.Iface(tBool, e.T.Bool(true))
		}
		return append(t, f...)
	case "and", "or":
		cur := []tmplSt{s}
		var out []tmplSt
		for i, v := range a {
			var next []tmplSt
			for _, q := range cur {
				t, f := x.truth(q, v)
				if name == "or" {
					t, f = f, t
				}
				// t continues, f stops
				for _, z := range f {
					z.val = v
					out = append(out, z)
				}
				for _, z := range t {
					z.val = v
					if i == len(a)-1 {
						out = append(out, z)
					} else {
						next = append(next, z)
					}
				}
			}
			cur = next
		}
		return out
	case "len":
		s.val = e.T.Iface(types.Typ[types.Int], e.length(s.st, unIface(a[0])))
		return []tmplSt{s}
	case "print", "println", "printf":
		var xs []*Term
		fm := ""
		rest := a
		if name == "printf" {
			f, ok := unIface(a[0]).isStr()
			if !ok {
				return x.unknown(s, name)
			}
			fm = f
			rest = a[1:]
		}
		for _, v := range rest {
			xs = append(xs, e.T.Item(v))
		}
		var ps []piece
		if name == "printf" {
			ps = e.sprintf(s.st, e.T.Str(fm), e.catParts(xs), x.c)
		} else {
			ps = e.sprint(s.st, e.catParts(xs), x.c, name == "println")
		}
		var out []tmplSt
		for _, p := range ps {
			q := s
			q.st = p.st
			q.val = e.T.Iface(tString, p.v)
			out = append(out, q)
		}
		return out
	}
	return x.unknown(s, "builtin "+name)
}

func (x *tmplExec) callFn(s tmplSt, f interface{}, free []*Term, args []*Term, sig *types.Signature, recv bool) []tmplSt {
	e := x.e
	fn := ssaFunc(f)
	// unbox arguments to the parameter types
	off := 0
	if recv {
		off = 1
	}
	vals := make([]*Term, len(args))
	for i, a := range args {
		vals[i] = a
		if recv && i == 0 {
			continue
		}
		if i-off >= sig.Params().Len() {
			return x.fail(s, "wrong number of args")
		}
		pt := sig.Params().At(i - off).Type()
		if _, ok := under(pt).(*types.Interface); !ok {
			vals[i] = unIface(a)
			if ap, ok := typeUnder(x.typeOf(a)).(*types.Pointer); ok && types.Identical(ap.Elem(), pt) {
				// a pointer is dereferenced for a function that takes the value
				if e.isNil(s.st, vals[i]) == 1 {
					return x.fail(s, "dereference of nil pointer")
				}
				vals[i] = e.load(s.st, vals[i], pt)
			} else if at := x.typeOf(a); at != nil && a.op == OIface {
				if !types.AssignableTo(at, pt) {
					return x.fail(s, "wrong type for value")
				}
			}
		} else if a.op != OIface && a.op != ONil {
			vals[i] = x.typed(a, x.typeOf(a))
		}
	}
	if len(args)-off < sig.Params().Len() {
		return x.fail(s, "wrong number of args")
	}
	x.n++
	ctx := s.st.env.ctx + "/t" + strconv.Itoa(x.n)
	if x.c.in != nil && x.c.caller != nil {
		ctx = s.st.env.ctx + "/" + strconv.Itoa(e.cfgOf(x.c.caller).number[x.c.in]) + "t" + strconv.Itoa(x.n)
	}
	var rs []Ret
	if m, ok := e.modelCall[fn.String()]; ok {
		rt := types.Type(sig.Results())
		if sig.Results().Len() == 1 {
			rt = sig.Results().At(0).Type()
		}
		rs = m(e, &callCtx{st: s.st, caller: x.c.caller, in: x.c.in, rt: rt, fn: fn, name: fn.String()}, vals)
	} else if len(fn.Blocks) == 0 {
		return x.unknown(s, "func "+fn.String())
	} else {
		rs = e.callBody(s.st, fn, vals, free, ctx, "")
	}
	var out []tmplSt
	for _, r := range rs {
		r := r
		q := s
		q.st = r.st
		switch r.kind {
		case RPanic:
			// text/template turns a panic of a function into an error
			q.err = e.T.Err(e.T.Str("error calling " + fn.Name() + ": " + r.msg))
		case RExit:
			q.exit = &r
		default:
			v := r.val
			if sig.Results().Len() == 2 && v.op == OTuple {
				switch e.isNil(r.st, v.args[1]) {
				case 0:
					q.err = v.args[1]
				case -1:
					out = append(out, x.unknown(q, "error result")...)
					continue
				}
				v = v.args[0]
			}
			q.val = x.typed(v, sig.Results().At(0).Type())
		}
		out = append(out, q)
	}
	return out
}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return under(t)
}
