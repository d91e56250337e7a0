package main

// match.go: structural comparison of an abstract result with its specification.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Specifications: string, int, bool, *Term: equal to; nil: nil (or absent);
// D{x}: non-nil pointer to a value matching x; F: (pointer to a) struct, the listed fields match;
// Seq: a sequence of exactly these; M: a map with exactly these keys; HasM: with at least these; Any: anything.
type D struct{ x interface{} }
type Seq []interface{}
type M []interface{}    // key, value, key, value…
type HasM []interface{} // as M
type Bag []interface{}  // as Seq, in any order
type NotNil struct{}
type NotEmpty struct{} // a text that is not empty
type Whatever struct{}
type Pred func(st *State, got *Term) int
type OneOf []interface{}
type ZeroOr struct{ x interface{} } // an absent (zero) value, or x

// match returns 1, 0 or -1 (not determined), and the place of a difference.
func (b *B) match(st *State, got *Term, want interface{}, at string) (int, string) {
	if got == nil {
		return 0, at + " is missing"
	}
	got = b.e.res(st, got)
	if got.op == OUnk {
		return -1, at
	}
	if got.op == OIface {
		switch want.(type) {
		case NotNil, Whatever, nil, Pred:
		default:
			got = b.e.res(st, got.args[0])
		}
	}
	if got.op == OAlt {
		res := 1
		for _, a := range got.args {
			n, w := b.match(st, a, want, at)
			if n == 0 {
				return 0, w
			}
			if n < 0 {
				res = -1
			}
		}
		return res, at
	}
	show := func(t *Term) string {
		s := t.Path()
		if len(s) > 120 {
			s = s[:120] + "…"
		}
		return s
	}
	eq := func(w *Term) (int, string) {
		n := b.same(st, got, w)
		return n, fmt.Sprintf("%s is %s, not %s", at, show(got), show(w))
	}
	switch w := want.(type) {
	case Whatever:
		return 1, ""
	case Pred:
		return w(st, got), at + " is " + show(got)
	case NotEmpty:
		if s, ok := got.isStr(); ok {
			if s == "" {
				return 0, at + " is empty"
			}
			return 1, ""
		}
		n := b.e.isEmpty(st, got)
		if n < 0 {
			return -1, at
		}
		return 1 - n, at + " is empty"
	case NotNil:
		n := b.e.isNil(st, got)
		if n < 0 {
			return -1, at
		}
		return 1 - n, at + " is nil"
	case nil:
		if isEmptySeq(got) || got.op == ONil {
			return 1, ""
		}
		if o := b.e.obj(st, got); o != nil && o.kind == KMap && len(o.ents) == 0 {
			return 1, ""
		}
		n := b.e.isNil(st, got)
		if n == 0 && isSeqKind(got) {
			return b.e.isEmpty(st, got), at + " is " + show(got) + ", not empty"
		}
		return n, at + " is " + show(got) + ", not absent"
	case OneOf:
		res, where := 0, ""
		for _, x := range w {
			n, s := b.match(st, got, x, at)
			if n == 1 {
				return 1, ""
			}
			if n < 0 {
				res = -1
			}
			where = s
		}
		return res, where
	case ZeroOr:
		if n, _ := b.match(st, got, nil, at); n == 1 {
			return 1, ""
		}
		return b.match(st, got, w.x, at)
	case string:
		return eq(b.e.T.Str(w))
	case int:
		return eq(b.e.T.Int(int64(w)))
	case bool:
		if n := b.e.decide(st, got); n >= 0 {
			if (n == 1) == w {
				return 1, ""
			}
			return 0, fmt.Sprintf("%s is %v", at, !w)
		}
		return -1, at
	case *Term:
		return eq(w)
	case D:
		switch b.e.isNil(st, got) {
		case 1:
			return 0, at + " is absent"
		case -1:
			return -1, at
		}
		o := b.e.obj(st, got)
		if o == nil || o.kind != KCell || o.val == nil {
			return -1, at
		}
		return b.match(st, o.val, w.x, at)
	case F:
		if got.op == ONil {
			return 0, at + " is absent"
		}
		var ks []string
		for k := range w {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		res, where := 1, ""
		for _, k := range ks {
			n, s := b.match(st, b.get(st, got, k), w[k], at+"."+k)
			if n == 0 {
				return 0, s
			}
			if n < 0 && res == 1 {
				res, where = -1, s
			}
		}
		return res, where
	case Seq:
		if got.op == ONil {
			if len(w) == 0 {
				return 1, ""
			}
			return 0, at + " is empty"
		}
		xs, ok := b.items(got)
		if !ok {
			return -1, at
		}
		if len(xs) != len(w) {
			return 0, fmt.Sprintf("%s has %d elements, not %d", at, len(xs), len(w))
		}
		res, where := 1, ""
		for i := range xs {
			n, s := b.match(st, xs[i], w[i], fmt.Sprintf("%s[%d]", at, i))
			if n == 0 {
				return 0, s
			}
			if n < 0 && res == 1 {
				res, where = -1, s
			}
		}
		return res, where
	case Bag:
		if got.op == ONil {
			if len(w) == 0 {
				return 1, ""
			}
			return 0, at + " is empty"
		}
		xs, ok := b.items(got)
		if !ok {
			return -1, at
		}
		if len(xs) != len(w) {
			return 0, fmt.Sprintf("%s has %d elements, not %d", at, len(xs), len(w))
		}
		used := map[int]bool{}
		for i := range w {
			found, best, unk := -1, "", false
			for j := range xs {
				if used[j] {
					continue
				}
				n, s := b.match(st, xs[j], w[i], fmt.Sprintf("%s[%d]", at, j))
				if n == 1 {
					found = j
					break
				}
				if n < 0 {
					unk = true
				}
				if len(s) > len(best) {
					best = s
				}
			}
			if found < 0 {
				if unk {
					return -1, at
				}
				return 0, fmt.Sprintf("%s has no element as required (%d): %s", at, i, best)
			}
			used[found] = true
		}
		return 1, ""
	case M:
		n, s, _ := b.matchMap(st, got, w, at, true)
		return n, s
	case HasM:
		n, s, _ := b.matchMap(st, got, w, at, false)
		return n, s
	}
	panic(fmt.Sprintf("match: %T", want))
}

func isSeqKind(t *Term) bool {
	if t.op == OCat {
		return true
	}
	switch under2(t.t).(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func under2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return under(t)
}

func (b *B) matchMap(st *State, got *Term, w []interface{}, at string, exact bool) (int, string, int) {
	if got.op == ONil {
		if len(w) == 0 {
			return 1, "", 0
		}
		return 0, at + " is absent", 0
	}
	o := b.e.obj(st, got)
	if o == nil || o.kind != KMap {
		return -1, at, 0
	}
	exactKeys := o.val == nil
	res, where := 1, ""
	used := map[int]bool{}
	for i := 0; i+1 < len(w); i += 2 {
		key := b.term(w[i], tString)
		found := -1
		for j, en := range o.ents {
			if en.k == key || b.e.evalEq(st, en.k, key) == 1 {
				found = j
			}
		}
		if found < 0 {
			if !exactKeys {
				res, where = -1, at
				continue
			}
			// a key that is not known to differ may be it
			for _, en := range o.ents {
				if b.e.evalEq(st, en.k, key) < 0 {
					return -1, at, 0
				}
			}
			return 0, fmt.Sprintf("%s has no %s", at, key.Path()), 0
		}
		used[found] = true
		if !o.ents[found].must {
			res, where = -1, at
		}
		n, s := b.match(st, o.ents[found].v, w[i+1], at+"["+strings.Trim(key.Path(), `"`)+"]")
		if n == 0 {
			return 0, s, 0
		}
		if n < 0 && res == 1 {
			res, where = -1, s
		}
	}
	if exact {
		for j, en := range o.ents {
			if !used[j] {
				if en.must {
					return 0, fmt.Sprintf("%s has an extra key %s", at, en.k.Path()), 0
				}
				res, where = -1, at
			}
		}
		if !exactKeys {
			res, where = -1, at
		}
	}
	return res, where, 0
}

// matches requires every outcome to succeed with a value that matches the specification.
func (o *O) matches(rs []Ret, what string, want interface{}) {
	o.matchesAt(rs, what, want, func(r Ret) *Term { return valOf(r) })
}

func (o *O) matchesAt(rs []Ret, what string, want interface{}, pick func(r Ret) *Term) {
	o.expect(rs, what, func(r Ret) int {
		if r.kind != RReturn {
			return 0
		}
		if r.val != nil && r.val.op == OTuple && len(r.val.args) >= 2 {
			if n := o.b.accepts(r); n != 1 {
				return n
			}
		}
		n, where := o.b.match(r.st, pick(r), want, "result")
		if n == 0 {
			o.fail(r.where(o.c.p), what+": "+where, r.st)
			return 1
		}
		if n < 0 {
			o.undecided("value not determined: " + what + ": " + where)
			return 1
		}
		return n
	})
}
