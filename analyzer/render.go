package main

// render.go: turns an abstract text into a representative text, each atom standing for its own name.

import (
	"go/constant"
	"strconv"
	"strings"
)

// render gives the text with every atom replaced by its name; ok is false when part of the text is not determined.
func (b *B) render(st *State, t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if b != nil && st != nil {
		t = b.e.res(st, t)
	}
	return renderIn(t, func(x *Term) (string, bool) {
		if st != nil {
			if k, ok := st.eqc[x]; ok && k.op == OConst {
				return renderTerm(k)
			}
		}
		if x.op == OSym {
			// an arbitrary number, shown as a representative
			if i := strings.IndexByte(x.s, '#'); i >= 0 && i <= 2 {
				return x.s[i+1:], true
			}
		}
		return "", false
	})
}

func renderTerm(t *Term) (string, bool) { return renderIn(t, nil) }

func renderIn(t *Term, in func(*Term) (string, bool)) (string, bool) {
	if t == nil {
		return "", false
	}
	if in != nil {
		if s, ok := in(t); ok {
			return s, true
		}
	}
	renderTerm := func(t *Term) (string, bool) { return renderIn(t, in) }
	switch t.op {
	case OConst:
		if t.c.Kind() == constant.String {
			return constant.StringVal(t.c), true
		}
		if s := decText(t.c); s != "" && isNum(t.c) {
			return s, true
		}
		return t.c.ExactString(), true
	case OSym:
		if strings.HasPrefix(t.s, "@") {
			return t.s[1:], true
		}
		return "", false
	case OCat:
		var sb strings.Builder
		for _, p := range t.args {
			s, ok := renderTerm(p)
			if !ok {
				return sb.String(), false
			}
			sb.WriteString(s)
		}
		return sb.String(), true
	case OItem:
		if n, ok := t.args[0].isInt(); ok {
			return string([]byte{byte(n)}), true
		}
	case OIface:
		return renderTerm(t.args[0])
	case OCall:
		if len(t.args) == 0 {
			return "", false
		}
		switch t.s {
		case "big.Text":
			// the shortest plain form of a number
			if len(t.args) == 3 {
				f, ok := t.args[1].isInt()
				if n, ok2 := t.args[2].isInt(); ok && ok2 && f == 'f' && n == -1 {
					return renderTerm(t.args[0])
				}
			}
		case "cap", "uncap", "strings.ToUpper", "strings.ToLower", "quote", "strings.TrimSpace", "bytes", "itoa":
			s, ok := renderTerm(t.args[0])
			if !ok {
				return "", false
			}
			switch t.s {
			case "cap":
				if s != "" {
					s = strings.ToUpper(s[:1]) + s[1:]
				}
			case "uncap":
				if s != "" {
					s = strings.ToLower(s[:1]) + s[1:]
				}
			case "strings.ToUpper":
				s = strings.ToUpper(s)
			case "strings.ToLower":
				s = strings.ToLower(s)
			case "quote":
				s = strconv.Quote(s)
			case "strings.TrimSpace":
				s = strings.TrimSpace(s)
			}
			return s, true
		case "slice":
			s, ok := renderTerm(t.args[0])
			if !ok {
				return "", false
			}
			lo, hi := 0, len(s)
			if n, ok := t.args[1].isInt(); ok {
				lo = int(n)
			} else if t.args[1].op != ONil {
				return "", false
			}
			if n, ok := t.args[2].isInt(); ok {
				hi = int(n)
			} else if t.args[2].op != ONil {
				return "", false
			}
			if lo <= hi && hi <= len(s) && lo >= 0 {
				return s[lo:hi], true
			}
		}
	}
	return "", false
}
