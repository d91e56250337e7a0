package main

// sadltext.go: splits a symbolic SADL source text into the scanner's tokens.

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// sadlTokens is the transfer function of scanner.NewScanner: it splits the whole text at once.
func sadlTokens(e *Engine, src *Term) (toks []sadlTok, why string) {
	type ch struct {
		c byte
		t *Term
	}
	var cs []ch
	for _, p := range jsonParts(e, parts(src)) {
		if s, ok := p.isStr(); ok {
			for i := 0; i < len(s); i++ {
				cs = append(cs, ch{c: s[i]})
			}
			continue
		}
		if p.op == OUnk || p.op == OAlt || p.op == OStar {
			return nil, "text of unknown form: " + p.Path()
		}
		cs = append(cs, ch{t: p})
	}
	text := func(xs []ch) *Term {
		var ts []*Term
		for _, x := range xs {
			if x.t != nil {
				ts = append(ts, x.t)
			} else {
				ts = append(ts, e.T.Str(string([]byte{x.c})))
			}
		}
		return e.T.Cat(append([]*Term{e.T.Str("")}, ts...)...)
	}
	ident := func(x ch) bool {
		if x.t != nil {
			return !isNumText(x.t) && !(x.t.op == OCall && x.t.s == "quote")
		}
		return x.c == '_' || x.c >= 'a' && x.c <= 'z' || x.c >= 'A' && x.c <= 'Z'
	}
	digit := func(x ch) bool {
		if x.t != nil {
			return isNumText(x.t)
		}
		return x.c >= '0' && x.c <= '9'
	}
	punct := map[byte]string{':': "COLON", ';': "SEMICOLON", ',': "COMMA", '.': "DOT", '@': "AT", '#': "HASH", '=': "EQUALS", '$': "DOLLAR", '{': "OPEN_BRACE", '}': "CLOSE_BRACE",
		'[': "OPEN_BRACKET", ']': "CLOSE_BRACKET", '(': "OPEN_PAREN", ')': "CLOSE_PAREN", '<': "OPEN_ANGLE", '>': "CLOSE_ANGLE", '*': "STAR", '!': "BANG", '?': "QUESTION", '-': "DASH", '/': "SLASH",
		'|': "PIPE", '&': "AMPERSAND", '%': "PERCENT", '~': "TILDE", '`': "BACKTICK", '^': "CARET", '\'': "QUOTE", '+': "PLUS", '\\': "BACKSLASH"}
	for i := 0; i < len(cs); {
		x := cs[i]
		switch {
		case x.t == nil && (x.c == ' ' || x.c == '\t' || x.c == '\r'):
			i++
		case x.t == nil && x.c == '\n':
			toks = append(toks, sadlTok{"NEWLINE", e.T.Str("\n")})
			i++
		case x.t == nil && x.c == '/' && i+1 < len(cs) && cs[i+1].t == nil && cs[i+1].c == '/':
			j := i + 2
			for j < len(cs) && !(cs[j].t == nil && cs[j].c == '\n') {
				j++
			}
			toks = append(toks, sadlTok{"LINE_COMMENT", text(cs[i+2 : j])})
			i = j
		case x.t == nil && x.c == '/' && i+1 < len(cs) && cs[i+1].t == nil && cs[i+1].c == '*':
			j := i + 2
			for j+1 < len(cs) && !(cs[j].t == nil && cs[j].c == '*' && cs[j+1].t == nil && cs[j+1].c == '/') {
				j++
			}
			if j+1 >= len(cs) {
				return nil, "comment without end"
			}
			toks = append(toks, sadlTok{"BLOCK_COMMENT", text(cs[i+2 : j])})
			i = j + 2
		case x.t != nil && x.t.op == OCall && x.t.s == "quote":
			toks = append(toks, sadlTok{"STRING", x.t.args[0]})
			i++
		case x.t == nil && x.c == '"':
			j := i + 1
			for j < len(cs) && !(cs[j].t == nil && (cs[j].c == '"' || cs[j].c == '\n')) {
				if cs[j].t == nil && cs[j].c == '\\' {
					return nil, "escaped text"
				}
				j++
			}
			if j >= len(cs) || cs[j].c != '"' {
				toks = append(toks, sadlTok{"UNDEFINED", text(cs[i:j])})
				i = j
				break
			}
			toks = append(toks, sadlTok{"STRING", text(cs[i+1 : j])})
			i = j + 1
		case digit(x) || x.t == nil && x.c == '-' && i+1 < len(cs) && digit(cs[i+1]):
			j := i + 1
			for j < len(cs) && (digit(cs[j]) || cs[j].t == nil && (cs[j].c == '.' || cs[j].c == 'e' || cs[j].c == 'E')) {
				j++
			}
			toks = append(toks, sadlTok{"NUMBER", text(cs[i:j])})
			i = j
		case ident(x):
			j := i + 1
			for j < len(cs) && (ident(cs[j]) || digit(cs[j])) {
				j++
			}
			toks = append(toks, sadlTok{"SYMBOL", text(cs[i:j])})
			i = j
		default:
			k := punct[x.c]
			if k == "" {
				k = "UNDEFINED"
			}
			toks = append(toks, sadlTok{k, e.T.Str(string([]byte{x.c}))})
			i++
		}
	}
	return toks, ""
}

// jsonParts are the parts with JSON texts of known structure written out.
func jsonParts(e *Engine, ps []*Term) []*Term {
	if !e.sc.printed {
		return ps
	}
	var out []*Term
	for _, p := range ps {
		if p.op == OCall && p.s == "quote" {
			// text without anything to escape
			in := jsonParts(e, parts(p.args[0]))
			plain := true
			for _, x := range in {
				if s, ok := x.isStr(); ok {
					plain = plain && !strings.ContainsAny(s, "\\\"\n")
				} else {
					plain = plain && (isAtom(x) || isNumText(x))
				}
			}
			if plain {
				out = append(append(append(out, e.T.Str("\"")), in...), e.T.Str("\""))
				continue
			}
		}
		if p.op == OCall && p.s == "strings.Trim" {
			// a JSON text neither begins nor ends with a blank or a new line
			if in := parts(p.args[0]); len(in) == 2 && in[0].op == OCall && strings.HasPrefix(in[0].s, "json") {
				end, ok1 := in[1].isStr()
				cut, ok2 := p.args[1].isStr()
				if ok1 && ok2 && strings.Trim(end, cut) == "" && strings.Trim(cut, " \n\t\r") == "" {
					p = in[0]
				}
			}
		}
		if p.op == OCall && strings.HasPrefix(p.s, "json") && len(p.args) == 1 {
			var xs []*Term
			if e.jsonText(p.args[0], strings.Contains(p.s, "indent"), &xs) {
				out = append(out, xs...)
				continue
			}
			p = e.T.Unk("JSON text of unknown form", tString)
		} else if p.op == OCall && strings.HasPrefix(p.s, "strings.") {
			p = e.T.Unk("text of unknown form: "+p.s, tString)
		}
		out = append(out, p)
	}
	return out
}

// jsonText adds the JSON text of a value.
func (e *Engine) jsonText(t *Term, lines bool, out *[]*Term) bool {
	put := func(s string) { *out = append(*out, e.T.Str(s)) }
	nl := ""
	if lines {
		nl = "\n"
	}
	for t.op == OIface || t.op == OCall && t.s == "&" {
		if s, ok := scalarJSON(t, false); ok {
			put(s)
			return true
		}
		t = t.args[0]
	}
	if s, ok := scalarJSON(t, false); ok {
		put(s)
		return true
	}
	list := func(open, close string, n int, item func(i int) bool) bool {
		put(open)
		for i := 0; i < n; i++ {
			if i > 0 {
				put(",")
			}
			put(nl)
			if !item(i) {
				return false
			}
		}
		if n > 0 {
			put(nl)
		}
		put(close)
		return true
	}
	switch {
	case isAtom(t):
		*out = append(*out, parts(e.quote(t))...)
		return true
	case t.op == OStruct && len(t.args) == 1 && t.args[0].op == OCall && t.args[0].s == "big":
		n := t.args[0].args[0]
		if n.op == OConst && isNum(n.c) {
			s := decText(n.c)
			put(s)
			return s != ""
		}
		*out = append(*out, parts(e.itoa(n))...)
		return true
	case t.op == OCall && t.s == "map":
		return list("{", "}", len(t.args), func(i int) bool {
			en := t.args[i]
			if en.op != OCall || en.s != "entry" || !e.jsonText(en.args[0], lines, out) {
				return false
			}
			put(": ")
			return e.jsonText(en.args[1], lines, out)
		})
	case t.op == OCat || t.op == OItem:
		xs := parts(t)
		for _, x := range xs {
			if x.op != OItem {
				return false
			}
		}
		return list("[", "]", len(xs), func(i int) bool { return e.jsonText(xs[i].args[0], lines, out) })
	}
	return false
}

type sadlTok struct {
	kind string
	text *Term
}

// isNumText holds for the text of a number.
func isNumText(t *Term) bool {
	return t.op == OCall && (t.s == "itoa" || t.s == "dtoa" || strings.HasPrefix(t.s, "big.Text") || t.s == "numtext")
}

func addSadlModels(m map[string]model) {
	m["strconv.Unquote"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		if s, ok := a[0].isStr(); ok {
			u, err := strconv.Unquote(s)
			if err != nil {
				return one(c, e.T.Tuple(e.T.Str(""), e.T.Err(e.T.Str(err.Error()))))
			}
			return one(c, e.T.Tuple(e.T.Str(u), e.T.Nil()))
		}
		ps := parts(a[0])
		n := len(ps)
		first, ok1 := ps[0].isStr()
		last, ok2 := ps[n-1].isStr()
		plain := n > 1 && ok1 && ok2 && strings.HasPrefix(first, `"`) && strings.HasSuffix(last, `"`)
		if plain {
			xs := append([]*Term{}, ps...)
			xs[0], xs[n-1] = e.T.Str(first[1:]), e.T.Str(last[:len(last)-1])
			for _, x := range xs {
				if s, ok := x.isStr(); ok {
					plain = plain && !strings.ContainsAny(s, "\\\"\n")
				} else {
					plain = plain && (isAtom(x) || isNumText(x))
				}
			}
			if plain {
				return one(c, e.T.Tuple(e.cat(xs...), e.T.Nil()))
			}
		}
		return one(c, e.unkResult("strconv.Unquote", c.rt))
	}
	if m["strings.NewReader"] == nil {
		m["strings.NewReader"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
			return one(c, e.newObj(c, "buf", e.T.mk(OCall, "text", nil, nil, nil, a[0]), nil))
		}
	}
	m[scannerPath+".NewScanner"] = func(e *Engine, c *callCtx, a []*Term) []Ret {
		x := a[0]
		if x.op == OIface {
			x = x.args[0]
		}
		src := e.text(c.st, x)
		toks, why := sadlTokens(e, src)
		pt := c.res(0).(*types.Pointer)
		st := under(pt.Elem()).(*types.Struct)
		v := e.expand(e.zero(pt.Elem()), pt.Elem())
		fs := append([]*Term{}, v.args...)
		tt := under(st.Field(0).Type()).(*types.Slice).Elem()
		ts := under(tt).(*types.Struct)
		scope := pt.Elem().(*types.Named).Obj().Pkg().Scope()
		if why != "" {
			fs[0] = e.T.Unk(why, st.Field(0).Type())
		} else {
			var xs []*Term
			for _, t := range toks {
				tv := e.expand(e.zero(tt), tt)
				tf := append([]*Term{}, tv.args...)
				kc := scope.Lookup(t.kind).(*types.Const)
				n, _ := constant.Int64Val(kc.Val())
				tf[0] = e.T.Const(constant.MakeInt64(n), ts.Field(0).Type())
				tf[1] = t.text
				xs = append(xs, e.T.Item(e.T.mk(OStruct, "", nil, tt, nil, tf...)))
			}
			fs[0] = e.catParts(xs)
		}
		return one(c, e.newObj(c, "scanner", e.T.mk(OStruct, "", nil, pt.Elem(), nil, fs...), pt.Elem()))
	}
}
