package main

// genjava.go: analysis of the Java code that the generator produces: the text is parsed and type-checked by
// javac's own front end (against stubs of the libraries it uses), and its syntax tree is evaluated abstractly:
// inputs are symbols, calls of libraries are recorded and never made.

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

//go:embed java/Dump.java
var javaDump string

//go:embed java/stubs.txt
var javaStubs string

// JN is a node of a Java syntax tree.
type JN struct {
	K, Name, Pkg, Ext, Type, V, Text, Bin, Static      string
	Imports, Impl, Mods                                []string
	Types, Members, Annos, Params, Args, Cases, Labels []*JN
	Catches, Resources                                 []*JN
	Body                                               json.RawMessage
	Init, E, Cond, Then, Else, Var, Body1, Block       *JN
	Param, F, L, R, I, Anon, Finally, Rule             *JN
	body                                               []*JN
}

func (n *JN) stmts() []*JN {
	if n == nil {
		return nil
	}
	if n.body == nil && len(n.Body) > 0 {
		if n.Body[0] == '[' {
			json.Unmarshal(n.Body, &n.body)
		} else {
			one := &JN{}
			json.Unmarshal(n.Body, one)
			n.body = []*JN{one}
		}
	}
	return n.body
}

func (n *JN) mod(m string) bool {
	for _, x := range n.Mods {
		if x == m {
			return true
		}
	}
	return false
}

type javac struct {
	dir string
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

var theJavac *javac

func startJavac() (*javac, error) {
	if theJavac != nil {
		return theJavac, nil
	}
	dir, err := os.MkdirTemp("", "javadump")
	if err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(dir, "Dump.java"), []byte(javaDump), 0644)
	os.WriteFile(filepath.Join(dir, "stubs.txt"), []byte(javaStubs), 0644)
	cls := filepath.Join(dir, "classes")
	os.Mkdir(cls, 0755)
	cmd := exec.Command("java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", filepath.Join(dir, "Dump.java"), filepath.Join(dir, "stubs.txt"), cls)
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		os.RemoveAll(dir)
		return nil, err
	}
	theJavac = &javac{dir: dir, cmd: cmd, in: bufio.NewWriter(in), out: bufio.NewReaderSize(out, 1<<20)}
	return theJavac, nil
}

// stopJavac ends the compiler and removes its files.
func stopJavac() {
	if theJavac != nil {
		theJavac.cmd.Process.Kill()
		theJavac.cmd.Wait()
		os.RemoveAll(theJavac.dir)
		theJavac = nil
	}
}

// GenJava is generated Java code.
type GenJava struct {
	text    map[string]string
	units   []*JN
	classes map[string]*JN // by name, nested ones as Outer.Inner
	outer   map[*JN]string
	unit    map[*JN]*JN
	statics map[string]JV
	enums   map[*JN][]JV
	call    func(recv JV, name string, args []JV) (JV, JV) // an unknown call: result or exception
	steps   int
	env     map[string]bool
}

var javaCache = map[string]*struct {
	Units  []*JN
	Errors []string
}{}

func loadJava(text map[string]string) (*GenJava, []string, error) {
	var names []string
	for n := range text {
		names = append(names, n)
	}
	sort.Strings(names)
	var key strings.Builder
	for _, n := range names {
		fmt.Fprintf(&key, "%d\n%s%d\n%s", len(n), n, len(text[n]), text[n])
	}
	res := javaCache[key.String()]
	if res == nil {
		j, err := startJavac()
		if err != nil {
			return nil, nil, err
		}
		fmt.Fprintf(j.in, "%d\n%s", len(names), key.String())
		if err := j.in.Flush(); err != nil {
			return nil, nil, err
		}
		line, err := j.out.ReadBytes('\n')
		if err != nil {
			return nil, nil, fmt.Errorf("the Java compiler gives no answer: %v", err)
		}
		res = &struct {
			Units  []*JN
			Errors []string
		}{}
		if err := json.Unmarshal(line, res); err != nil {
			return nil, nil, err
		}
		javaCache[key.String()] = res
	}
	g := &GenJava{text: text, units: res.Units, classes: map[string]*JN{}, outer: map[*JN]string{}, unit: map[*JN]*JN{}, statics: map[string]JV{}, enums: map[*JN][]JV{}}
	var add func(u, c *JN, outer string)
	add = func(u, c *JN, outer string) {
		q := c.Name
		if outer != "" {
			q = outer + "." + c.Name
		}
		g.classes[q] = c
		g.outer[c] = outer
		g.unit[c] = u
		for _, m := range c.Members {
			switch m.K {
			case "CLASS", "INTERFACE", "ENUM", "RECORD":
				add(u, m, q)
			}
		}
	}
	for _, u := range g.units {
		for _, c := range u.Types {
			add(u, c, "")
		}
	}
	return g, res.Errors, nil
}

func (g *GenJava) qname(c *JN) string {
	if o := g.outer[c]; o != "" {
		return o + "." + c.Name
	}
	return c.Name
}

// find resolves a class name as seen from inside class c.
func (g *GenJava) find(c *JN, name string) *JN {
	if i := strings.IndexByte(name, '<'); i >= 0 {
		name = name[:i]
	}
	for q := c; q != nil; {
		if x := g.classes[g.qname(q)+"."+name]; x != nil {
			return x
		}
		if q.Name == name {
			return q
		}
		o := g.outer[q]
		if o == "" {
			break
		}
		q = g.classes[o]
	}
	return g.classes[name]
}

func (c *JN) member(kind, name string) *JN {
	for _, m := range c.Members {
		if m.K == kind && m.Name == name {
			return m
		}
	}
	return nil
}

// fields lists the instance fields of a class as "type name".
func (c *JN) fields() []*JN {
	var out []*JN
	for _, m := range c.Members {
		if m.K == "VARIABLE" && !m.mod("static") {
			out = append(out, m)
		}
	}
	return out
}

func (c *JN) methods(name string) []*JN {
	var out []*JN
	for _, m := range c.Members {
		if m.K == "METHOD" && m.Name == name {
			out = append(out, m)
		}
	}
	return out
}

// anno gives the text of an annotation, "" when there is none.
func (n *JN) anno(name string) string {
	for _, a := range n.Annos {
		if a.Name == name || strings.HasSuffix(a.Name, "."+name) {
			return a.annoText()
		}
	}
	return ""
}

func (n *JN) annoText() string {
	name := n.Name[strings.LastIndexByte(n.Name, '.')+1:]
	var as []string
	for _, a := range n.Args {
		if a.K == "ASSIGNMENT" && a.L.Name == "value" {
			as = append(as, a.R.exprText())
		} else if a.K == "ASSIGNMENT" {
			as = append(as, a.L.Name+"="+a.R.exprText())
		} else {
			as = append(as, a.exprText())
		}
	}
	sort.Strings(as)
	if len(as) == 0 {
		return "@" + name
	}
	return "@" + name + "(" + strings.Join(as, ",") + ")"
}

func (n *JN) exprText() string {
	switch n.K {
	case "IDENTIFIER":
		return n.Name
	case "PRIMITIVE_TYPE":
		return n.Text
	case "MEMBER_SELECT":
		return n.E.exprText() + "." + n.Name
	case "STRING_LITERAL":
		return strconv.Quote(n.V)
	case "INT_LITERAL", "LONG_LITERAL", "BOOLEAN_LITERAL", "DOUBLE_LITERAL", "FLOAT_LITERAL", "NULL_LITERAL":
		return n.V
	case "UNARY_MINUS":
		return "-" + n.E.exprText()
	case "PLUS":
		if n.L.K == "STRING_LITERAL" && n.R.K == "STRING_LITERAL" {
			return strconv.Quote(n.L.V + n.R.V)
		}
		return n.L.exprText() + "+" + n.R.exprText()
	case "NEW_ARRAY":
		var as []string
		for _, a := range n.Args {
			as = append(as, a.exprText())
		}
		sort.Strings(as)
		return "{" + strings.Join(as, ",") + "}"
	}
	return n.K + n.Text
}

// ---------------------------------------------------------------- abstract evaluation

// JV is an abstract Java value.
type JV interface{}

type JNull struct{}
type JObj struct {
	class  *JN
	fields map[string]JV
	name   string // of an enum constant
}

// JSym is an unknown value, not null, known by its text.
type JSym struct{ text string }

// JCall is what a library call gives.
type JCall struct {
	recv JV // nil for a static call or constructor
	name string
	args []JV
	anon *JN
}
type JClass struct {
	c    *JN
	name string
}
type JArr []JV

// jUnknown ends an evaluation that goes beyond what is modelled.
type jUnknown struct{ why string }

func jfail(f string, a ...interface{}) { panic(jUnknown{fmt.Sprintf(f, a...)}) }

func show(v JV) string {
	switch x := v.(type) {
	case nil:
		return "<void>"
	case JNull:
		return "null"
	case string:
		return strconv.Quote(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return fmt.Sprint(x)
	case JSym:
		return x.text
	case JClass:
		return x.name
	case JArr:
		var s []string
		for _, e := range x {
			s = append(s, show(e))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case *JCall:
		var s []string
		for _, e := range x.args {
			s = append(s, show(e))
		}
		r := ""
		if x.recv != nil {
			r = show(x.recv) + "."
		}
		return r + x.name + "(" + strings.Join(s, ", ") + ")"
	case *JObj:
		if x.name != "" {
			return x.class.Name + "." + x.name
		}
		var ks []string
		for k := range x.fields {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = k + ": " + show(x.fields[k])
		}
		return x.class.Name + "{" + strings.Join(ks, ", ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

type jCtl int

const (
	cNone jCtl = iota
	cReturn
	cThrow
	cBreak
	cContinue
)

type jFrame struct {
	g     *GenJava
	class *JN
	this  *JObj
	vars  map[string]JV
	up    *jFrame
}

type jThrow struct{ v JV }

func (f *jFrame) lookup(n string) (*jFrame, bool) {
	for x := f; x != nil; x = x.up {
		if _, ok := x.vars[n]; ok {
			return x, true
		}
	}
	return nil, false
}

func (f *jFrame) sub() *jFrame {
	return &jFrame{g: f.g, class: f.class, this: f.this, vars: map[string]JV{}, up: f}
}

func zeroOf(t string) JV {
	switch t {
	case "int", "long", "short", "byte":
		return int64(0)
	case "double", "float":
		return float64(0)
	case "boolean":
		return false
	}
	return JNull{}
}

// newObj runs the constructor of a generated class.
func (g *GenJava) newObj(c *JN, args []JV) JV {
	o := &JObj{class: c, fields: map[string]JV{}}
	f := &jFrame{g: g, class: c, this: o, vars: map[string]JV{}}
	for _, m := range c.fields() {
		if c.K == "ENUM" && m.Type == c.Name {
			continue
		}
		o.fields[m.Name] = zeroOf(m.Type)
		if m.Init != nil {
			o.fields[m.Name] = f.eval(m.Init)
		}
	}
	ctor := g.pick(c.methods("<init>"), args)
	if ctor == nil {
		if len(args) == 0 && len(c.methods("<init>")) == 0 {
			return o
		}
		jfail("no constructor of %s for %d arguments", c.Name, len(args))
	}
	g.run(c, o, ctor, args)
	return o
}

// pick chooses the overload for the arguments.
func (g *GenJava) pick(ms []*JN, args []JV) *JN {
	var fit []*JN
	for _, m := range ms {
		if len(m.Params) == len(args) {
			fit = append(fit, m)
		}
	}
	if len(fit) == 1 {
		return fit[0]
	}
	var best []*JN
	for _, m := range fit {
		ok := true
		for i, p := range m.Params {
			switch x := args[i].(type) {
			case *JObj:
				ok = ok && g.isA(x.class, p.Type)
			case string:
				ok = ok && (p.Type == "String" || p.Type == "Object")
			case JSym:
				if t := strings.SplitN(x.text, ":", 2); len(t) == 2 {
					ok = ok && t[1] == p.Type
				}
			}
		}
		if ok {
			best = append(best, m)
		}
	}
	if len(best) == 1 {
		return best[0]
	}
	if len(fit) > 1 {
		jfail("overloads of %s", fit[0].Name)
	}
	return nil
}

var javaSuper = map[string]string{"RuntimeException": "Exception", "Exception": "Throwable", "Throwable": "Object", "Error": "Throwable",
	"IllegalArgumentException": "RuntimeException", "WebApplicationException": "RuntimeException", "IllegalStateException": "RuntimeException", "NullPointerException": "RuntimeException",
	"IOException": "Exception", "JsonProcessingException": "IOException", "NotFoundException": "WebApplicationException"}

func (g *GenJava) isA(c *JN, t string) bool {
	if t == "Object" {
		return true
	}
	for c != nil {
		if c.Name == t || g.qname(c) == t {
			return true
		}
		for _, i := range c.Impl {
			if i == t {
				return true
			}
		}
		s := g.find(c, c.Ext)
		if s == nil {
			return isLib(c.Ext, t)
		}
		c = s
	}
	return false
}

func isLib(n, t string) bool {
	n, t = n[strings.LastIndexByte(n, '.')+1:], t[strings.LastIndexByte(t, '.')+1:]
	for n != "" {
		if n == t {
			return true
		}
		n = javaSuper[n]
	}
	return t == "Object"
}

// isInstance: 1 yes, 0 no, -1 unknown.
func (g *GenJava) isInstance(from *JN, v JV, t string) int {
	switch x := v.(type) {
	case JNull:
		return 0
	case *JObj:
		return boolInt(g.isA(x.class, t))
	case *JCall:
		if x.recv == nil && strings.HasPrefix(x.name, "new ") {
			return boolInt(isLib(x.name[4:], t))
		}
	case string:
		return boolInt(t == "String" || t == "Object")
	case JSym:
		if p := strings.SplitN(x.text, ":", 2); len(p) == 2 {
			if javaSuper[p[1]] != "" {
				return boolInt(isLib(p[1], t))
			}
			return boolInt(p[1] == t || t == "Object")
		}
	}
	return -1
}

func (g *GenJava) run(c *JN, this *JObj, m *JN, args []JV) JV {
	g.steps++
	if g.steps > 20000 {
		jfail("too many steps")
	}
	f := &jFrame{g: g, class: c, this: this, vars: map[string]JV{}}
	for i, p := range m.Params {
		f.vars[p.Name] = args[i]
	}
	if m.Body == nil {
		jfail("%s has no body", m.Name)
	}
	ctl, v := f.block(m.stmts())
	switch ctl {
	case cReturn:
		return v
	case cThrow:
		panic(jThrow{v})
	}
	return nil
}

// try evaluates and catches what is thrown.
func (g *GenJava) try(f func() JV) (v JV, thrown JV) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(jThrow); ok {
				thrown = t.v
				return
			}
			panic(r)
		}
	}()
	return f(), nil
}

func (f *jFrame) block(ss []*JN) (jCtl, JV) {
	s := f.sub()
	for _, st := range ss {
		if ctl, v := s.stmt(st); ctl != cNone {
			return ctl, v
		}
	}
	return cNone, nil
}

func (f *jFrame) stmt(n *JN) (jCtl, JV) {
	switch n.K {
	case "BLOCK":
		return f.block(n.stmts())
	case "EXPRESSION_STATEMENT":
		f.eval(n.E)
	case "VARIABLE":
		var v JV = zeroOf(n.Type)
		if n.Init != nil {
			v = f.eval(n.Init)
		}
		f.vars[n.Name] = v
	case "RETURN":
		if n.E == nil {
			return cReturn, nil
		}
		return cReturn, f.eval(n.E)
	case "THROW":
		return cThrow, f.eval(n.E)
	case "BREAK":
		return cBreak, nil
	case "CONTINUE":
		return cContinue, nil
	case "EMPTY_STATEMENT":
	case "IF":
		if f.cond(n.Cond) {
			return f.stmt(n.Then)
		} else if n.Else != nil {
			return f.stmt(n.Else)
		}
	case "ENHANCED_FOR_LOOP":
		arr, ok := f.eval(n.E).(JArr)
		if !ok {
			jfail("loop over an unknown collection")
		}
		for _, x := range arr {
			s := f.sub()
			s.vars[n.Var.Name] = x
			ctl, v := s.stmt(n.Body1)
			if ctl == cBreak {
				break
			}
			if ctl == cReturn || ctl == cThrow {
				return ctl, v
			}
		}
	case "SWITCH":
		x := f.eval(n.E)
		at := -1
		for i, c := range n.Cases {
			for _, l := range c.Labels {
				if at < 0 && f.same(x, f.label(x, l)) {
					at = i
				}
			}
		}
		if at < 0 {
			for i, c := range n.Cases {
				if len(c.Labels) == 0 {
					at = i
				}
			}
		}
		if at < 0 {
			return cNone, nil
		}
		s := f.sub()
		for _, c := range n.Cases[at:] {
			if c.Rule != nil {
				if c.Rule.K == "BLOCK" || c.Rule.K == "THROW" || c.Rule.K == "RETURN" {
					return s.stmt(c.Rule)
				}
				s.eval(c.Rule)
				return cNone, nil
			}
			for _, st := range c.stmts() {
				ctl, v := s.stmt(st)
				if ctl == cBreak {
					return cNone, nil
				}
				if ctl != cNone {
					return ctl, v
				}
			}
		}
	case "TRY":
		if len(n.Resources) > 0 {
			jfail("try with resources")
		}
		ctl, v := f.protect(n.Block)
		if ctl == cThrow {
			for _, c := range n.Catches {
				is := -1
				for _, t := range strings.Split(c.Param.Type, "|") {
					r := f.g.isInstance(f.class, v, strings.TrimSpace(t))
					if is < 1 {
						is = r
					}
					if r == -1 {
						break
					}
				}
				if is < 0 {
					jfail("what is thrown is not known: %s", show(v))
				}
				if is == 1 {
					s := f.sub()
					s.vars[c.Param.Name] = v
					ctl, v = s.protect(c.Block)
					break
				}
			}
		}
		if n.Finally != nil {
			if c2, v2 := f.block(n.Finally.stmts()); c2 != cNone {
				return c2, v2
			}
		}
		return ctl, v
	default:
		jfail("statement %s", n.K)
	}
	return cNone, nil
}

func (f *jFrame) label(x JV, l *JN) JV {
	if o, ok := x.(*JObj); ok && l.K == "IDENTIFIER" {
		return f.g.enumConst(o.class, l.Name)
	}
	return f.eval(l)
}

func (f *jFrame) protect(b *JN) (ctl jCtl, v JV) {
	var t JV
	v, t = f.g.try(func() JV {
		c, x := f.block(b.stmts())
		ctl = c
		return x
	})
	if t != nil {
		return cThrow, t
	}
	return ctl, v
}

func (f *jFrame) cond(n *JN) bool {
	b, ok := f.eval(n).(bool)
	if !ok {
		jfail("condition not determined")
	}
	return b
}

// same compares with ==; unknown when it cannot be told.
func (f *jFrame) same(x, y JV) bool {
	_, xn := x.(JNull)
	_, yn := y.(JNull)
	if xn || yn {
		return xn && yn
	}
	switch a := x.(type) {
	case int64, string, bool, float64:
		switch y.(type) {
		case int64, string, bool, float64:
			return a == y
		}
	case *JObj:
		if b, ok := y.(*JObj); ok {
			return a == b
		}
	case JSym:
		if b, ok := y.(JSym); ok && a == b {
			return true
		}
	}
	jfail("comparison of %s and %s", show(x), show(y))
	return false
}

func (g *GenJava) enumValues(c *JN) []JV {
	if v, ok := g.enums[c]; ok {
		return v
	}
	var out []JV
	f := &jFrame{g: g, class: c, vars: map[string]JV{}}
	for _, m := range c.Members {
		if m.K != "VARIABLE" || m.Type != c.Name || !m.mod("static") {
			continue
		}
		var args []JV
		if m.Init != nil {
			for _, a := range m.Init.Args {
				args = append(args, f.eval(a))
			}
		}
		o := g.newObj(c, args).(*JObj)
		o.name = m.Name
		out = append(out, o)
	}
	g.enums[c] = out
	return out
}

func (g *GenJava) enumConst(c *JN, name string) JV {
	for _, v := range g.enumValues(c) {
		if v.(*JObj).name == name {
			return v
		}
	}
	return nil
}

// static reads a static field.
func (g *GenJava) static(c *JN, name string) (JV, bool) {
	if c.K == "ENUM" {
		if v := g.enumConst(c, name); v != nil {
			return v, true
		}
	}
	m := c.member("VARIABLE", name)
	if m == nil || !m.mod("static") && c.K != "INTERFACE" {
		return nil, false
	}
	k := g.qname(c) + "." + name
	if v, ok := g.statics[k]; ok {
		return v, true
	}
	var v JV = zeroOf(m.Type)
	if m.Init != nil {
		v = (&jFrame{g: g, class: c, vars: map[string]JV{}}).eval(m.Init)
	}
	g.statics[k] = v
	return v, true
}

func (f *jFrame) ident(n string) JV {
	if fr, ok := f.lookup(n); ok {
		return fr.vars[n]
	}
	if f.this != nil {
		if v, ok := f.this.fields[n]; ok {
			return v
		}
		if f.class.member("VARIABLE", n) != nil && !f.class.member("VARIABLE", n).mod("static") {
			return JNull{}
		}
	}
	for c := f.class; c != nil; c = f.g.classes[f.g.outer[c]] {
		if v, ok := f.g.static(c, n); ok {
			return v
		}
	}
	if c := f.g.find(f.class, n); c != nil {
		return JClass{c, f.g.qname(c)}
	}
	return JClass{nil, n}
}

func jstr(v JV) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case int64, bool:
		return fmt.Sprint(x), true
	case JNull:
		return "null", true
	}
	return "", false
}

// text is Java's string conversion.
func (f *jFrame) text(v JV) JV {
	if o, ok := v.(*JObj); ok {
		if m := f.g.pick(o.class.methods("toString"), nil); m != nil {
			return f.g.run(o.class, o, m, nil)
		}
		if o.class.K == "ENUM" {
			return o.name
		}
	}
	if s, ok := jstr(v); ok {
		return s
	}
	return v
}

func (f *jFrame) eval(n *JN) JV {
	f.g.steps++
	if f.g.steps > 20000 {
		jfail("too many steps")
	}
	switch n.K {
	case "STRING_LITERAL":
		return n.V
	case "INT_LITERAL", "LONG_LITERAL":
		i, err := strconv.ParseInt(n.V, 10, 64)
		if err != nil {
			jfail("number %s", n.V)
		}
		return i
	case "BOOLEAN_LITERAL":
		return n.V == "true"
	case "NULL_LITERAL":
		return JNull{}
	case "IDENTIFIER":
		if n.Name == "this" {
			return f.this
		}
		return f.ident(n.Name)
	case "MEMBER_SELECT":
		if n.Name == "class" {
			return JSym{n.E.exprText() + ".class"}
		}
		if n.E.K == "PARAMETERIZED_TYPE" {
			return JSym{n.E.Text}
		}
		x := f.eval(n.E)
		return f.selectField(x, n.Name)
	case "ASSIGNMENT":
		v := f.eval(n.R)
		switch n.L.K {
		case "IDENTIFIER":
			if fr, ok := f.lookup(n.L.Name); ok {
				fr.vars[n.L.Name] = v
				return v
			}
			if f.this != nil {
				f.this.fields[n.L.Name] = v
				return v
			}
		case "MEMBER_SELECT":
			if o, ok := f.eval(n.L.E).(*JObj); ok {
				o.fields[n.L.Name] = v
				return v
			}
		}
		jfail("assignment to %s", n.L.exprText())
	case "NEW_CLASS":
		var args []JV
		for _, a := range n.Args {
			args = append(args, f.eval(a))
		}
		if c := f.g.find(f.class, n.Type); c != nil && n.Anon == nil {
			return f.g.newObj(c, args)
		}
		name := n.Type
		return &JCall{name: "new " + name, args: args, anon: n.Anon}
	case "METHOD_INVOCATION":
		return f.invoke(n)
	case "PLUS":
		if n.Bin == "" {
			return f.eval(n.E)
		}
		l, r := f.eval(n.L), f.eval(n.R)
		if a, ok := l.(int64); ok {
			if b, ok := r.(int64); ok {
				return a + b
			}
		}
		l, r = f.text(l), f.text(r)
		ls, ok1 := l.(string)
		rs, ok2 := r.(string)
		if ok1 && ok2 {
			return ls + rs
		}
		var parts []JV
		for _, p := range []JV{l, r} {
			if c, ok := p.(*JCall); ok && c.name == "+" {
				parts = append(parts, c.args...)
			} else {
				parts = append(parts, p)
			}
		}
		return &JCall{name: "+", args: parts}
	case "CONDITIONAL_EXPRESSION":
		if f.cond(n.Cond) {
			return f.eval(n.Then)
		}
		return f.eval(n.Else)
	case "EQUAL_TO":
		return f.same(f.eval(n.L), f.eval(n.R))
	case "NOT_EQUAL_TO":
		return !f.same(f.eval(n.L), f.eval(n.R))
	case "LOGICAL_COMPLEMENT":
		return !f.cond(n.E)
	case "CONDITIONAL_AND":
		return f.cond(n.L) && f.cond(n.R)
	case "CONDITIONAL_OR":
		return f.cond(n.L) || f.cond(n.R)
	case "INSTANCE_OF":
		switch f.g.isInstance(f.class, f.eval(n.E), n.Type) {
		case 1:
			return true
		case 0:
			return false
		}
		jfail("instanceof")
	case "TYPE_CAST":
		return f.eval(n.E)
	case "ARRAY_ACCESS":
		arr, ok := f.eval(n.E).(JArr)
		i, ok2 := f.eval(n.I).(int64)
		if !ok || !ok2 {
			jfail("array element")
		}
		if i < 0 || int(i) >= len(arr) {
			panic(jThrow{&JCall{name: "new ArrayIndexOutOfBoundsException"}})
		}
		return arr[i]
	case "NEW_ARRAY":
		arr := JArr{}
		for _, a := range n.Args {
			arr = append(arr, f.eval(a))
		}
		return arr
	}
	jfail("expression %s %s", n.K, n.Text)
	return nil
}

func (f *jFrame) selectField(x JV, name string) JV {
	switch o := x.(type) {
	case *JObj:
		if v, ok := o.fields[name]; ok {
			return v
		}
		if o.class.K == "ENUM" {
			jfail("field %s of %s", name, o.class.Name)
		}
		return &JCall{recv: x, name: "." + name}
	case JClass:
		if o.c != nil {
			if v, ok := f.g.static(o.c, name); ok {
				return v
			}
			if c := f.g.classes[f.g.qname(o.c)+"."+name]; c != nil {
				return JClass{c, f.g.qname(c)}
			}
		}
		if name == "APPLICATION_JSON" && strings.HasSuffix(o.name, "MediaType") {
			return "application/json"
		}
		if c := f.g.classes[name]; c != nil && o.c == nil {
			return JClass{c, name}
		}
		return JClass{nil, o.name + "." + name}
	case JArr:
		if name == "length" {
			return int64(len(o))
		}
	case JNull:
		panic(jThrow{&JCall{name: "new NullPointerException"}})
	}
	return &JCall{recv: x, name: "." + name}
}

func (f *jFrame) invoke(n *JN) JV {
	var args []JV
	ev := func() {
		for _, a := range n.Args {
			args = append(args, f.eval(a))
		}
	}
	if n.F.K == "IDENTIFIER" {
		ev()
		if n.F.Name == "super" || n.F.Name == "this" {
			if n.F.Name == "this" {
				if m := f.g.pick(f.class.methods("<init>"), args); m != nil {
					f.g.run(f.class, f.this, m, args)
				}
			} else if f.this != nil && len(args) > 0 {
				f.this.fields["<super>"] = JArr(args)
			}
			return nil
		}
		for c := f.class; c != nil; c = f.g.classes[f.g.outer[c]] {
			if m := f.g.pick(c.methods(n.F.Name), args); m != nil {
				var this *JObj
				if !m.mod("static") {
					this = f.this
				}
				return f.g.run(c, this, m, args)
			}
		}
		if n.F.Name == "values" && f.class.K == "ENUM" {
			return JArr(f.g.enumValues(f.class))
		}
		return f.lib(f.this, n.F.Name, args)
	}
	if n.F.K != "MEMBER_SELECT" {
		jfail("call of %s", n.F.K)
	}
	recv := f.eval(n.F.E)
	ev()
	name := n.F.Name
	switch o := recv.(type) {
	case JNull:
		panic(jThrow{&JCall{name: "new NullPointerException"}})
	case *JObj:
		for c := o.class; c != nil; c = f.g.find(c, c.Ext) {
			if m := f.g.pick(c.methods(name), args); m != nil && m.Body != nil {
				return f.g.run(c, o, m, args)
			}
			if c.Ext == "" {
				break
			}
		}
		if o.class.K == "ENUM" && len(args) == 0 && (name == "name" || name == "toString") {
			return o.name
		}
		if name == "equals" && len(args) == 1 {
			return f.same(recv, args[0])
		}
		return f.lib(recv, name, args)
	case JClass:
		if o.c != nil {
			if m := f.g.pick(o.c.methods(name), args); m != nil {
				return f.g.run(o.c, nil, m, args)
			}
			if name == "values" && o.c.K == "ENUM" {
				return JArr(f.g.enumValues(o.c))
			}
			if name == "valueOf" && o.c.K == "ENUM" && len(args) == 1 {
				if s, ok := args[0].(string); ok {
					if v := f.g.enumConst(o.c, s); v != nil {
						return v
					}
					panic(jThrow{&JCall{name: "new IllegalArgumentException"}})
				}
			}
		}
	case string:
		switch {
		case name == "equals" && len(args) == 1:
			return f.same(recv, args[0])
		case name == "split" && (len(args) == 1 || len(args) == 2):
			limit := int64(0)
			if len(args) == 2 {
				n, ok := args[1].(int64)
				if !ok {
					break
				}
				limit = n
			}
			if sep, ok := args[0].(string); ok {
				if arr, ok := javaSplit(o, sep, limit); ok {
					return arr
				}
			}
		case len(args) == 1 && (name == "equalsIgnoreCase" || name == "startsWith" || name == "endsWith" || name == "contains"):
			if s, ok := args[0].(string); ok {
				switch name {
				case "equalsIgnoreCase":
					return strings.EqualFold(o, s)
				case "startsWith":
					return strings.HasPrefix(o, s)
				case "endsWith":
					return strings.HasSuffix(o, s)
				}
				return strings.Contains(o, s)
			}
		case len(args) == 0 && (name == "toLowerCase" || name == "toUpperCase"):
			if name == "toLowerCase" {
				return strings.ToLower(o)
			}
			return strings.ToUpper(o)
		case name == "replace" && len(args) == 2:
			if x, ok := args[0].(string); ok {
				if y, ok := args[1].(string); ok {
					return strings.Replace(o, x, y, -1)
				}
			}
		case name == "length" && len(args) == 0:
			return int64(len(o))
		case name == "isEmpty" && len(args) == 0:
			return o == ""
		case name == "toString" && len(args) == 0:
			return o
		case (name == "indexOf" || name == "lastIndexOf") && len(args) == 1:
			if s, ok := args[0].(string); ok {
				if name == "indexOf" {
					return int64(strings.Index(o, s))
				}
				return int64(strings.LastIndex(o, s))
			}
		case name == "substring":
			var ix []int
			for _, a := range args {
				if i, ok := a.(int64); ok && i >= 0 && int(i) <= len(o) {
					ix = append(ix, int(i))
				}
			}
			if len(ix) == len(args) && len(ix) == 1 {
				return o[ix[0]:]
			}
			if len(ix) == len(args) && len(ix) == 2 && ix[0] <= ix[1] {
				return o[ix[0]:ix[1]]
			}
		case name == "trim" && len(args) == 0:
			return strings.TrimSpace(o)
		}
	case JSym:
		if name == "equals" && len(args) == 1 {
			if b, ok := args[0].(JSym); ok && b == o {
				return true
			}
		}
	}
	return f.lib(recv, name, args)
}

// javaSplit is String.split for the separators that Java and Go read the same.
func javaSplit(s, sep string, limit int64) (JArr, bool) {
	for _, ch := range sep {
		if !strings.ContainsRune(" +,;:-_/=|\\s", ch) && !(ch >= '0' && ch <= '9') {
			return nil, false
		}
	}
	re, err := regexp.Compile(sep)
	if err != nil || re.MatchString("") {
		return nil, false
	}
	arr := JArr{}
	for limit <= 0 || int64(len(arr)) < limit-1 {
		at := re.FindStringIndex(s)
		if at == nil {
			break
		}
		arr = append(arr, s[:at[0]])
		s = s[at[1]:]
	}
	arr = append(arr, s)
	if limit == 0 {
		for len(arr) > 1 && arr[len(arr)-1] == JV("") {
			arr = arr[:len(arr)-1]
		}
	}
	return arr, true
}

// lib is a call of something that is not generated.
func (f *jFrame) lib(recv JV, name string, args []JV) JV {
	if f.g.call != nil {
		v, t := f.g.call(recv, name, args)
		if t != nil {
			panic(jThrow{t})
		}
		if v != nil {
			return v
		}
	}
	return &JCall{recv: recv, name: name, args: args}
}

// chain lists the calls of a fluent chain, first to last, with the receiver they start from.
func chain(v JV) (JV, []*JCall) {
	var cs []*JCall
	for {
		c, ok := v.(*JCall)
		if !ok || c.recv == nil {
			if ok {
				cs = append([]*JCall{c}, cs...)
				return nil, cs
			}
			return v, cs
		}
		cs = append([]*JCall{c}, cs...)
		v = c.recv
	}
}
