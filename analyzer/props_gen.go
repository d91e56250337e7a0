package main

// props_gen.go: C14, C15, the output side shared by the code generators.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

func init() {
	register(&Property{id: "C14", rule: "Writing a generated file leaves an existing file untouched unless overwriting was asked for, and otherwise makes the file hold exactly the content.", run: runC14})
	register(&Property{id: "C15", rule: "The first failure of the output side is recorded as the generator's error and stays recorded, and output after it is suppressed; without failure the collected text is the emitted pieces in order.", run: runC15})
}

// fileState replays the file effects of a state: content by path; touched lists every path whose file was changed.
type fileState struct {
	content map[*Term]*Term
	touched map[*Term]bool
	unknown bool
	other   []string
}

func (b *B) fileState(st *State) fileState {
	fs := fileState{content: map[*Term]*Term{}, touched: map[*Term]bool{}}
	o := st.heap["w:out"]
	if o == nil {
		return fs
	}
	xs, ok := b.items(o.val)
	if !ok {
		fs.unknown = true
	}
	for _, x := range xs {
		if x.op != OCall {
			fs.unknown = true
			continue
		}
		switch x.s {
		case "create":
			fs.content[x.args[0]] = b.e.T.Str("")
			fs.touched[x.args[0]] = true
		case "write":
			fs.touched[x.args[0]] = true
			if c, ok := fs.content[x.args[0]]; ok {
				fs.content[x.args[0]] = b.e.cat(c, x.args[1])
			}
		case "remove":
			delete(fs.content, x.args[0])
			fs.touched[x.args[0]] = true
		case "rename":
			fs.touched[x.args[0]] = true
			fs.touched[x.args[1]] = true
			if c, ok := fs.content[x.args[0]]; ok {
				fs.content[x.args[1]] = c
				delete(fs.content, x.args[0])
			} else {
				delete(fs.content, x.args[1])
			}
		case "openold":
		case "mkdir", "stdout", "stderr":
			fs.other = append(fs.other, x.s)
		default:
			fs.unknown = true
		}
	}
	return fs
}

var tDataMap = tMapAny

// config builds the generator configuration.
func (b *B) config(kv ...*Term) *Term {
	ps := b.mapT(tMapAny, kv...)
	t := b.typ("Data")
	s, ok := under(t).(*types.Struct)
	if !ok {
		panic(anchorLost{"Data representation"})
	}
	v := b.e.expand(b.e.zero(t), t)
	fs := append([]*Term{}, v.args...)
	done := false
	for i := 0; i < s.NumFields(); i++ {
		if types.IsInterface(s.Field(i).Type()) {
			fs[i] = b.any(tMapAny, ps)
			done = true
		} else if _, ok := under(s.Field(i).Type()).(*types.Map); ok {
			fs[i] = ps
			done = true
		}
	}
	if !done {
		panic(anchorLost{"Data representation"})
	}
	return b.newObj("Data", b.e.T.mk(OStruct, "", nil, t, nil, fs...), t)
}

func (b *B) boolAny(v bool) *Term { return b.any(tBool, b.e.T.Bool(v)) }

func runC14(c *C) {
	for _, force := range []string{"unset", "false", "true"} {
		for exists := 0; exists < 2; exists++ {
			for _, stat := range []int{0, 1} {
				if stat == 1 && exists == 0 {
					continue
				}
				force, exists, stat := force, exists, stat
				c.check(fmt.Sprintf("force-overwrite %s, file exists %d, cannot be examined %d", force, exists, stat), &Scenario{exists: exists, fails: map[string]int{"os.Stat": stat}}, func(b *B, o *O) {
					cfg := b.config()
					if force != "unset" {
						cfg = b.config(b.e.T.Str("force-overwrite"), b.boolAny(force == "true"))
					}
					g := b.obj("Generator", F{"Config": cfg})
					path, content := b.atom("path"), b.sym("content", tString)
					rs := b.call(nil, "", "Generator.WriteFile", g, path, content)
					keep := exists == 1 && force != "true"
					what := "the file must hold exactly the content"
					if keep {
						what = "the existing file must be left untouched"
					}
					o.expect(rs, what, func(r Ret) int {
						if r.kind != RReturn {
							return 0
						}
						fs := b.fileState(r.st)
						if keep {
							if len(fs.touched) > 0 {
								return 0
							}
							if fs.unknown {
								return -1
							}
							return 1
						}
						for p := range fs.touched {
							if p != path && fs.content[p] != nil {
								return 0
							}
						}
						if fs.content[path] == nil {
							if fs.unknown {
								return -1
							}
							return 0
						}
						return b.same(r.st, fs.content[path], content)
					})
					o.expect(rs, "no error must be recorded", func(r Ret) int {
						if r.kind != RReturn {
							return 0
						}
						return b.e.isNil(r.st, b.get(r.st, g, "Err"))
					})
				})
			}
		}
	}
	for _, path := range []string{"out.java", "a/b/c/pom.xml", "/abs/x.go", "README.md", ".gitignore", "dir with space/f.txt", "server_gen.go", "x_test.go"} {
		for _, content := range []string{"", "no newline", "one line\n", "\n", "trailing\n\n\n", "  leading and trailing  ", "a\r\nb\r\n", "\xef\xbb\xbfmark", "100% %s %d\n", "tab\t\n", strings.Repeat("a long line of text\n", 600)} {
			for exists := 0; exists < 2; exists++ {
				path, content, exists := path, content, exists
				n := content
				if len(n) > 20 {
					n = n[:20]
				}
				c.check(fmt.Sprintf("writing %q to %s, exists %d", n, path, exists), &Scenario{exists: exists}, func(b *B, o *O) {
					for _, force := range []string{"", "true", "false", "yes"} {
						cfg := b.config()
						switch force {
						case "true", "false":
							cfg = b.config(b.e.T.Str("force-overwrite"), b.str(force))
						case "yes":
							cfg = b.config(b.e.T.Str("force-overwrite"), b.boolAny(true))
						}
						g := b.obj("Generator", F{"Config": cfg})
						rs := b.call(nil, "", "Generator.WriteFile", g, b.e.T.Str(path), b.e.T.Str(content))
						o.expect(rs, "the file must hold the content, or stay as it is (force-overwrite "+force+")", func(r Ret) int {
							if r.kind != RReturn {
								return 0
							}
							fs := b.fileState(r.st)
							if exists == 1 && force != "true" && force != "yes" {
								if len(fs.touched) > 0 {
									return 0
								}
								if fs.unknown {
									return -1
								}
								return 1
							}
							for p := range fs.touched {
								if p != b.e.T.Str(path) && fs.content[p] != nil {
									return 0
								}
							}
							got := fs.content[b.e.T.Str(path)]
							if got == nil {
								if fs.unknown {
									return -1
								}
								return 0
							}
							return b.same(r.st, got, b.e.T.Str(content))
						})
					}
				})
			}
		}
	}
	for exists := 0; exists < 2; exists++ {
		exists := exists
		c.check(fmt.Sprintf("file existence test %d", exists), &Scenario{exists: exists}, func(b *B, o *O) {
			g := b.obj("Generator", F{"Config": b.config()})
			o.boolean(b.call(nil, "", "Generator.FileExists", g, b.atom("path")), exists == 1, "whether the file exists")
		})
	}
	for exists := 0; exists < 2; exists++ {
		exists := exists
		c.check(fmt.Sprintf("two files in turn, exists %d", exists), &Scenario{exists: exists}, func(b *B, o *O) {
			g := b.obj("Generator", F{"Config": b.config(b.e.T.Str("force-overwrite"), b.boolAny(true))})
			rs := b.call(nil, "", "Generator.WriteFile", g, b.atom("p1"), b.sym("c1", tString))
			rs = b.then(rs, func(r Ret) []Ret {
				return b.call(r.st, "", "Generator.WriteFile", g, b.atom("p2"), b.sym("c2", tString))
			})
			o.expect(rs, "each file must hold its own content", func(r Ret) int {
				fs := b.fileState(r.st)
				if r.kind != RReturn || fs.content[b.atom("p1")] == nil || fs.content[b.atom("p2")] == nil {
					return 0
				}
				if n := b.same(r.st, fs.content[b.atom("p1")], b.sym("c1", tString)); n != 1 {
					return n
				}
				return b.same(r.st, fs.content[b.atom("p2")], b.sym("c2", tString))
			})
		})
	}
	// whole exports
	for _, x := range exports {
		x := x
		c.check("existing files and "+x.name, &Scenario{exists: 2}, func(b *B, o *O) {
			files := func(exists int, opts ...string) (map[*Term]*Term, bool) {
				sc := *b.e.sc
				sc.exists = exists
				b.e.setScenario(&sc)
				rs := x.run(b, append(append([]string{}, x.opts...), opts...)...)
				o.accept(rs, fmt.Sprintf("generating with existing files %d %v", exists, opts))
				if o.ob.Status != "" || len(rs) != 1 {
					o.undecided(fmt.Sprintf("%d outcomes of generating", len(rs)))
					return nil, false
				}
				fs := b.fileState(rs[0].st)
				if fs.unknown {
					o.undecided("files not determined")
					return nil, false
				}
				for p := range fs.touched {
					if _, ok := fs.content[p]; !ok {
						fs.content[p] = nil
					}
				}
				return fs.content, true
			}
			all, ok := files(0)
			if !ok {
				return
			}
			if len(all) == 0 {
				o.fail("Export", "no file is written", nil)
				return
			}
			for _, opts := range [][]string{nil, {"force-overwrite=false"}} {
				kept, ok := files(1, opts...)
				if !ok {
					return
				}
				for p := range kept {
					o.fail("Export", fmt.Sprintf("the existing file %s must be left untouched (%v)", p.Path(), opts), nil)
				}
			}
			forced, ok := files(1, "force-overwrite")
			if !ok {
				return
			}
			for p, t := range all {
				if t == nil || forced[p] == nil {
					o.fail("Export", fmt.Sprintf("the file %s must be written when overwriting is forced", p.Path()), nil)
				} else if t != forced[p] {
					o.fail("Export", fmt.Sprintf("the file %s must hold the same text when it overwrites an existing one", p.Path()), nil)
				}
			}
			for p := range forced {
				if _, ok := all[p]; !ok {
					o.fail("Export", fmt.Sprintf("the existing file %s is none of the generated ones", p.Path()), nil)
				}
			}
		})
	}
	// data files
	for _, bad := range []int{0, 1} {
		bad := bad
		c.check(fmt.Sprintf("saving generic data, write failure %d", bad), &Scenario{fails: map[string]int{"os.WriteFile": bad, "os.Create": bad}}, func(b *B, o *O) {
			d := b.config(b.atom("k"), b.str(b.sym("v", tString)))
			rs := b.call(nil, "", "DataToFile", d, b.atom("path"))
			o.verdict(rs, bad == 0, "saving data")
			if bad == 0 {
				o.expect(rs, "the file must hold the encoded data", func(r Ret) int {
					fs := b.fileState(r.st)
					t := fs.content[b.atom("path")]
					if t == nil {
						return 0
					}
					enc := 0
					for _, p := range parts(t) {
						if s, ok := p.isStr(); ok && strings.TrimSpace(s) == "" {
							continue
						}
						if p.unk() || p.op == OUnk {
							return -1
						}
						if p.op != OCall || !strings.HasPrefix(p.s, "json") || !hasCall(p, func(x *Term) bool { return x == b.sym("v", tString) }) {
							return 0
						}
						enc++
					}
					if enc != 1 {
						return 0
					}
					return 1
				})
			}
		})
	}
}

// exports are the ways to generate a directory of files.
var exports = []struct {
	name string
	opts []string
	run  func(b *B, opts ...string) []Ret
}{
	{"a Java model", nil, exportJava},
	{"a Java model, client and server with Maven", []string{"client", "server", "example-implementation", "maven"}, exportJava},
	{"a Java server with Lombok and timestamps", []string{"server", "lombok", "instants=false", "getters"}, exportJava},
	{"a Go model", nil, exportGo},
	{"a Go model, client and server", []string{"client", "server"}, exportGo},
	{"a Go model with a runtime", []string{"runtime"}, exportGo},
}

func exportModel(b *B) *Term {
	param := func(name, typ string, f F) *Term {
		g := F{"Name": name, "Type": typ}
		for k, v := range f {
			g[k] = v
		}
		return b.obj("HttpParamSpec", g)
	}
	ts, _ := b.goOthers()
	act := b.obj("HttpDef", F{"Name": "getThing", "Method": "GET", "Path": "/things/{id}", "Inputs": b.list(param("id", "String", F{"Path": true, "Required": true})),
		"Expected": b.obj("HttpExpectedSpec", F{"Status": 200, "Outputs": b.list(param("body", "Inner", nil))})})
	return b.newModel(F{"Name": b.atom("svc"), "Namespace": b.atom("pkg"), "Types": b.list(append(ts, b.rec(b.field(b.atom("one"), F{"Type": "String"}), b.field(b.atom("two"), F{"Type": "Timestamp"})))...), "Http": b.list(act)})
}

func exportJava(b *B, opts ...string) []Ret { return b.javaExport(exportModel(b), opts...) }
func exportGo(b *B, opts ...string) []Ret   { return b.goExport(exportModel(b), opts...) }

func (b *B) genState(r Ret, g *Term) (err *Term) { return b.get(r.st, g, "Err") }

func runC15(c *C) {
	oldErr := func(b *B) *Term { return b.e.T.Err(b.atom("first failure")) }
	mk := func(b *B, err *Term, begin bool) (*Term, *State) {
		f := F{"Config": b.config(b.e.T.Str("force-overwrite"), b.boolAny(true))}
		g := b.obj("Generator", f)
		st := b.st
		if begin {
			rs := b.call(nil, "", "Generator.Begin", g)
			if len(rs) != 1 || rs[0].kind != RReturn {
				panic(budgetExceeded{"Begin"})
			}
			st = rs[0].st
		}
		if err != nil {
			t := b.typ("Generator")
			st = st.clone()
			for i := 0; i < under(t).(*types.Struct).NumFields(); i++ {
				if under(t).(*types.Struct).Field(i).Name() == "Err" {
					o := *st.heap[g.s]
					v := b.e.expand(o.val, t)
					fs := append([]*Term{}, v.args...)
					fs[i] = err
					o.val = b.e.T.mk(OStruct, "", nil, t, nil, fs...)
					st.heap[g.s] = &o
				}
			}
		}
		return g, st
	}
	errIs := func(b *B, o *O, rs []Ret, g *Term, want int, what string) {
		o.expect(rs, what, func(r Ret) int {
			if r.kind != RReturn {
				return 0
			}
			n := b.e.isNil(r.st, b.genState(r, g))
			if n < 0 {
				return -1
			}
			if n == want {
				return 1
			}
			return 0
		})
	}
	// failures are recorded
	for _, op := range []string{"os.Create", "write"} {
		op := op
		c.check("a failure of "+op+" while writing a file is recorded", &Scenario{fails: map[string]int{op: 1, "os.WriteFile": 1}}, func(b *B, o *O) {
			g, st := mk(b, nil, false)
			errIs(b, o, b.call(st, "", "Generator.WriteFile", g, b.atom("path"), b.sym("content", tString)), g, 0, "the failure must be recorded")
		})
	}
	c.check("a failure to emit is recorded", &Scenario{fails: map[string]int{"bufio.Write": 1}}, func(b *B, o *O) {
		g, st := mk(b, nil, true)
		errIs(b, o, b.call(st, "", "Generator.Emit", g, b.sym("x", tString)), g, 0, "the failure must be recorded")
	})
	// sequences of emitted pieces
	for n := 0; n <= 4; n++ {
		n := n
		c.check(fmt.Sprintf("%d emitted pieces are collected in order", n), nil, func(b *B, o *O) {
			g, st := mk(b, nil, true)
			rs := []Ret{{st: st, kind: RReturn}}
			var want []*Term
			for i := 0; i < n; i++ {
				x := b.sym(fmt.Sprint("x", i), tString)
				want = append(want, x)
				rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "", "Generator.Emit", g, x) })
			}
			rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "", "Generator.End", g) })
			o.expect(rs, "the collected text must be the pieces in order", func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				w := b.e.T.Str("")
				for _, x := range want {
					w = b.e.cat(w, x)
				}
				return b.same(r.st, r.val, w)
			})
			errIs(b, o, rs, g, 1, "no error must be recorded")
			// a second round starts empty
			rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "", "Generator.Begin", g) })
			rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "", "Generator.Emit", g, b.sym("y", tString)) })
			rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "", "Generator.End", g) })
			o.expect(rs, "the second text must hold only what was emitted since it began", func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				return b.same(r.st, r.val, b.sym("y", tString))
			})
		})
	}
	c.check("text emitted before an error is not given", nil, func(b *B, o *O) {
		g, st := mk(b, nil, true)
		rs := b.call(st, "", "Generator.Emit", g, b.sym("x", tString))
		var out []Ret
		for _, r := range rs {
			if r.kind != RReturn {
				continue
			}
			i := fieldIndex(b.typ("Generator"), "Err")
			if i < 0 {
				panic(anchorLost{"Generator.Err"})
			}
			ob := *r.st.heap[g.s]
			v := b.e.expand(ob.val, b.typ("Generator"))
			fs := append([]*Term{}, v.args...)
			fs[i] = oldErr(b)
			ob.val = b.e.T.mk(OStruct, "", nil, b.typ("Generator"), nil, fs...)
			r.st.heap[g.s] = &ob
			out = append(out, r)
		}
		rs = b.then(out, func(r Ret) []Ret { return b.call(r.st, "", "Generator.End", g) })
		o.expect(rs, "no text is given after an error", func(r Ret) int {
			if r.kind != RReturn {
				return 0
			}
			return b.same(r.st, r.val, b.e.T.Str(""))
		})
	})
	c.check("ending what was not begun", nil, func(b *B, o *O) {
		g, st := mk(b, nil, false)
		o.expect(b.call(st, "", "Generator.End", g), "there is no text", func(r Ret) int {
			if r.kind != RReturn {
				return 0
			}
			return b.same(r.st, r.val, b.e.T.Str(""))
		})
	})
	// after an error
	for _, begin := range []bool{false, true} {
		begin := begin
		for _, op := range []string{"Emit", "EmitTemplate", "Begin", "End"} {
			op := op
			c.check(fmt.Sprintf("%s after an error (begun %v) keeps the error and adds nothing", op, begin), nil, func(b *B, o *O) {
				g, st := mk(b, oldErr(b), begin)
				var rs []Ret
				switch op {
				case "Emit":
					rs = b.call(st, "", "Generator.Emit", g, b.sym("x", tString))
				case "EmitTemplate":
					rs = b.call(st, "", "Generator.EmitTemplate", g, b.e.T.Str("t"), b.e.T.Str("text"), b.e.T.Nil(), b.e.T.Nil())
				default:
					rs = b.call(st, "", "Generator."+op, g)
				}
				o.expect(rs, "the first error must stay recorded", func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return b.same(r.st, b.genState(r, g), oldErr(b))
				})
				rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "", "Generator.End", g) })
				o.expect(rs, "no text is collected after an error", func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return b.same(r.st, r.val, b.e.T.Str(""))
				})
			})
		}
	}
	for exists := 0; exists < 2; exists++ {
		exists := exists
		c.check(fmt.Sprintf("WriteFile after an error keeps the error and writes nothing, file exists %d", exists), &Scenario{exists: exists}, func(b *B, o *O) {
			g, st := mk(b, oldErr(b), false)
			o.expect(b.call(st, "", "Generator.WriteFile", g, b.atom("path"), b.sym("content", tString)), "the first error must stay recorded and no file be written", func(r Ret) int {
				if r.kind != RReturn || len(b.fileState(r.st).touched) > 0 {
					return 0
				}
				return b.same(r.st, b.genState(r, g), oldErr(b))
			})
		})
	}
	for _, x := range exports {
		for _, op := range []string{"os.MkdirAll", "os.Create", "write", "bufio.Write"} {
			x, op := x, op
			fs := map[string]int{op: 1}
			if op == "os.Create" || op == "write" {
				fs["os.WriteFile"] = 1
			}
			if op == "bufio.Write" && strings.Contains(x.name, "Go") {
				continue
			}
			c.check(fmt.Sprintf("%s when %s fails", x.name, op), &Scenario{fails: fs}, func(b *B, o *O) {
				rs := x.run(b, x.opts...)
				o.reject(rs, "generating when nothing can be written")
			})
		}
	}
	// templates
	tmpl := func(rule, src string, data func(b *B) *Term, funcs func(b *B) *Term, want func(b *B) *Term) {
		c.check("template: "+rule, nil, func(b *B, o *O) {
			g, st := mk(b, nil, true)
			fm := b.e.T.Nil()
			if funcs != nil {
				fm = funcs(b)
			}
			d := b.e.T.Nil()
			if data != nil {
				d = data(b)
			}
			_ = st
			// begin again on the state that has the inputs
			rs := b.call(nil, "", "Generator.Begin", g)
			rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "", "Generator.Emit", g, b.sym("before", tString)) })
			rs = b.then(rs, func(r Ret) []Ret {
				return b.call(r.st, "", "Generator.EmitTemplate", g, b.e.T.Str("t"), b.e.T.Str(src), d, fm)
			})
			if want == nil {
				errIs(b, o, rs, g, 0, "the template's failure must be recorded")
				return
			}
			errIs(b, o, rs, g, 1, "no error must be recorded")
			rs = b.then(rs, func(r Ret) []Ret { return b.call(r.st, "", "Generator.End", g) })
			o.expect(rs, "the text must be the expanded template", func(r Ret) int {
				if r.kind != RReturn {
					return 0
				}
				return b.same(r.st, r.val, b.e.cat(b.sym("before", tString), want(b)))
			})
		})
	}
	str := func(s string) func(b *B) *Term { return func(b *B) *Term { return b.e.T.Str(s) } }
	tmpl("plain text", "plain", nil, nil, str("plain"))
	tmpl("a field of the data", "a{{.Name}}b", func(b *B) *Term { p := b.obj("TypeDef", F{"Name": b.atom("n")}); return b.any(p.t, p) }, nil,
		func(b *B) *Term { return b.e.cat(b.e.T.Str("a"), b.atom("n"), b.e.T.Str("b")) })
	tmpl("malformed", "a{{.Name", nil, nil, nil)
	tmpl("an undefined function", "a{{nofunc}}b", nil, nil, nil)
	tmpl("an undefined field", "a{{.Nowhere}}b", func(b *B) *Term { p := b.obj("TypeDef", F{"Name": b.atom("n")}); return b.any(p.t, p) }, nil, nil)
	tmpl("a field of a nil pointer", "a{{.Name.X}}b", func(b *B) *Term { p := b.obj("TypeDef", F{"Name": b.atom("n")}); return b.any(p.t, p) }, nil, nil)
	// configuration lookups
	kinds := []struct {
		fn  string
		t   types.Type
		mk  func(b *B) *Term
		raw func(b *B) *Term
	}{
		{"GetConfigString", tString, func(b *B) *Term { return b.str(b.sym("v", tString)) }, func(b *B) *Term { return b.sym("v", tString) }},
		{"GetConfigBool", tBool, func(b *B) *Term { return b.boolAny(true) }, func(b *B) *Term { return b.e.T.Bool(true) }},
		{"GetConfigBool", tBool, func(b *B) *Term { return b.boolAny(false) }, func(b *B) *Term { return b.e.T.Bool(false) }},
		{"GetConfigBool", tBool, func(b *B) *Term { return b.str("false") }, func(b *B) *Term { return b.e.T.Bool(false) }},
		{"GetConfigBool", tBool, func(b *B) *Term { return b.str("true") }, func(b *B) *Term { return b.e.T.Bool(true) }},
		{"GetConfigString", tString, func(b *B) *Term { return b.str("") }, func(b *B) *Term { return b.e.T.Str("") }},
		{"GetConfigString", tString, func(b *B) *Term { return b.str(" a value ") }, func(b *B) *Term { return b.e.T.Str(" a value ") }},
		{"GetConfigString", tString, func(b *B) *Term { return b.str("false") }, func(b *B) *Term { return b.e.T.Str("false") }},
	}
	for _, n := range []int64{0, -1, 42, 65536, 4294967339} {
		for _, t := range []types.Type{types.Typ[types.Float64], types.Typ[types.Int]} {
			n, t := n, t
			kinds = append(kinds, kinds[0])
			k := &kinds[len(kinds)-1]
			k.fn, k.t = "GetConfigInt", types.Typ[types.Int]
			k.mk = func(b *B) *Term {
				if t == types.Typ[types.Int] {
					return b.any(t, b.e.T.Int(n))
				}
				return b.any(t, b.e.T.mk(OConst, "", constant.MakeFloat64(float64(n)), t, nil))
			}
			k.raw = func(b *B) *Term { return b.e.T.Int(n) }
		}
	}
	for i, k := range kinds {
		for _, set := range []bool{false, true} {
			i, k, set := i, k, set
			c.check(fmt.Sprintf("%s (%d), set %v", k.fn, i, set), nil, func(b *B, o *O) {
				cfg := b.config(b.atom("other"), b.str("x"))
				if set {
					cfg = b.config(b.atom("other"), b.str("x"), b.atom("k"), k.mk(b))
				}
				g := b.obj("Generator", F{"Config": cfg})
				def := b.sym("dflt", k.t)
				want := def
				if set {
					want = k.raw(b)
				}
				o.expect(b.call(nil, "", "Generator."+k.fn, g, b.atom("k"), def), "the configured value, or the default when there is none", func(r Ret) int {
					if r.kind != RReturn {
						return 0
					}
					return b.same(r.st, r.val, want)
				})
			})
		}
	}
}

func fieldIndex(t types.Type, name string) int {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
