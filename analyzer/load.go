// Package main implements the static analyser used by /verif's checks.
// load.go: parses and type-checks the non-test sources of /repo and builds SSA.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const module = "github.com/boynton/sadl"

// modules that are absent from the sandbox; files importing them are left out of
// the SSA program and handled by the syntax-level analyses.
var missingMods = map[string]bool{
	"github.com/boynton/smithy": true,
}

type Program struct {
	root     string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // in-module, SSA built
	tpkgs    map[string]*types.Package
	infos    map[string]*types.Info
	files    map[string][]*ast.File // all non-test files per package
	left     map[string][]*ast.File // files left out of SSA (missing imports)
	funcs    []*ssa.Function        // all in-module functions with bodies
	ext      types.Importer
	errs     []string
	fileName map[*ast.File]string
	excluded map[string]bool
	callees  map[string]int
	export   map[string]string
}

type pkgImporter struct {
	p    *Program
	done map[string]*types.Package
}

func (im *pkgImporter) Import(q string) (*types.Package, error) {
	if q == module || strings.HasPrefix(q, module+"/") || q == scannerPath {
		if pkg, ok := im.done[q]; ok {
			if pkg == nil {
				return nil, fmt.Errorf("import cycle or unavailable")
			}
			return pkg, nil
		}
		im.done[q] = nil
		pkg := im.p.check(im, q)
		im.done[q] = pkg
		if pkg == nil {
			return nil, fmt.Errorf("unavailable")
		}
		return pkg, nil
	}
	if missingMods[q] {
		return nil, fmt.Errorf("unavailable")
	}
	return im.p.ext.Import(q)
}

func importsMissing(f *ast.File, excluded map[string]bool) bool {
	for _, s := range f.Imports {
		q, _ := strconv.Unquote(s.Path.Value)
		if missingMods[q] || excluded[q] {
			return true
		}
	}
	return false
}

func (p *Program) check(im *pkgImporter, q string) *types.Package {
	files := p.files[q]
	if len(files) == 0 || p.excluded[q] {
		return nil
	}
	info := &types.Info{
		Types:        map[ast.Expr]types.TypeAndValue{},
		Defs:         map[*ast.Ident]types.Object{},
		Uses:         map[*ast.Ident]types.Object{},
		Implicits:    map[ast.Node]types.Object{},
		Instances:    map[*ast.Ident]types.Instance{},
		Scopes:       map[ast.Node]*types.Scope{},
		Selections:   map[*ast.SelectorExpr]*types.Selection{},
		FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: im, GoVersion: "go1.18", Error: func(err error) {
		p.errs = append(p.errs, err.Error())
	}}
	pkg, _ := conf.Check(q, p.fset, files, info)
	p.tpkgs[q] = pkg
	p.infos[q] = info
	return pkg
}

// Load reads every .go file below root.
func Load(root string) (*Program, error) {
	p := &Program{root: root, fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{},
		tpkgs: map[string]*types.Package{}, infos: map[string]*types.Info{},
		files: map[string][]*ast.File{}, left: map[string][]*ast.File{},
		fileName: map[*ast.File]string{}, excluded: map[string]bool{}, callees: map[string]int{}}
	external := map[string]bool{}
	err := filepath.WalkDir(root, func(name string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		base := d.Name()
		if d.IsDir() {
			if name != root && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") ||
				base == "testdata" || base == "vendor" || base == "bin") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "_") || strings.HasPrefix(base, ".") {
			return nil
		}
		f, err := parser.ParseFile(p.fset, name, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		if f.Name.Name == "ignore" {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(name))
		q := path.Join(module, filepath.ToSlash(rel))
		p.files[q] = append(p.files[q], f)
		p.fileName[f] = name
		for _, s := range f.Imports {
			i, _ := strconv.Unquote(s.Path.Value)
			if i != module && !strings.HasPrefix(i, module+"/") && !missingMods[i] && i != scannerPath && i != "unsafe" {
				external[i] = true
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	if len(p.files) == 0 {
		return nil, fmt.Errorf("no Go sources below %s", root)
	}
	if err := p.addScannerStub(); err != nil {
		return nil, err
	}
	// The root package loses only the files that import missing modules (as the
	// repository's own build does); any other package importing one is left out whole.
	for q, files := range p.files {
		if q == module {
			var keep []*ast.File
			for _, f := range files {
				if importsMissing(f, nil) {
					p.left[q] = append(p.left[q], f)
				} else {
					keep = append(keep, f)
				}
			}
			p.files[q] = keep
		}
	}
	// unparser.go uses parser.go's declarations: drop root files until it type-checks.
	for {
		changed := false
		for q, files := range p.files {
			if q == module || p.excluded[q] {
				continue
			}
			for _, f := range files {
				if importsMissing(f, p.excluded) {
					p.excluded[q] = true
					p.left[q] = files
					changed = true
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	// packages that generated code uses
	generated := []string{"bufio", "bytes", "context", "encoding/base64", "encoding/json", "errors", "fmt", "io", "io/ioutil", "log", "math", "math/big", "net/http", "net/url",
		"os", "path", "reflect", "regexp", "sort", "strconv", "strings", "sync", "text/template", "time", "unicode"}
	for _, q := range generated {
		external[q] = true
	}
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"}
	var ext []string
	for q := range external {
		ext = append(ext, q)
	}
	sort.Strings(ext)
	cmd := exec.Command("go", append(args, ext...)...)
	cmd.Dir = root
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list -export: %v: %s", err, eb.String())
	}
	export := map[string]string{}
	p.export = export
	for _, line := range strings.Split(string(bytes.TrimSpace(out)), "\n") {
		if q, file, ok := strings.Cut(line, " "); ok {
			export[q] = file
		}
	}
	p.ext = importer.ForCompiler(p.fset, "gc", func(q string) (io.ReadCloser, error) {
		file := p.exportData(q)
		if file == "" {
			return nil, fmt.Errorf("no export data for %s", q)
		}
		return os.Open(file)
	})
	for _, q := range generated {
		p.ext.Import(q)
	}
	im := &pkgImporter{p: p, done: map[string]*types.Package{}}
	// root package first; iteratively drop files with errors caused by missing declarations
	for tries := 0; tries < 4; tries++ {
		p.errs = nil
		im.done = map[string]*types.Package{}
		im.Import(module)
		if len(p.errs) == 0 {
			break
		}
		if len(p.left[module]) == 0 {
			// the stand-in for the scanner does not fit: leave the parser out
			var keep []*ast.File
			for _, f := range p.files[module] {
				if importsMissing(f, map[string]bool{scannerPath: true}) {
					p.left[module] = append(p.left[module], f)
				} else {
					keep = append(keep, f)
				}
			}
			if len(keep) == len(p.files[module]) {
				break
			}
			p.files[module] = keep
			continue
		}
		bad := map[string]bool{}
		for _, e := range p.errs {
			if i := strings.Index(e, ".go:"); i > 0 {
				bad[e[:i+3]] = true
			}
		}
		var keep []*ast.File
		for _, f := range p.files[module] {
			if bad[p.fileName[f]] {
				p.left[module] = append(p.left[module], f)
			} else {
				keep = append(keep, f)
			}
		}
		if len(keep) == len(p.files[module]) {
			break
		}
		p.files[module] = keep
	}
	var paths []string
	for q := range p.files {
		if !p.excluded[q] && q != module {
			paths = append(paths, q)
		}
	}
	sort.Strings(paths)
	for _, q := range paths {
		im.Import(q)
	}
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(p.errs, "; "))
	}
	p.prog = ssa.NewProgram(p.fset, ssa.BuilderMode(0))
	created := map[*types.Package]bool{}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if tp == nil || created[tp] {
			return
		}
		created[tp] = true
		for _, i := range tp.Imports() {
			create(i)
		}
		q := tp.Path()
		if p.tpkgs[q] == tp {
			p.pkgs[q] = p.prog.CreatePackage(tp, p.files[q], p.infos[q], true)
		} else {
			p.prog.CreatePackage(tp, nil, nil, true)
		}
	}
	create(p.tpkgs[module])
	for _, q := range paths {
		create(p.tpkgs[q])
	}
	p.prog.Build()
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var qs []string
	for q := range p.pkgs {
		qs = append(qs, q)
	}
	sort.Strings(qs)
	for _, q := range qs {
		sp := p.pkgs[q]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := p.prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" && fn.Pkg == sp {
							add(fn)
						}
					}
				}
			}
		}
	}
	return p, nil
}

// Func finds "pkg.Name" or "pkg.(Type).Method"/"pkg.Type.Method"; pkg is the path below the module ("" = root).
func (p *Program) Func(pkg, name string) *ssa.Function {
	q := module
	if pkg != "" {
		q = module + "/" + pkg
	}
	sp := p.pkgs[q]
	if sp == nil {
		return nil
	}
	if tn, mn, ok := strings.Cut(name, "."); ok {
		tm, _ := sp.Members[tn].(*ssa.Type)
		if tm == nil {
			return nil
		}
		var wrapper *ssa.Function
		for _, t := range []types.Type{types.NewPointer(tm.Type()), tm.Type()} {
			if sel := p.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, mn); sel != nil {
				f := p.prog.MethodValue(sel)
				if f.Synthetic == "" {
					return f
				}
				if wrapper == nil {
					wrapper = f
				}
			}
		}
		return wrapper
	}
	return sp.Func(name)
}

func (p *Program) Type(pkg, name string) types.Type {
	q := module
	if pkg != "" {
		q = module + "/" + pkg
	}
	tp := p.tpkgs[q]
	if tp == nil && strings.HasPrefix(pkg, "github.com/") {
		tp, _ = p.ext.Import(pkg)
	}
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	x := p.fset.Position(ps)
	rel, err := filepath.Rel(p.root, x.Filename)
	if err != nil {
		rel = x.Filename
	}
	return fmt.Sprintf("%s:%d", rel, x.Line)
}
