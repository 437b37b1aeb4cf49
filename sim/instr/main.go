// Command instr rewrites Go packages so that they run on the vsim simulator.
//
//	instr -deps deps.json -out DIR modpath=dir [modpath=dir ...]
//
// Every directory of the given modules that holds non-test Go files is rewritten below DIR/<n>, n being the index of the module.
// deps.json is the output of `go list -export -deps -json` for the imports.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

type pkgSrc struct {
	path    string
	dir     string
	rel     string // relative to the module
	mod     int
	files   []*ast.File
	names   []string
	imports map[string]bool
	tpkg    *types.Package
	info    *types.Info
	done    bool
}

var (
	fset    = token.NewFileSet()
	pkgs    = map[string]*pkgSrc{}
	exports = map[string]string{}
	gcimp   types.ImporterFrom
	listImp = flag.Bool("imports", false, "print the external imports and exit")
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	deps := flag.String("deps", "", "go list -export -deps -json output")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	var mods []struct{ path, dir string }
	for _, a := range flag.Args() {
		i := strings.IndexByte(a, '=')
		if i < 0 {
			fatal("bad argument %q", a)
		}
		mods = append(mods, struct{ path, dir string }{a[:i], a[i+1:]})
	}
	for mi, m := range mods {
		err := filepath.WalkDir(m.dir, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if !d.IsDir() {
				return nil
			}
			n := d.Name()
			if p != m.dir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			if p != m.dir {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			rel, _ := filepath.Rel(m.dir, p)
			load(mi, m.path, p, filepath.ToSlash(rel))
			return nil
		})
		if err != nil {
			fatal("%v", err)
		}
	}
	if *listImp {
		set := map[string]bool{}
		for _, p := range pkgs {
			for i := range p.imports {
				if pkgs[i] == nil && i != "unsafe" && i != "C" {
					set[i] = true
				}
			}
		}
		var l []string
		for i := range set {
			l = append(l, i)
		}
		sort.Strings(l)
		for _, i := range l {
			fmt.Println(i)
		}
		return
	}
	readDeps(*deps)
	gcimp = importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		e := exports[p]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(e)
	}).(types.ImporterFrom)
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		check(pkgs[p])
	}
	for _, p := range paths {
		rewritePkg(pkgs[p], *out)
	}
}

func readDeps(f string) {
	if f == "" {
		return
	}
	fh, err := os.Open(f)
	if err != nil {
		fatal("%v", err)
	}
	defer fh.Close()
	dec := json.NewDecoder(fh)
	for {
		var x struct{ ImportPath, Export string }
		if err := dec.Decode(&x); err == io.EOF {
			return
		} else if err != nil {
			fatal("%s: %v", f, err)
		}
		exports[x.ImportPath] = x.Export
	}
}

func load(mi int, modpath, dir, rel string) {
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		if _, ok := err.(*build.NoGoError); ok {
			return
		}
		fatal("%s: %v", dir, err)
	}
	if len(bp.GoFiles) == 0 {
		return
	}
	if len(bp.CgoFiles) > 0 {
		fatal("%s uses cgo", dir)
	}
	p := &pkgSrc{path: path.Join(modpath, rel), dir: dir, rel: rel, mod: mi, imports: map[string]bool{}}
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		for _, i := range f.Imports {
			p.imports[strings.Trim(i.Path.Value, "\"`")] = true
		}
	}
	pkgs[p.path] = p
}

type imp struct{}

func (imp) Import(p string) (*types.Package, error) { return imp{}.ImportFrom(p, "", 0) }
func (imp) ImportFrom(p, dir string, m types.ImportMode) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if s := pkgs[p]; s != nil {
		check(s)
		return s.tpkg, nil
	}
	return gcimp.ImportFrom(p, dir, m)
}

func check(p *pkgSrc) {
	if p.done {
		return
	}
	p.done = true
	p.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Instances:  map[*ast.Ident]types.Instance{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp{}, Sizes: types.SizesFor("gc", "amd64")}
	t, err := conf.Check(p.path, fset, p.files, p.info)
	if err != nil {
		fatal("type checking %s: %v", p.path, err)
	}
	p.tpkg = t
}

func rewritePkg(p *pkgSrc, out string) {
	r := &rewriter{p: p, info: p.info, shared: map[types.Object]bool{}, resets: map[types.Object]string{}}
	for _, f := range p.files {
		r.findShared(f)
	}
	dir := filepath.Join(out, fmt.Sprint(p.mod), filepath.FromSlash(p.rel))
	if err := os.MkdirAll(dir, 0755); err != nil {
		fatal("%v", err)
	}
	for i, f := range p.files {
		r.file(f, p.names[i])
		fh, err := os.Create(filepath.Join(dir, p.names[i]))
		if err != nil {
			fatal("%v", err)
		}
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(fh, fset, f); err != nil {
			fatal("printing %s: %v", p.names[i], err)
		}
		fh.Close()
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport _vs \"vsim\"\n\nvar _vsb = _vs.Register([]string{\n", p.tpkg.Name())
	for _, s := range r.sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("})\n\nvar _ = _vsb\n\n")
	b.WriteString(r.resetCode())
	if err := os.WriteFile(filepath.Join(dir, "zz_vsim_sites.go"), []byte(b.String()), 0644); err != nil {
		fatal("%v", err)
	}
}
