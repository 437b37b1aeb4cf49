package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

// seams: package path -> name -> replacement in vsim
var seams = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup", "Cond": "Cond", "NewCond": "NewCond",
		"Map": "Map", "Pool": "Pool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"sync/atomic": {"LoadInt32": "LoadInt32", "LoadInt64": "LoadInt64", "LoadUint32": "LoadUint32", "LoadUint64": "LoadUint64", "LoadUintptr": "LoadUintptr", "LoadPointer": "LoadPointer",
		"StoreInt32": "StoreInt32", "StoreInt64": "StoreInt64", "StoreUint32": "StoreUint32", "StoreUint64": "StoreUint64", "StoreUintptr": "StoreUintptr", "StorePointer": "StorePointer",
		"AddInt32": "AddInt32", "AddInt64": "AddInt64", "AddUint32": "AddUint32", "AddUint64": "AddUint64", "AddUintptr": "AddUintptr",
		"SwapInt32": "SwapInt32", "SwapInt64": "SwapInt64", "SwapUint32": "SwapUint32", "SwapUint64": "SwapUint64", "SwapUintptr": "SwapUintptr", "SwapPointer": "SwapPointer", "CompareAndSwapUintptr": "CompareAndSwapUintptr",
		"AndInt32": "AndInt32", "AndUint32": "AndUint32", "AndInt64": "AndInt64", "AndUint64": "AndUint64", "OrInt32": "OrInt32", "OrUint32": "OrUint32", "OrInt64": "OrInt64", "OrUint64": "OrUint64",
		"CompareAndSwapInt32": "CompareAndSwapInt32", "CompareAndSwapInt64": "CompareAndSwapInt64", "CompareAndSwapUint32": "CompareAndSwapUint32",
		"CompareAndSwapUint64": "CompareAndSwapUint64", "CompareAndSwapPointer": "CompareAndSwapPointer",
		"Int32": "AtomicInt32", "Int64": "AtomicInt64", "Uint32": "AtomicUint32", "Uint64": "AtomicUint64", "Uintptr": "AtomicUintptr",
		"Bool": "AtomicBool", "Pointer": "AtomicPointer", "Value": "AtomicValue"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc",
		"NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "TickChan"},
	"os":           {"Open": "Open", "OpenFile": "OpenFile", "File": "File", "ReadFile": "ReadFile", "Stat": "Stat", "Lstat": "Stat"},
	"io/ioutil":    {"ReadFile": "ReadFile"},
	"runtime":      {"Gosched": "Yield"},
	"math/rand":    {"ExpFloat64": "RandExpFloat64", "Float32": "RandFloat32", "Float64": "RandFloat64", "Int": "RandInt", "Int31": "RandInt31", "Int31n": "RandInt31n", "Int63": "RandInt63", "Int63n": "RandInt63n", "Intn": "RandIntn", "NormFloat64": "RandNormFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Uint32": "RandUint32", "Uint64": "RandUint64", "Seed": "RandSeed", "Read": "RandRead"},
	"math/rand/v2": {"ExpFloat64": "RandV2ExpFloat64", "Float32": "RandV2Float32", "Float64": "RandV2Float64", "Int": "RandV2Int", "Int32": "RandV2Int32", "Int32N": "RandV2Int32N", "Int64": "RandV2Int64", "Int64N": "RandV2Int64N", "IntN": "RandV2IntN", "NormFloat64": "RandV2NormFloat64", "Perm": "RandV2Perm", "Shuffle": "RandV2Shuffle", "Uint": "RandV2Uint", "Uint32": "RandV2Uint32", "Uint32N": "RandV2Uint32N", "Uint64": "RandV2Uint64", "Uint64N": "RandV2Uint64N", "UintN": "RandV2UintN", "N": "RandN"},
	"crypto/rand":  {"Read": "RandRead"},
}

// names of these packages that bypass the simulator and are not supported
var refused = map[string]map[string]bool{
	"os": {"Create": true, "Remove": true, "RemoveAll": true, "Rename": true, "WriteFile": true, "Mkdir": true, "MkdirAll": true, "NewFile": true, "ReadDir": true, "OpenRoot": true},
}

// instrumented copies of library packages with plain mutable data structures
var copied = map[string]string{"container/list": "vsim/lib/list", "container/ring": "vsim/lib/ring", "container/heap": "vsim/lib/heap"}

// library types whose pointer methods change them
var mutable = map[string]bool{"bytes.Buffer": true, "strings.Builder": true, "bufio.Reader": true, "bufio.Writer": true, "bufio.Scanner": true, "math/rand.Rand": true}

type rewriter struct {
	p      *pkgSrc
	info   *types.Info
	shared map[types.Object]bool // locals that closures capture or whose address is taken
	sites  []string
	fname  string
	fn     string
	tmp    int
	used   map[string]bool // imports still used
	cur    *ast.File
	// to initialise the package again for every run
	zeros  []string
	vars   []string
	inits  []string
	resets map[types.Object]string
}

func (r *rewriter) findShared(f *ast.File) {
	// captured by a closure: used inside a FuncLit that does not contain the declaration
	var lits []*ast.FuncLit
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
			ast.Inspect(x.Type, walk)
			ast.Inspect(x.Body, walk)
			lits = lits[:len(lits)-1]
			return false
		case *ast.Ident:
			o, ok := r.info.Uses[x].(*types.Var)
			if ok && !o.IsField() && o.Parent() != nil && o.Parent() != r.p.tpkg.Scope() && o.Pkg() == r.p.tpkg && len(lits) > 0 {
				l := lits[len(lits)-1]
				if o.Pos() < l.Pos() || o.Pos() > l.End() {
					r.shared[o] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				e := ast.Unparen(x.X)
				for {
					switch y := e.(type) {
					case *ast.SelectorExpr:
						if s := r.info.Selections[y]; s != nil && s.Kind() == types.FieldVal && !isPtr(r.info.TypeOf(y.X)) {
							e = ast.Unparen(y.X)
							continue
						}
					case *ast.IndexExpr:
						if _, ok := r.info.TypeOf(y.X).Underlying().(*types.Array); ok {
							e = ast.Unparen(y.X)
							continue
						}
					case *ast.Ident:
						if o, ok := r.info.Uses[y].(*types.Var); ok && !o.IsField() {
							r.shared[o] = true
						}
					}
					break
				}
			}
		}
		return true
	}
	ast.Inspect(f, walk)
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rewriter) site(n ast.Node, what string) ast.Expr {
	pos := fset.Position(n.Pos())
	r.sites = append(r.sites, fmt.Sprintf("%s:%d %s %s", r.fname, pos.Line, r.fn, what))
	return &ast.BinaryExpr{X: ast.NewIdent("_vsb"), Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(r.sites) - 1)}}
}

func vs(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("_vs"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func star(e ast.Expr) ast.Expr                        { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }
func addr(e ast.Expr) ast.Expr                        { return &ast.UnaryExpr{Op: token.AND, X: e} }
func paren(e ast.Expr) ast.Expr                       { return &ast.ParenExpr{X: e} }

func (r *rewriter) name(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("_vs_%s%d", p, r.tmp))
}

// ---------------------------------------------------------------- file

func (r *rewriter) file(f *ast.File, name string) {
	r.cur = f
	r.fname = name
	if r.p.mod > 0 || r.p.rel != "." {
		r.fname = filepath.Base(r.p.dir) + "/" + name
	}
	for _, i := range f.Imports {
		p := strings.Trim(i.Path.Value, "\"`")
		if i.Name != nil && i.Name.Name == "." && (seams[p] != nil || refused[p] != nil || copied[p] != "") {
			fatal("%s: dot import of %s is not supported", name, p)
		}
	}
	// seams first, in place, so that the type information stays attached to the nodes
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		pp := pn.Imported().Path()
		if refused[pp][s.Sel.Name] {
			fatal("%s: %s.%s has no simulated counterpart", fset.Position(s.Pos()), pp, s.Sel.Name)
		}
		if to, ok := seams[pp][s.Sel.Name]; ok {
			sel := ast.NewIdent(to)
			if o := r.info.Uses[s.Sel]; o != nil {
				r.info.Uses[sel] = o
			}
			s.X = &ast.Ident{Name: "_vs", NamePos: id.NamePos}
			s.Sel = sel
		}
		return true
	})
	// drop directives and docs: comments are not parsed
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			r.fn = funcName(x)
			if x.Body != nil {
				x.Body = r.body(x.Body, x)
			}
			if x.Recv == nil && x.Name.Name == "init" {
				x.Name = r.name("init")
				r.inits = append(r.inits, x.Name.Name)
			}
		case *ast.GenDecl:
			if x.Tok == token.VAR {
				r.fn = "init"
				for _, s := range x.Specs {
					v := s.(*ast.ValueSpec)
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
					r.resetVars(f, v)
				}
			}
		}
	}
	r.imports(f)
}

func funcName(x *ast.FuncDecl) string {
	if x.Recv != nil && len(x.Recv.List) > 0 {
		t := x.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			return id.Name + "." + x.Name.Name
		}
	}
	return x.Name.Name
}

// imports removes the imports that the substitutions left unused and adds vsim.
func (r *rewriter) imports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn.Imported().Path()] = true
				}
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: ast.NewIdent("_vs"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vsim"`}})
	for _, i := range f.Imports {
		p := strings.Trim(i.Path.Value, "\"`")
		if i.Name != nil && (i.Name.Name == "_" || i.Name.Name == ".") || used[p] {
			sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}}
			if i.Name != nil {
				sp.Name = ast.NewIdent(i.Name.Name)
			}
			if to := copied[p]; to != "" {
				sp.Path.Value = strconv.Quote(to)
			}
			imp.Specs = append(imp.Specs, sp)
		}
	}
	// keep vsim used in every file
	keep := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{vs("Tick")}}}}
	f.Decls = append([]ast.Decl{imp}, append(decls, keep)...)
}

// ---------------------------------------------------------------- expressions

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// isShared tells if the memory of an addressable expression can be reached by more than one task.
func (r *rewriter) isShared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.isShared(x.X)
	case *ast.Ident:
		o, ok := r.info.Uses[x].(*types.Var)
		if !ok || x.Name == "_" {
			return false
		}
		if o.Parent() == r.p.tpkg.Scope() {
			return true
		}
		return r.shared[o]
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s != nil {
			if s.Kind() != types.FieldVal {
				return false
			}
			if isPtr(r.info.TypeOf(x.X)) || s.Indirect() {
				return true
			}
			return r.isShared(x.X)
		}
		// qualified identifier: a variable of another instrumented package
		if o, ok := r.info.Uses[x.Sel].(*types.Var); ok && o.Pkg() != nil {
			return pkgs[o.Pkg().Path()] != nil
		}
		return false
	case *ast.IndexExpr:
		t := r.info.TypeOf(x.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_ = u
			return true
		case *types.Array:
			return r.isShared(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *rewriter) what(e ast.Expr) string {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		t := r.info.TypeOf(x.X)
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + x.Sel.Name
		}
		return x.Sel.Name
	case *ast.IndexExpr:
		return r.what(x.X) + "[]"
	case *ast.StarExpr:
		return "*" + r.what(x.X)
	case *ast.CallExpr:
		return r.what(x.Fun) + "()"
	case *ast.SliceExpr:
		return r.what(x.X) + "[:]"
	case *ast.TypeAssertExpr:
		return r.what(x.X)
	}
	return "value"
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// expr rewrites an expression that is read.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, ok := r.info.Types[e]
	if ok && (tv.IsType() || tv.Value != nil || tv.IsBuiltin() || tv.IsNil()) {
		return e
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.BasicLit:
		return x
	case *ast.Ident:
		if o, isVar := r.info.Uses[x].(*types.Var); isVar && r.isShared(x) && !o.IsField() {
			w := r.what(x)
			return star(call(vs("R"), addr(x), r.site(x, "r "+w)))
		}
		return x
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil { // qualified identifier
			if _, isVar := r.info.Uses[x.Sel].(*types.Var); isVar && r.isShared(x) {
				return star(call(vs("R"), addr(x), r.site(x, "r "+x.Sel.Name)))
			}
			return x
		}
		switch sel.Kind() {
		case types.FieldVal:
			if tv.Addressable() && r.isShared(x) {
				w := r.what(x)
				si := r.site(x, "r "+w)
				a := r.addrOf(x)
				return star(call(vs("R"), addr(a), si))
			}
			x.X = r.expr(x.X)
			return x
		case types.MethodVal:
			r.recv(x, sel)
			return x
		default:
			return x
		}
	case *ast.IndexExpr:
		t := r.info.TypeOf(x.X)
		if t == nil || isFunc(t) {
			return x
		}
		if _, isMap := t.Underlying().(*types.Map); isMap {
			si := r.site(x, "r "+r.what(x))
			x.X = call(vs("MR"), r.expr(x.X), si)
			x.Index = r.expr(x.Index)
			return x
		}
		if tv.Addressable() && r.isShared(x) {
			w := r.what(x)
			si := r.site(x, "r "+w)
			a := r.addrOf(x)
			return star(call(vs("R"), addr(a), si))
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		return x
	case *ast.StarExpr:
		w := r.what(x)
		si := r.site(x, "r "+w)
		return star(call(vs("R"), r.expr(x.X), si))
	case *ast.SliceExpr:
		if t := r.info.TypeOf(x.X); t != nil {
			if _, arr := t.Underlying().(*types.Array); arr {
				x.X = r.addrOf(x.X)
			} else {
				x.X = r.expr(x.X)
			}
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, lit := ast.Unparen(x.X).(*ast.CompositeLit); lit {
				x.X = r.expr(x.X)
			} else {
				x.X = r.addrOf(x.X)
			}
			return x
		}
		if x.Op == token.ARROW {
			return call(vs("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	case *ast.CompositeLit:
		t := r.info.TypeOf(x)
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		_, isStruct := t.Underlying().(*types.Struct)
		_, isMap := t.Underlying().(*types.Map)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isMap {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		_ = isStruct
		return x
	case *ast.FuncLit:
		x.Body = r.body(x.Body, x)
		return x
	case *ast.CallExpr:
		return r.call(x)
	}
	return e
}

// recv rewrites the receiver of a method value or call.
func (r *rewriter) recv(x *ast.SelectorExpr, sel *types.Selection) {
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		x.X = r.expr(x.X)
		return
	}
	rt := f.Type().(*types.Signature).Recv().Type()
	xt := r.info.TypeOf(x.X)
	_, ptrRecv := rt.Underlying().(*types.Pointer)
	if types.IsInterface(rt) {
		ptrRecv = false
	}
	mut := false
	if n, ok := derefT(rt).(*types.Named); ok && n.Obj().Pkg() != nil {
		mut = mutable[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	}
	if ptrRecv && !isPtr(xt) {
		sh := r.isShared(x.X)
		w := r.what(x.X)
		n := x.X
		x.X = r.addrOf(x.X)
		if mut && sh && len(sel.Index()) == 1 {
			x.X = paren(call(vs("X"), addr(x.X), r.site(n, "w "+w)))
		}
		return
	}
	if !ptrRecv && isPtr(xt) && !types.IsInterface(rt) && len(sel.Index()) == 1 && !types.IsInterface(xt) {
		w := r.what(x.X)
		si := r.site(x.X, "r *"+w)
		x.X = star(call(vs("R"), r.expr(x.X), si))
		return
	}
	w := r.what(x.X)
	n := x.X
	x.X = r.expr(x.X)
	if mut && isPtr(xt) && len(sel.Index()) == 1 {
		x.X = call(vs("X"), x.X, r.site(n, "w *"+w))
	}
}

func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// addrOf rewrites an addressable expression of which the address is taken, without reading it.
func (r *rewriter) addrOf(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.addrOf(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return x
		}
		if isPtr(r.info.TypeOf(x.X)) {
			x.X = r.expr(x.X)
		} else if r.info.Types[x.X].Addressable() {
			x.X = r.addrOf(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		return x
	case *ast.IndexExpr:
		if _, arr := r.info.TypeOf(x.X).Underlying().(*types.Array); arr {
			x.X = r.addrOf(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	return r.expr(e)
}

func (r *rewriter) builtin(c *ast.CallExpr) string {
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if _, ok := r.info.Uses[s.Sel].(*types.Builtin); ok {
			return "unsafe"
		}
	}
	return ""
}

func (r *rewriter) call(c *ast.CallExpr) ast.Expr {
	if tv := r.info.Types[c.Fun]; tv.IsType() { // conversion
		r.exprs(c.Args)
		return c
	}
	switch b := r.builtin(c); b {
	case "":
	case "new", "unsafe", "recover":
		return c
	case "make":
		for i := 1; i < len(c.Args); i++ {
			c.Args[i] = r.expr(c.Args[i])
		}
		return c
	case "len", "cap":
		t := r.info.TypeOf(c.Args[0]).Underlying()
		switch t.(type) {
		case *types.Map:
			si := r.site(c, "r len "+r.what(c.Args[0]))
			c.Args[0] = call(vs("MR"), r.expr(c.Args[0]), si)
			return c
		case *types.Chan:
			if b == "len" {
				return call(vs("LenChan"), r.expr(c.Args[0]))
			}
		}
		c.Args[0] = r.expr(c.Args[0])
		return c
	case "append":
		si := r.site(c, "append "+r.what(c.Args[0]))
		t, isSl := r.info.TypeOf(c.Args[0]).Underlying().(*types.Slice)
		strArg := false
		if c.Ellipsis.IsValid() && len(c.Args) == 2 {
			if bt, ok := r.info.TypeOf(c.Args[1]).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				strArg = true
			}
		}
		nilArg := r.info.Types[c.Args[0]].IsNil()
		if !isSl || strArg || nilArg || len(c.Args) == 1 {
			r.exprs(c.Args)
			return c
		}
		_ = t
		if c.Ellipsis.IsValid() && len(c.Args) == 2 && !r.info.Types[c.Args[1]].IsNil() {
			// the appended elements are read
			si2 := r.site(c, "r "+r.what(c.Args[1])+"[]")
			arg := r.expr(c.Args[1])
			c.Args[1] = call(vs("SR"), arg, si2)
		} else {
			for i := 1; i < len(c.Args); i++ {
				c.Args[i] = r.expr(c.Args[i])
			}
		}
		return &ast.CallExpr{Fun: call(vs("A"), r.expr(c.Args[0]), si), Args: c.Args[1:], Ellipsis: c.Ellipsis}
	case "copy":
		if _, ok := r.info.TypeOf(c.Args[1]).Underlying().(*types.Slice); ok {
			si := r.site(c, "copy "+r.what(c.Args[0]))
			return call(vs("Copy"), r.expr(c.Args[0]), r.expr(c.Args[1]), si)
		}
		r.exprs(c.Args)
		return c
	case "delete":
		si := r.site(c, "delete "+r.what(c.Args[0]))
		return call(call(vs("MD"), r.expr(c.Args[0]), si), r.expr(c.Args[1]))
	case "clear":
		if _, ok := r.info.TypeOf(c.Args[0]).Underlying().(*types.Map); ok {
			si := r.site(c, "clear "+r.what(c.Args[0]))
			return call(vs("MClear"), r.expr(c.Args[0]), si)
		}
		r.exprs(c.Args)
		return c
	case "close":
		return call(vs("CloseChan"), r.expr(c.Args[0]))
	default:
		r.exprs(c.Args)
		return c
	}
	ext := ""
	if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if f, ok := r.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && pkgs[f.Pkg().Path()] == nil {
			if _, isVs := s.X.(*ast.Ident); !isVs || s.X.(*ast.Ident).Name != "_vs" {
				ext = f.Pkg().Path()
			}
		}
	}
	c.Fun = r.expr(c.Fun)
	for i, a := range c.Args {
		t := r.info.TypeOf(a)
		n := r.expr(a)
		if ext != "" && t != nil && copied[ext] == "" && !r.info.Types[a].IsNil() {
			if _, lit := ast.Unparen(a).(*ast.CompositeLit); !lit {
				switch t.Underlying().(type) {
				case *types.Slice:
					fn := "SR"
					if ext == "sort" || ext == "slices" {
						fn = "SW"
					}
					n = call(vs(fn), n, r.site(a, "passed "+r.what(a)))
				case *types.Map:
					n = call(vs("MR"), n, r.site(a, "passed "+r.what(a)))
				}
			}
		}
		c.Args[i] = n
	}
	return c
}

// ---------------------------------------------------------------- statements

func (r *rewriter) tick(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: call(vs("Tick"), r.site(n, "tick"))}
}

func (r *rewriter) body(b *ast.BlockStmt, n ast.Node) *ast.BlockStmt {
	t := r.tick(n)
	b.List = r.stmts(b.List)
	b.List = append([]ast.Stmt{t}, b.List...)
	return b
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, false))
	}
	return out
}

// wrap turns several statements into one: a block, or a function call where only a simple statement may stand.
func wrap(l []ast.Stmt, simple bool) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	b := &ast.BlockStmt{List: l}
	if !simple {
		return b
	}
	return &ast.ExprStmt{X: call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: b})}
}

func define(n *ast.Ident, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// target describes how an assignment to an expression is done.
//
//	kind 0: plain assignment is enough
//	kind 1: store through pointer: W(&e)(v)
//	kind 2: map element: MS(m)(k)(v)
func (r *rewriter) targetKind(e ast.Expr) int {
	e = ast.Unparen(e)
	if isBlank(e) {
		return 0
	}
	if x, ok := e.(*ast.IndexExpr); ok {
		if _, isMap := r.info.TypeOf(x.X).Underlying().(*types.Map); isMap {
			return 2
		}
	}
	if r.isShared(e) {
		return 1
	}
	return 0
}

// store returns the function expression that stores into e.
func (r *rewriter) store(e ast.Expr) ast.Expr {
	e = ast.Unparen(e)
	w := r.what(e)
	if r.targetKind(e) == 2 {
		x := e.(*ast.IndexExpr)
		si := r.site(x, "w "+w)
		return call(call(vs("MS"), r.expr(x.X), si), r.expr(x.Index))
	}
	si := r.site(e, "w "+w)
	return call(vs("W"), addr(r.addrOf(e)), si)
}

// plainLHS rewrites the inner parts of a target that is assigned directly.
func (r *rewriter) plainLHS(e ast.Expr) ast.Expr {
	if isBlank(e) {
		return e
	}
	return r.addrOf(e)
}

func (r *rewriter) assign(x *ast.AssignStmt, simple bool) ast.Stmt {
	// comma-ok receive
	commaRecv := func() bool {
		if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
			if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.Rhs[0] = call(vs("Recv2"), r.expr(u.X))
				return true
			}
		}
		return false
	}
	switch x.Tok {
	case token.DEFINE:
		if !commaRecv() {
			r.exprs(x.Rhs)
		}
		return x
	case token.ASSIGN:
		shared := false
		for _, l := range x.Lhs {
			if r.targetKind(l) != 0 {
				shared = true
			}
		}
		if !shared {
			for i := range x.Lhs {
				x.Lhs[i] = r.plainLHS(x.Lhs[i])
			}
			if !commaRecv() {
				r.exprs(x.Rhs)
			}
			return x
		}
		if len(x.Lhs) == 1 {
			return &ast.ExprStmt{X: call(r.store(x.Lhs[0]), r.expr(x.Rhs[0]))}
		}
		// parallel assignment: evaluate the targets, then the values, then store from left to right
		var l []ast.Stmt
		stores := make([]ast.Expr, len(x.Lhs))
		for i, t := range x.Lhs {
			if r.targetKind(t) != 0 {
				n := r.name("s")
				l = append(l, define(n, r.store(t)))
				stores[i] = n
			} else {
				x.Lhs[i] = r.plainLHS(t)
			}
		}
		vals := make([]ast.Expr, len(x.Lhs))
		for i := range vals {
			vals[i] = r.name("v")
			if isBlank(x.Lhs[i]) {
				vals[i] = ast.NewIdent("_")
			}
		}
		if len(x.Rhs) == 1 {
			if !commaRecv() {
				r.exprs(x.Rhs)
			}
			l = append(l, &ast.AssignStmt{Lhs: vals, Tok: token.DEFINE, Rhs: x.Rhs})
		} else {
			// typed temporaries are not possible for untyped nil and constants: pass those directly
			for i := range vals {
				tv := r.info.Types[x.Rhs[i]]
				if isBlank(x.Lhs[i]) {
					l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.expr(x.Rhs[i])}})
				} else if tv.IsNil() || tv.Value != nil {
					vals[i] = x.Rhs[i]
				} else {
					l = append(l, define(vals[i].(*ast.Ident), r.expr(x.Rhs[i])))
				}
			}
		}
		for i, t := range x.Lhs {
			if isBlank(t) {
				continue
			}
			if stores[i] != nil {
				l = append(l, &ast.ExprStmt{X: call(stores[i], vals[i])})
			} else {
				l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.ASSIGN, Rhs: []ast.Expr{vals[i]}})
			}
		}
		return wrap(l, simple)
	}
	// op=
	op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
		token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
		token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
	return r.opAssign(x.Lhs[0], op, x.Rhs[0], x, simple)
}

func (r *rewriter) opAssign(t ast.Expr, op token.Token, v ast.Expr, orig ast.Stmt, simple bool) ast.Stmt {
	t = ast.Unparen(t)
	switch r.targetKind(t) {
	case 0:
		switch x := orig.(type) {
		case *ast.AssignStmt:
			x.Lhs[0] = r.plainLHS(x.Lhs[0])
			x.Rhs[0] = r.expr(x.Rhs[0])
		case *ast.IncDecStmt:
			x.X = r.plainLHS(x.X)
		}
		return orig
	case 2:
		x := t.(*ast.IndexExpr)
		si := r.site(x, "rw "+r.what(x))
		c := r.name("c")
		return wrap([]ast.Stmt{
			define(c, call(call(vs("MC"), r.expr(x.X), si), r.expr(x.Index))),
			&ast.ExprStmt{X: call(&ast.SelectorExpr{X: c, Sel: ast.NewIdent("Set")},
				&ast.BinaryExpr{X: call(&ast.SelectorExpr{X: c, Sel: ast.NewIdent("Get")}), Op: op, Y: paren(r.expr(v))})},
		}, simple)
	}
	w := r.what(t)
	si1, si2 := r.site(t, "r "+w), r.site(t, "w "+w)
	p := r.name("p")
	return wrap([]ast.Stmt{
		define(p, addr(r.addrOf(t))),
		&ast.ExprStmt{X: call(call(vs("W"), p, si2), &ast.BinaryExpr{X: star(call(vs("R"), p, si1)), Op: op, Y: paren(r.expr(v))})},
	}, simple)
}

func one() ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: "1"} }

func (r *rewriter) stmt(s ast.Stmt, simple bool) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return s
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Values) == 1 && len(v.Names) == 2 {
					if u, ok := ast.Unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						v.Values[0] = call(vs("Recv2"), r.expr(u.X))
						continue
					}
				}
				r.exprs(v.Values)
			}
		}
		return x
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt, false)
		return x
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		// a call result used as a statement may have become something else
		switch ast.Unparen(x.X).(type) {
		case *ast.CallExpr:
			return x
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{x.X}}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(vs("Send"), r.expr(x.Chan), r.expr(x.Value))}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return r.opAssign(x.X, op, one(), x, simple)
	case *ast.AssignStmt:
		return r.assign(x, simple)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.deferCall(x.Call)
		return x
	case *ast.ReturnStmt:
		r.exprs(x.Results)
		return x
	case *ast.BlockStmt:
		x.List = r.stmts(x.List)
		return x
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init, true)
		x.Cond = r.expr(x.Cond)
		x.Body.List = r.stmts(x.Body.List)
		if x.Else != nil {
			x.Else = r.stmt(x.Else, false)
		}
		return x
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = r.expr(x.List[i])
		}
		x.Body = r.stmts(x.Body)
		return x
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init, true)
		x.Tag = r.expr(x.Tag)
		for i := range x.Body.List {
			x.Body.List[i] = r.stmt(x.Body.List[i], false)
		}
		return x
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init, true)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		for i := range x.Body.List {
			c := x.Body.List[i].(*ast.CaseClause)
			c.Body = r.stmts(c.Body)
		}
		return x
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init, true)
		x.Cond = r.expr(x.Cond)
		x.Post = r.stmt(x.Post, true)
		x.Body = r.body(x.Body, x)
		return x
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	}
	fatal("unsupported statement %T", s)
	return s
}

func (r *rewriter) deferCall(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	if cc, ok := ast.Unparen(e).(*ast.CallExpr); ok {
		return cc
	}
	return call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}}}}})
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	si := r.site(x, "go")
	c := x.Call
	if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(vs("Go"), si, r.expr(lit))}
	}
	// evaluate function and arguments now, run later
	var l []ast.Stmt
	var args []ast.Expr
	isB := r.builtin(c) != ""
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.IsNil() || tv.Value != nil || tv.IsType() || isB {
			args = append(args, a)
			continue
		}
		n := r.name("a")
		ne := r.expr(a)
		l = append(l, define(n, ne))
		args = append(args, n)
		_ = i
	}
	var fun ast.Expr = c.Fun
	if !isB {
		f := r.name("f")
		l = append(l, define(f, r.expr(c.Fun)))
		fun = f
	}
	cc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	l = append(l, &ast.ExprStmt{X: call(vs("Go"), si, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cc}}}})})
	return wrap(l, false)
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.info.TypeOf(x.X).Underlying()
	plain := func() ast.Stmt {
		x.X = r.expr(x.X)
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				x.Key = r.plainLHS(x.Key)
			}
			if x.Value != nil {
				x.Value = r.plainLHS(x.Value)
			}
		}
		x.Body = r.body(x.Body, x)
		return x
	}
	var iter ast.Expr
	w := r.what(x.X)
	val := x.Value != nil && !isBlank(x.Value)
	switch t.(type) {
	case *types.Map:
		si := r.site(x, "range "+w)
		iter = call(vs("MapIter"), r.expr(x.X), si)
	case *types.Slice:
		si := r.site(x, "range "+w+"[]")
		iter = call(vs("SliceIter"), r.expr(x.X), si, ast.NewIdent(fmt.Sprint(val)))
	case *types.Chan:
		// for v := range ch
		v, ok := r.name("v"), r.name("ok")
		ch := r.name("ch")
		var pre []ast.Stmt
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(vs("Recv2"), ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		if x.Key != nil && !isBlank(x.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
			if x.Tok == token.DEFINE {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(x.Key.(*ast.Ident).Name)}})
			}
		}
		xe := r.expr(x.X)
		body := r.body(x.Body, x)
		return &ast.ForStmt{Init: define(ch, xe), Cond: nil, Body: &ast.BlockStmt{List: append(pre, body.List...)}}
	default:
		return plain()
	}
	it := r.name("it")
	key, value := ast.Expr(nil), ast.Expr(nil)
	var pre []ast.Stmt
	if x.Tok == token.DEFINE {
		if x.Key != nil && !isBlank(x.Key) {
			key = ast.NewIdent(x.Key.(*ast.Ident).Name)
		}
		if x.Value != nil && !isBlank(x.Value) {
			value = ast.NewIdent(x.Value.(*ast.Ident).Name)
		}
	}
	if key == nil {
		key = r.name("k")
	}
	if value == nil {
		value = r.name("v")
	}
	if x.Tok == token.ASSIGN {
		as := func(t, v ast.Expr) {
			if t != nil && !isBlank(t) {
				if r.targetKind(t) != 0 {
					pre = append(pre, &ast.ExprStmt{X: call(r.store(t), v)})
				} else {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.plainLHS(t)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
				}
			}
		}
		as(x.Key, key)
		as(x.Value, value)
	}
	body := r.body(x.Body, x)
	body.List = append(pre, body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{key, value, it}, Tok: token.DEFINE, Rhs: []ast.Expr{iter}},
		Cond: call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, addr(ast.NewIdent(key.(*ast.Ident).Name)), addr(ast.NewIdent(value.(*ast.Ident).Name))),
		Body: body,
	}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	res := r.name("sel")
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: res, Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{}}
	def := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		clause := &ast.CaseClause{}
		var head []ast.Stmt
		idx := len(cases)
		recv := func(u *ast.UnaryExpr) ast.Expr {
			ch := r.name("ch")
			pre = append(pre, define(ch, r.expr(u.X)))
			cases = append(cases, call(vs("SelRecv"), ch))
			return ch
		}
		switch s := cc.Comm.(type) {
		case nil:
			def = true
			clause.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: one()}}
		case *ast.SendStmt:
			cases = append(cases, call(vs("SelSend"), r.expr(s.Chan), r.expr(s.Value)))
		case *ast.ExprStmt:
			recv(ast.Unparen(s.X).(*ast.UnaryExpr))
		case *ast.AssignStmt:
			ch := recv(ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr))
			v := call(vs("SelVal"), ch, res)
			rhs := []ast.Expr{v}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: res, Sel: ast.NewIdent("OK")})
			}
			if s.Tok == token.ASSIGN {
				for i := range s.Lhs {
					s.Lhs[i] = r.plainLHS(s.Lhs[i])
				}
			}
			head = append(head, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs})
			if s.Tok == token.DEFINE {
				for _, l := range s.Lhs {
					if !isBlank(l) {
						head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(l.(*ast.Ident).Name)}})
					}
				}
			}
		}
		if clause.List == nil {
			clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		}
		clause.Body = append(head, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, clause)
	}
	args := append([]ast.Expr{ast.NewIdent(fmt.Sprint(def))}, cases...)
	pre = append(pre, define(res, call(vs("Select"), args...)), sw)
	return &ast.BlockStmt{List: pre}
}

// ---------------------------------------------------------------- package variables

// resetVars adds functions to the file that assign the initial values of package variables again.
func (r *rewriter) resetVars(f *ast.File, v *ast.ValueSpec) {
	for _, n := range v.Names {
		if n.Name == "_" {
			continue
		}
		r.vars = append(r.vars, n.Name)
		if len(v.Values) == 0 {
			r.zeros = append(r.zeros, n.Name)
		}
	}
	add := func(lhs []ast.Expr, rhs ast.Expr, obj types.Object) {
		n := r.name("var")
		r.resets[obj] = n.Name
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: n, Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}}})
	}
	if len(v.Values) == len(v.Names) {
		for i, n := range v.Names {
			if n.Name != "_" {
				add([]ast.Expr{ast.NewIdent(n.Name)}, v.Values[i], r.info.Defs[n])
			}
		}
	} else if len(v.Values) == 1 {
		var lhs []ast.Expr
		var obj types.Object
		for _, n := range v.Names {
			lhs = append(lhs, ast.NewIdent(n.Name))
			if n.Name != "_" && obj == nil {
				obj = r.info.Defs[n]
			}
		}
		if obj != nil {
			add(lhs, v.Values[0], obj)
		}
	}
}

// resetCode writes a function that initialises the package again, in the order of the language.
func (r *rewriter) resetCode() string {
	var b strings.Builder
	b.WriteString("func init() {\n")
	for _, n := range r.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("\t_vs.OnReset(func() {\n")
	for _, n := range r.zeros {
		fmt.Fprintf(&b, "\t\t_vs.Zero(&%s)\n", n)
	}
	for _, i := range r.info.InitOrder {
		for _, o := range i.Lhs {
			if n := r.resets[o]; n != "" {
				fmt.Fprintf(&b, "\t\t_vs.Again(%s)\n", n)
			}
		}
	}
	for _, n := range r.inits {
		fmt.Fprintf(&b, "\t\t_vs.Again(%s)\n", n)
	}
	b.WriteString("\t})\n\t_vs.OnVars(func() []any {\n\t\treturn []any{\n")
	for _, n := range r.vars {
		fmt.Fprintf(&b, "\t\t\t&%s,\n", n)
	}
	b.WriteString("\t\t}\n\t})\n}\n")
	return b.String()
}
