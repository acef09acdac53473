// Package rewrite turns a Go source tree into an instrumented copy in which
// every source of nondeterminism is decided by the simulator (vsim/rt).
package rewrite

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Options of a rewrite.
type Options struct {
	Src  string // root of the source module
	Dst  string // directory the instrumented packages are written to
	Tags string
	Race bool     // instrument memory accesses
	Env  []string // environment of go list
}

// Stats describes what was instrumented.
type Stats struct {
	Packages, Files, Points, Gos, Chans, Accesses int
	Module                                        string
	GoVersion                                     string
	PkgVars                                       map[string][]string // package -> variables that are reset before each run
}

var shims = map[string]string{
	"sync":        "vsim/std/sync",
	"sync/atomic": "vsim/std/atomic",
	"context":     "vsim/std/context",
	"time":        "vsim/std/time",
	"net":         "vsim/std/net",
	"crypto/tls":  "vsim/std/tls",
	"math/rand":   "vsim/std/rand",
	"runtime":     "vsim/std/runtime",

	"io":           "vsim/std/io",
	"math/rand/v2": "vsim/std/randv2",
	"crypto/rand":  "vsim/std/crand",
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
	DepOnly    bool
	Imports    []string
}

// ErrSource means that the source tree itself does not load or type-check.
var ErrSource = errors.New("source tree does not load")

// Run performs the rewrite.
func Run(o Options) (*Stats, error) {
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Export,Standard,Module,Error,DepOnly,Imports"}
	if o.Tags != "" {
		args = append(args, "-tags", o.Tags)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = o.Src
	cmd.Env = o.Env
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%w: go list: %v: %s", ErrSource, err, se.String())
	}
	export := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Export != "" {
			export[p.ImportPath] = p.Export
		}
		if !p.Standard {
			if p.Error != nil {
				return nil, fmt.Errorf("%w: %s: %s", ErrSource, p.ImportPath, p.Error.Err)
			}
			if p.Module == nil || len(p.CgoFiles) > 0 {
				return nil, fmt.Errorf("%w: unsupported package %s", ErrSource, p.ImportPath)
			}
			pkgs = append(pkgs, p)
		}
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("%w: no packages", ErrSource)
	}
	st := &Stats{Module: pkgs[len(pkgs)-1].Module.Path, GoVersion: pkgs[len(pkgs)-1].Module.GoVersion, PkgVars: map[string][]string{}}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := export[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		if p.Module.Path != st.Module {
			return nil, fmt.Errorf("%w: package %s of another module", ErrSource, p.ImportPath)
		}
		if err := rewritePkg(fset, imp, p, o, st); err != nil {
			return nil, err
		}
		st.Packages++
	}
	return st, nil
}

// fileVersion is the language version instrumented files are compiled with:
// per-loop loop variables unless the source asks for a newer language.
func fileVersion(v string) string {
	parts := strings.Split(v, ".")
	if len(parts) >= 2 {
		if n, err := strconv.Atoi(parts[1]); err == nil && n >= 22 {
			return "go1." + strconv.Itoa(n)
		}
	}
	return "go1.21"
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *listPkg, o Options, st *Stats) error {
	rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, st.Module), "/")
	dst := filepath.Join(o.Dst, filepath.FromSlash(rel))
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	if p.Name == "main" {
		return nil // commands are not part of the library
	}
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return fmt.Errorf("%w: %v", ErrSource, err)
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go" + st.GoVersion, Sizes: types.SizesFor("gc", "amd64")}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return fmt.Errorf("%w: %v", ErrSource, err)
	}
	r := &rw{fset: fset, info: info, pkg: pkg, st: st, race: o.Race, importPath: p.ImportPath,
		quiet: strings.HasSuffix(p.ImportPath, "/message/sizeof"), codec: strings.HasSuffix(p.ImportPath, "/message")}
	r.findCaptured(files)
	for _, af := range files {
		r.file(af)
	}
	if p.ImportPath == st.Module {
		if err := os.WriteFile(filepath.Join(dst, "zz_vsim.go"), []byte(exportFile(pkg)), 0o644); err != nil {
			return err
		}
	}
	reset := r.resetDecls(files)
	for i, af := range files {
		var b bytes.Buffer
		fmt.Fprintf(&b, "//go:build %s\n\n", fileVersion(st.GoVersion))
		cfg := printer.Config{Mode: printer.UseSpaces, Tabwidth: 8}
		if err := cfg.Fprint(&b, fset, af); err != nil {
			return fmt.Errorf("printing %s: %v", p.GoFiles[i], err)
		}
		for _, d := range reset[i] {
			b.WriteString("\n")
			if err := cfg.Fprint(&b, token.NewFileSet(), d); err != nil {
				return fmt.Errorf("printing reset: %v", err)
			}
			b.WriteString("\n")
		}
		if err := os.WriteFile(filepath.Join(dst, p.GoFiles[i]), b.Bytes(), 0o644); err != nil {
			return err
		}
		st.Files++
	}
	return nil
}

type rw struct {
	fset       *token.FileSet
	info       *types.Info
	pkg        *types.Package
	st         *Stats
	race       bool
	late       *ast.CallExpr // call of a defer statement: it happens later
	importPath string
	quiet      bool // no scheduling points
	codec      bool
	captured   map[types.Object]bool
	tmp        int
	fn         string
	noY        bool
	usedRT     bool
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func sel(x ast.Expr, n string) ast.Expr { return &ast.SelectorExpr{X: x, Sel: id(n)} }

const rtName = "rt_vsim"

func (r *rw) rt(n string) ast.Expr {
	r.usedRT = true
	return sel(id(rtName), n)
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func (r *rw) y() ast.Stmt {
	r.st.Points++
	return &ast.ExprStmt{X: call(r.rt("Y"))}
}

func (r *rw) fresh(p string) string {
	r.tmp++
	return fmt.Sprintf("%s_vs%d", p, r.tmp)
}

func (r *rw) at(n ast.Node) ast.Expr {
	if !r.race {
		return nil
	}
	return r.loc(n)
}

func (r *rw) loc(n ast.Node) ast.Expr {
	pos := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))}
}

// findCaptured finds the local variables that are shared with a function
// literal other than the function that declares them.
func (r *rw) findCaptured(files []*ast.File) {
	r.captured = map[types.Object]bool{}
	owner := map[types.Object]ast.Node{}
	var stack []ast.Node
	var walk func(n ast.Node)
	visit := func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			stack = append(stack, x)
			walk(x.Type)
			walk(x.Body)
			stack = stack[:len(stack)-1]
			return false
		case *ast.FuncDecl:
			stack = append(stack, x)
			if x.Recv != nil {
				walk(x.Recv)
			}
			walk(x.Type)
			if x.Body != nil {
				walk(x.Body)
			}
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			if o := r.info.Defs[x]; o != nil && len(stack) > 0 {
				owner[o] = stack[len(stack)-1]
			}
			if o := r.info.Uses[x]; o != nil {
				if v, ok := o.(*types.Var); ok && !v.IsField() && len(stack) > 0 {
					if ow, ok := owner[o]; ok && ow != stack[len(stack)-1] {
						r.captured[o] = true
					}
				}
			}
		}
		return true
	}
	walk = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, visit)
	}
	for _, f := range files {
		walk(f)
	}
}

func (r *rw) file(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	r.usedRT = false
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			r.genDecl(d)
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Recv != nil {
				r.fields(d.Recv)
			}
			r.fields(d.Type.TypeParams)
			r.fields(d.Type.Params)
			r.fields(d.Type.Results)
			if d.Body != nil {
				r.fn = d.Name.Name
				r.noY = r.quiet || r.codec && d.Recv != nil && (d.Name.Name == "Size" || d.Name.Name == "Decode" || d.Name.Name == "Encode") && strings.HasPrefix(filepath.Base(r.fset.Position(d.Pos()).Filename), "messages")
				r.block(d.Body)
				if r.noY && !r.quiet {
					d.Body.List = append([]ast.Stmt{r.y()}, d.Body.List...)
				}
			}
		}
	}
	specs := []ast.Spec{}
	for _, im := range f.Imports {
		im.Doc, im.Comment = nil, nil
		path, _ := strconv.Unquote(im.Path.Value)
		if s, ok := shims[path]; ok {
			im.Path.Value = strconv.Quote(s)
		}
		im.EndPos = token.NoPos
	}
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			for _, s := range g.Specs {
				specs = append(specs, s)
			}
			continue
		}
		decls = append(decls, d)
	}
	specs = append(specs, &ast.ImportSpec{Name: id(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vsim/rt"`}})
	var nd []ast.Decl
	for _, s := range specs {
		nd = append(nd, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	f.Decls = append(nd, decls...)
	// keep the import used
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{sel(id(rtName), "Y")}}}})
}

func (r *rw) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			s.Type = r.typ(s.Type)
			for i := range s.Values {
				s.Values[i] = r.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			r.fields(s.TypeParams)
			s.Type = r.typ(s.Type)
		}
	}
}

func (r *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.typ(f.Type)
	}
}

// typ rewrites a type expression: channel types become *rt.Chan[T].
func (r *rw) typ(e ast.Expr) ast.Expr {
	switch t := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		r.st.Chans++
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.rt("Chan"), Index: r.typ(t.Value)}}
	case *ast.ParenExpr:
		t.X = r.typ(t.X)
	case *ast.StarExpr:
		t.X = r.typ(t.X)
	case *ast.ArrayType:
		if t.Len != nil {
			t.Len = r.expr(t.Len)
		}
		t.Elt = r.typ(t.Elt)
	case *ast.MapType:
		t.Key, t.Value = r.typ(t.Key), r.typ(t.Value)
	case *ast.StructType:
		r.fields(t.Fields)
	case *ast.InterfaceType:
		r.fields(t.Methods)
	case *ast.FuncType:
		r.fields(t.TypeParams)
		r.fields(t.Params)
		r.fields(t.Results)
	case *ast.Ellipsis:
		t.Elt = r.typ(t.Elt)
	case *ast.IndexExpr:
		t.X, t.Index = r.typ(t.X), r.typ(t.Index)
	case *ast.IndexListExpr:
		t.X = r.typ(t.X)
		for i := range t.Indices {
			t.Indices[i] = r.typ(t.Indices[i])
		}
	case *ast.BinaryExpr: // constraint unions
		t.X, t.Y = r.typ(t.X), r.typ(t.Y)
	case *ast.UnaryExpr:
		t.X = r.typ(t.X)
	}
	return e
}

func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

func (r *rw) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		if i, ok := e.(*ast.Ident); ok {
			if o := r.info.ObjectOf(i); o != nil && o.Type() != nil {
				return o.Type().Underlying()
			}
		}
		return types.Typ[types.Invalid]
	}
	return tv.Type.Underlying()
}

func (r *rw) isChan(e ast.Expr) bool {
	_, ok := r.under(e).(*types.Chan)
	return ok
}

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := r.under(e).(*types.Map)
	return ok
}

func (r *rw) builtin(e ast.Expr) string {
	i, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[i].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// expr rewrites an expression in value position.
func (r *rw) expr(e ast.Expr) ast.Expr { return r.ex(e, false) }

// addr rewrites an expression whose address is taken or that is assigned to.
func (r *rw) addr(e ast.Expr) ast.Expr { return r.ex(e, true) }

func (r *rw) ex(e ast.Expr, addr bool) ast.Expr {
	if e == nil {
		return nil
	}
	if r.isType(e) {
		return r.typ(e)
	}
	switch x := e.(type) {
	case *ast.Ident:
		if r.race && !addr && r.sharedVar(x) {
			return r.rd(x, r.at(e))
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = r.ex(x.X, addr)
		return x
	case *ast.FuncLit:
		r.fields(x.Type.Params)
		r.fields(x.Type.Results)
		r.block(x.Body)
		return x
	case *ast.CompositeLit:
		x.Type = r.typ(x.Type)
		_, isStruct := r.under(x).(*types.Struct)
		if p, ok := r.under(x).(*types.Pointer); ok {
			_, isStruct = p.Elem().Underlying().(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.SelectorExpr:
		return r.selector(x, addr)
	case *ast.IndexExpr:
		if r.isGenericInst(x) {
			x.Index = r.typ(x.Index)
			return x
		}
		return r.index(x, addr)
	case *ast.IndexListExpr:
		for i := range x.Indices {
			x.Indices[i] = r.typ(x.Indices[i])
		}
		return x
	case *ast.SliceExpr:
		if _, isArr := r.under(x.X).(*types.Array); isArr {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.StarExpr:
		at := r.at(e)
		x.X = r.expr(x.X)
		if r.race && !addr {
			r.st.Accesses++
			return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.rt("Rd"), x.X, at)}}
		}
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.typ(x.Type)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return call(r.rt("Recv"), r.expr(x.X))
		case token.AND:
			x.X = r.addr(x.X)
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	case *ast.CallExpr:
		return r.call(x)
	}
	return e
}

func (r *rw) isGenericInst(x *ast.IndexExpr) bool {
	tv, ok := r.info.Types[x.X]
	if ok {
		if s, ok := tv.Type.(*types.Signature); ok && s.TypeParams().Len() > 0 {
			return true
		}
	}
	return false
}

func (r *rw) sharedVar(x *ast.Ident) bool {
	o := r.info.Uses[x]
	v, ok := o.(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if v.Pkg() == nil {
		return false
	}
	if v.Parent() == v.Pkg().Scope() {
		return v.Pkg() == r.pkg
	}
	return r.captured[o]
}

func (r *rw) rd(x, at ast.Expr) ast.Expr {
	if t := r.info.TypeOf(x); t != nil && isSyncType(t) {
		return x
	}
	r.st.Accesses++
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.rt("Rd"), &ast.UnaryExpr{Op: token.AND, X: x}, at)}}
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync")
}

// localBase tells whether an addressable expression is rooted in a local
// variable that no other goroutine can reach.
func (r *rw) localBase(e ast.Expr) bool {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if s := r.info.Selections[x]; s == nil || s.Indirect() || isPtr(r.under(x.X)) {
				return false
			}
			e = x.X
		case *ast.IndexExpr:
			if _, ok := r.under(x.X).(*types.Array); !ok {
				return false
			}
			e = x.X
		case *ast.Ident:
			o := r.info.ObjectOf(x)
			v, ok := o.(*types.Var)
			if !ok {
				return false
			}
			return !r.captured[o] && !(v.Pkg() != nil && v.Parent() == v.Pkg().Scope())
		default:
			return false
		}
	}
}

func isPtr(t types.Type) bool { _, ok := t.(*types.Pointer); return ok }

func (r *rw) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

func (r *rw) selector(x *ast.SelectorExpr, addr bool) ast.Expr {
	s := r.info.Selections[x]
	if s == nil { // qualified identifier
		return x
	}
	switch s.Kind() {
	case types.FieldVal:
		wasAddr := r.addressable(x)
		local := r.race && r.localBase(x)
		at := r.at(x)
		if isPtr(r.under(x.X)) {
			x.X = r.expr(x.X)
		} else if wasAddr || addr {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		if r.race && !addr && wasAddr && !local {
			return r.rd(x, at)
		}
		return x
	case types.MethodVal:
		recvPtr := false
		if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
			recvPtr = isPtr(sig.Recv().Type().Underlying())
		}
		if isPtr(r.under(x.X)) || !recvPtr || !r.addressable(x.X) {
			x.X = r.expr(x.X)
		} else {
			x.X = r.addr(x.X)
		}
		return x
	}
	return x
}

func (r *rw) index(x *ast.IndexExpr, addr bool) ast.Expr {
	base := r.under(x.X)
	at := r.at(x)
	switch base.(type) {
	case *types.Map:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		if r.race && !addr {
			r.st.Accesses++
			x.X = call(r.rt("MapRd"), x.X, at)
		}
		return x
	case *types.Array:
		wasAddr := r.addressable(x)
		local := r.race && r.localBase(x)
		x.X = r.ex(x.X, wasAddr || addr)
		x.Index = r.expr(x.Index)
		if r.race && !addr && wasAddr && !local {
			return r.rd(x, at)
		}
		return x
	case *types.Basic: // string
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
		return x
	}
	x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	if r.race && !addr {
		return r.rd(x, at)
	}
	return x
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	// conversion
	if r.isType(x.Fun) {
		fun := r.typ(x.Fun)
		if _, ok := fun.(*ast.StarExpr); ok {
			fun = &ast.ParenExpr{X: fun}
		}
		if _, ok := fun.(*ast.FuncType); ok {
			fun = &ast.ParenExpr{X: fun}
		}
		arg := x.Args[0]
		if r.race && r.isByteSlice(arg) && r.isString(x) {
			a := r.expr(arg)
			x.Fun = fun
			x.Args[0] = call(r.rt("RdAll"), a, r.loc(x))
			return x
		}
		x.Fun = fun
		x.Args[0] = r.expr(arg)
		return x
	}
	switch r.builtin(x.Fun) {
	case "make":
		t := x.Args[0]
		switch u := r.under(t).(type) {
		case *types.Chan:
			size := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
			if len(x.Args) > 1 {
				size = r.toInt(x.Args[1])
			}
			el := r.chanElem(t, u)
			return call(&ast.IndexExpr{X: r.rt("NewChan"), Index: el}, size)
		case *types.Slice:
			constant := true
			for _, a := range x.Args[1:] {
				if r.info.Types[a].Value == nil {
					constant = false
				}
			}
			x.Args[0] = r.typ(t)
			if !constant {
				args := []ast.Expr{}
				for _, a := range x.Args[1:] {
					args = append(args, r.toInt(a))
				}
				if len(args) == 1 {
					return call(&ast.IndexExpr{X: r.rt("MakeS1"), Index: x.Args[0]}, args...)
				}
				return call(&ast.IndexExpr{X: r.rt("MakeS2"), Index: x.Args[0]}, args...)
			}
			for i := 1; i < len(x.Args); i++ {
				x.Args[i] = r.expr(x.Args[i])
			}
			return x
		}
		x.Args[0] = r.typ(t)
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = r.expr(x.Args[i])
		}
		return x
	case "new":
		x.Args[0] = r.ex(x.Args[0], false)
		return x
	case "close":
		return call(r.rt("Close"), r.expr(x.Args[0]))
	case "len", "cap":
		if r.isChan(x.Args[0]) {
			n := "Len"
			if r.builtin(x.Fun) == "cap" {
				n = "Cap"
			}
			return call(r.rt(n), r.expr(x.Args[0]))
		}
		if r.isMap(x.Args[0]) && r.race {
			x.Args[0] = call(r.rt("MapRd"), r.expr(x.Args[0]), r.loc(x))
			return x
		}
		if _, ok := r.under(x.Args[0]).(*types.Array); ok {
			x.Args[0] = r.addr(x.Args[0])
			return x
		}
		x.Args[0] = r.expr(x.Args[0])
		return x
	case "delete":
		m := r.expr(x.Args[0])
		if r.race {
			m = call(r.rt("MapWr"), m, r.loc(x))
		}
		x.Args[0] = m
		x.Args[1] = r.expr(x.Args[1])
		return x
	case "copy":
		d, s := r.expr(x.Args[0]), r.expr(x.Args[1])
		if r.race {
			if r.isString(x.Args[1]) {
				return call(r.rt("CopyStr"), d, s, r.loc(x))
			}
			return call(r.rt("Copy"), d, s, r.loc(x))
		}
		x.Args[0], x.Args[1] = d, s
		return x
	case "append":
		r.exprs(x.Args)
		if r.race && x.Ellipsis.IsValid() {
			if _, ok := r.under(x.Args[len(x.Args)-1]).(*types.Slice); ok {
				x.Args[len(x.Args)-1] = call(r.rt("RdAll"), x.Args[len(x.Args)-1], r.loc(x))
			}
		}
		return x
	case "":
	default:
		r.exprs(x.Args)
		return x
	}
	// reads and writes of encoding/binary
	if r.race {
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if f, ok := r.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "encoding/binary" && len(x.Args) > 0 && r.isByteSlice(x.Args[0]) {
				w := map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8, "PutVarint": 1, "PutUvarint": 1, "Varint": 1, "Uvarint": 1}
				if n := w[f.Name()]; n > 0 {
					h := "RdN"
					if strings.HasPrefix(f.Name(), "Put") {
						h = "WrN"
					}
					x.Fun = r.expr(x.Fun)
					r.exprs(x.Args)
					x.Args[0] = call(r.rt(h), x.Args[0], &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}, r.loc(x))
					return x
				}
			}
		}
	}
	objs := r.objects(x)
	if lit, ok := x.Fun.(*ast.FuncLit); ok {
		x.Fun = r.expr(lit)
	} else {
		x.Fun = r.expr(x.Fun)
	}
	r.exprs(x.Args)
	for _, f := range objs {
		f()
	}
	return x
}

// objects returns what is to be done, once the parts of the call are rewritten,
// to note the access to objects of the standard library (a bufio.Writer, say)
// that the call is about: their code is not instrumented.
func (r *rw) objects(x *ast.CallExpr) []func() {
	if !r.race || x == r.late {
		return nil
	}
	for _, a := range x.Args {
		if r.calls(a) {
			return nil // the access follows what the arguments do
		}
	}
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	loc := r.loc(x)
	if s := r.info.Selections[sel]; s != nil {
		if s.Kind() != types.MethodVal || len(s.Index()) != 1 {
			return nil
		}
		t := r.info.TypeOf(sel.X)
		mode := "ObjW"
		switch sel.Sel.Name {
		case "Len", "Cap", "Size", "Buffered", "Available", "String", "Bytes":
			mode = "ObjR"
		}
		switch {
		case types.IsInterface(t):
			if _, ok := t.(*types.TypeParam); ok {
				return nil
			}
		case objectType(t):
		case objectType(types.NewPointer(t)) && r.addressable(sel.X):
			return []func(){func() { sel.X = call(r.rt(mode), &ast.UnaryExpr{Op: token.AND, X: sel.X}, loc) }}
		default:
			return nil
		}
		return []func(){func() { sel.X = call(r.rt(mode), sel.X, loc) }}
	}
	f, ok := r.info.Uses[sel.Sel].(*types.Func)
	if !ok || f.Pkg() == nil {
		return nil
	}
	switch f.Pkg().Path() {
	case "io":
	case "fmt":
		if !strings.HasPrefix(f.Name(), "Fprint") && !strings.HasPrefix(f.Name(), "Fscan") {
			return nil
		}
	case "encoding/binary":
		if f.Name() != "Write" && f.Name() != "Read" {
			return nil
		}
	default:
		return nil
	}
	var out []func()
	for i, a := range x.Args {
		t := r.info.TypeOf(a)
		if t == nil || !types.IsInterface(t) && !objectType(t) {
			continue
		}
		if tv := r.info.Types[a]; tv.IsNil() {
			continue
		}
		i := i
		out = append(out, func() { x.Args[i] = call(r.rt("ObjW"), x.Args[i], loc) })
	}
	return out
}

// objectType tells whether t is a pointer to a type of the standard library
// whose methods change it and do not synchronise.
func objectType(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return objectTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

var objectTypes = map[string]bool{
	"bufio.Writer": true, "bufio.Reader": true, "bufio.ReadWriter": true, "bufio.Scanner": true,
	"bytes.Buffer": true, "bytes.Reader": true, "strings.Builder": true, "strings.Reader": true,
	"container/list.List": true,
}

// calls tells whether evaluating e runs a function or waits for a channel.
func (r *rw) calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if !r.isType(x.Fun) && r.builtin(x.Fun) == "" {
				found = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rw) isByteSlice(e ast.Expr) bool {
	s, ok := r.under(e).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (r *rw) isString(e ast.Expr) bool {
	b, ok := r.under(e).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (r *rw) toInt(e ast.Expr) ast.Expr {
	tv := r.info.Types[e]
	ne := r.expr(e)
	if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
		if _, named := tv.Type.(*types.Named); !named && tv.Value == nil {
			return ne
		}
	}
	return call(id("int"), ne)
}

// chanElem produces the type expression of a channel's element.
func (r *rw) chanElem(t ast.Expr, u *types.Chan) ast.Expr {
	if c, ok := ast.Unparen(t).(*ast.ChanType); ok {
		return r.typ(c.Value)
	}
	return r.typeExpr(u.Elem())
}

// typeExpr prints a type as source of the current package.
func (r *rw) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		return id("any")
	}
	return r.typ(e)
}

// ---- statements ----

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if !r.noY {
			if r.touches(s) {
				out = append(out, r.y())
			}
		}
		out = append(out, r.stmt(s, nil)...)
	}
	return out
}

// touches tells whether a statement does anything another goroutine could
// notice, so that a scheduling point belongs before it.
func (r *rw) touches(s ast.Stmt) bool {
	var exprs []ast.Expr
	switch x := s.(type) {
	case *ast.EmptyStmt, *ast.BranchStmt:
		return false
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, s := range g.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					exprs = append(exprs, v.Values...)
				}
			}
		}
	case *ast.AssignStmt:
		exprs = append(append(exprs, x.Lhs...), x.Rhs...)
	case *ast.IncDecStmt:
		exprs = []ast.Expr{x.X}
	case *ast.ReturnStmt:
		exprs = x.Results
	default:
		return true
	}
	found := false
	for _, e := range exprs {
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if !r.isType(x.Fun) && r.builtin(x.Fun) == "" {
					found = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					found = true
				}
			case ast.Expr:
				if _, ok := x.(*ast.Ident); ok || !r.isType(x) {
					if r.sharedLoc(x) {
						found = true
					}
				}
			}
			return !found
		})
	}
	return found
}

// simple rewrites a statement in a position where no statement can be added.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		r.assignInPlace(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.IncDecStmt:
		x.X = r.addr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.rt("SendTo"), r.expr(x.Chan)), r.expr(x.Value))}
	}
	return s
}

func (r *rw) assignInPlace(x *ast.AssignStmt) {
	// v, ok := <-ch
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			x.Rhs[0] = call(r.rt("Recv2"), r.expr(u.X))
			r.lhs(x)
			return
		}
	}
	r.exprs(x.Rhs)
	r.lhs(x)
}

func (r *rw) lhs(x *ast.AssignStmt) {
	for i := range x.Lhs {
		x.Lhs[i] = r.addr(x.Lhs[i])
	}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

// pure tells whether evaluating e again has no effect.
func (r *rw) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if r.builtin(x.Fun) != "len" && !r.isType(x.Fun) {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// sharedLoc tells whether e denotes memory another goroutine may reach.
func (r *rw) sharedLoc(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		return r.sharedVar(x)
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			_, ok := r.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		return s.Kind() == types.FieldVal && !r.localBase(x)
	case *ast.IndexExpr:
		return !r.localBase(x)
	case *ast.StarExpr:
		return true
	}
	return false
}

// readsShared tells whether e contains a plain read of shared memory.
func (r *rw) readsShared(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if found {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr:
			if r.sharedLoc(x) {
				found = true
			}
		case *ast.IndexExpr:
			if r.sharedLoc(x) {
				found = true
			}
		case *ast.StarExpr:
			if !r.isType(x) {
				found = true
			}
		case *ast.Ident:
			if r.sharedVar(x) {
				found = true
			}
		}
		return !found
	})
	return found
}

// writeNotes returns the statements that record the writes of an assignment.
func (r *rw) writeNotes(lhs []ast.Expr) []ast.Stmt {
	if !r.race {
		return nil
	}
	assigned := map[types.Object]bool{}
	for _, l := range lhs {
		if i, ok := ast.Unparen(l).(*ast.Ident); ok {
			if o := r.info.ObjectOf(i); o != nil {
				assigned[o] = true
			}
		}
	}
	var out []ast.Stmt
	for _, l := range lhs {
		if isBlank(l) || !r.sharedLoc(l) || !r.pure(l) {
			continue
		}
		if t := r.info.TypeOf(l); t != nil && isSyncType(t) {
			continue
		}
		if s, ok := ast.Unparen(l).(*ast.SelectorExpr); ok && r.info.Selections[s] == nil {
			continue // variable of another package
		}
		if _, ok := ast.Unparen(l).(*ast.Ident); !ok {
			clash := false
			ast.Inspect(l, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok {
					if o := r.info.Uses[i]; o != nil && assigned[o] {
						clash = true
					}
				}
				return true
			})
			if clash {
				continue
			}
		}
		r.st.Accesses++
		if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok && r.isMap(ix.X) {
			out = append(out, &ast.ExprStmt{X: call(r.rt("MapWr"), clone(ix.X), r.loc(l))})
			continue
		}
		out = append(out, &ast.ExprStmt{X: call(r.rt("Wr"), &ast.UnaryExpr{Op: token.AND, X: clone(l)}, r.loc(l))})
	}
	return out
}

// clone copies an expression tree (before it is rewritten).
func clone(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return &ast.Ident{Name: x.Name, NamePos: x.NamePos}
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: x.Kind, Value: x.Value}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clone(x.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(x.X), Sel: id(x.Sel.Name)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: clone(x.X), Index: clone(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: clone(x.X), Star: x.Star}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: clone(x.X), Op: x.Op, Y: clone(x.Y)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: x.Op, X: clone(x.X)}
	case *ast.SliceExpr:
		c := &ast.SliceExpr{X: clone(x.X), Slice3: x.Slice3}
		if x.Low != nil {
			c.Low = clone(x.Low)
		}
		if x.High != nil {
			c.High = clone(x.High)
		}
		if x.Max != nil {
			c.Max = clone(x.Max)
		}
		return c
	case *ast.CallExpr:
		c := &ast.CallExpr{Fun: clone(x.Fun)}
		for _, a := range x.Args {
			c.Args = append(c.Args, clone(a))
		}
		return c
	case *ast.ArrayType:
		return x
	}
	return e
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (r *rw) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	one := func(x ast.Stmt) []ast.Stmt {
		if label != nil {
			return []ast.Stmt{&ast.LabeledStmt{Label: label, Stmt: x}}
		}
		return []ast.Stmt{x}
	}
	switch x := s.(type) {
	case *ast.LabeledStmt:
		return r.stmt(x.Stmt, x.Label)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
		return one(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return one(x)
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: call(call(r.rt("SendTo"), r.expr(x.Chan)), r.expr(x.Value))})
	case *ast.IncDecStmt:
		notes := r.writeNotes([]ast.Expr{x.X})
		if !r.noY && r.sharedLoc(x.X) && r.pure(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			t := r.fresh("t")
			rd := r.expr(clone2(r, x.X))
			out := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{rd}},
				r.y(),
				&ast.AssignStmt{Lhs: []ast.Expr{r.addr(x.X)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
			}
			out = append(out, notes...)
			return one(&ast.BlockStmt{List: out})
		}
		x.X = r.addr(x.X)
		return append(one(x), notes...)
	case *ast.AssignStmt:
		return r.assign(x, one)
	case *ast.GoStmt:
		return one(r.goStmt(x))
	case *ast.DeferStmt:
		r.late = x.Call
		c, ok := r.expr(x.Call).(*ast.CallExpr)
		if !ok {
			c = call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})
		}
		x.Call = c
		return one(x)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
		return one(x)
	case *ast.BranchStmt, *ast.EmptyStmt:
		return one(x)
	case *ast.BlockStmt:
		r.block(x)
		return one(x)
	case *ast.IfStmt:
		r.ifStmt(x)
		return one(x)
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.block(x.Body)
		r.bodyPoint(x.Body)
		return one(x)
	case *ast.RangeStmt:
		return r.rangeStmt(x, one)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		return one(x)
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			r.exprs(a.Rhs)
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.typ(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
		return one(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, label)
	}
	return one(s)
}

// clone2 clones an expression so that type information is found for the copy.
func clone2(r *rw, e ast.Expr) ast.Expr {
	c := clone(e)
	var pair func(a, b ast.Expr)
	pair = func(a, b ast.Expr) {
		if tv, ok := r.info.Types[a]; ok {
			r.info.Types[b] = tv
		}
		switch x := a.(type) {
		case *ast.Ident:
			if o, ok := r.info.Uses[x]; ok {
				r.info.Uses[b.(*ast.Ident)] = o
			}
			if o, ok := r.info.Defs[x]; ok && o != nil {
				r.info.Uses[b.(*ast.Ident)] = o
			}
		case *ast.ParenExpr:
			pair(x.X, b.(*ast.ParenExpr).X)
		case *ast.SelectorExpr:
			y := b.(*ast.SelectorExpr)
			if s, ok := r.info.Selections[x]; ok {
				r.info.Selections[y] = s
			}
			if o, ok := r.info.Uses[x.Sel]; ok {
				r.info.Uses[y.Sel] = o
			}
			pair(x.X, y.X)
		case *ast.IndexExpr:
			y := b.(*ast.IndexExpr)
			pair(x.X, y.X)
			pair(x.Index, y.Index)
		case *ast.StarExpr:
			pair(x.X, b.(*ast.StarExpr).X)
		case *ast.BinaryExpr:
			y := b.(*ast.BinaryExpr)
			pair(x.X, y.X)
			pair(x.Y, y.Y)
		case *ast.UnaryExpr:
			pair(x.X, b.(*ast.UnaryExpr).X)
		case *ast.SliceExpr:
			y := b.(*ast.SliceExpr)
			pair(x.X, y.X)
			if x.Low != nil {
				pair(x.Low, y.Low)
			}
			if x.High != nil {
				pair(x.High, y.High)
			}
			if x.Max != nil {
				pair(x.Max, y.Max)
			}
		case *ast.CallExpr:
			y := b.(*ast.CallExpr)
			pair(x.Fun, y.Fun)
			for i := range x.Args {
				pair(x.Args[i], y.Args[i])
			}
		}
	}
	pair(e, c)
	return c
}

func (r *rw) assign(x *ast.AssignStmt, one func(ast.Stmt) []ast.Stmt) []ast.Stmt {
	notes := r.writeNotes(x.Lhs)
	if x.Tok == token.DEFINE {
		// only variables that exist already are written
		var old []ast.Expr
		for _, l := range x.Lhs {
			if i, ok := l.(*ast.Ident); ok && r.info.Uses[i] != nil {
				old = append(old, l)
			}
		}
		notes = r.writeNotes(old)
	}
	if op, ok := opOf[x.Tok]; ok {
		l := x.Lhs[0]
		if !r.noY && r.sharedLoc(l) && r.pure(l) {
			t := r.fresh("t")
			rd := r.expr(clone2(r, l))
			rhs := r.expr(x.Rhs[0])
			out := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{rd}},
				r.y(),
				&ast.AssignStmt{Lhs: []ast.Expr{r.addr(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: op, Y: &ast.ParenExpr{X: rhs}}}},
			}
			out = append(out, notes...)
			return one(&ast.BlockStmt{List: out})
		}
		x.Rhs[0] = r.expr(x.Rhs[0])
		x.Lhs[0] = r.addr(l)
		return append(one(x), notes...)
	}
	// lhs = f(shared): a scheduling point between computing and storing
	if !r.noY && x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.sharedLoc(x.Lhs[0]) && r.pure(x.Lhs[0]) &&
		r.info.Types[x.Rhs[0]].Value == nil && r.readsShared(x.Rhs[0]) && types.Identical(r.info.TypeOf(x.Lhs[0]), r.info.TypeOf(x.Rhs[0])) {
		if b, ok := r.info.TypeOf(x.Rhs[0]).(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
			t := r.fresh("t")
			out := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.Rhs[0])}},
				r.y(),
				&ast.AssignStmt{Lhs: []ast.Expr{r.addr(x.Lhs[0])}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
			}
			out = append(out, notes...)
			return one(&ast.BlockStmt{List: out})
		}
	}
	r.assignInPlace(x)
	return append(one(x), notes...)
}

// bodyPoint makes sure that every iteration of a loop passes a scheduling point.
func (r *rw) bodyPoint(b *ast.BlockStmt) {
	if r.noY {
		return
	}
	if len(b.List) > 0 {
		if e, ok := b.List[0].(*ast.ExprStmt); ok {
			if c, ok := e.X.(*ast.CallExpr); ok {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Y" {
					return
				}
			}
		}
	}
	b.List = append([]ast.Stmt{r.y()}, b.List...)
}

func (r *rw) ifStmt(x *ast.IfStmt) {
	x.Init = r.simple(x.Init)
	x.Cond = r.expr(x.Cond)
	r.block(x.Body)
	switch e := x.Else.(type) {
	case *ast.IfStmt:
		r.ifStmt(e)
	case *ast.BlockStmt:
		r.block(e)
	}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	r.st.Gos++
	c := x.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(r.rt("Go"), r.expr(lit))}
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin() {
			return r.expr(e)
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return r.expr(e)
		}
		n := r.fresh("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		nid := id(n)
		r.info.Types[nid] = tv
		return nid
	}
	isB := r.builtin(c.Fun) != ""
	if !isB {
		c.Fun = hoistFun(r, c.Fun, hoist)
	}
	for i, a := range c.Args {
		c.Args[i] = hoist(a)
	}
	var body ast.Expr = c
	if isB {
		body = r.call(c)
	}
	pre = append(pre, &ast.ExprStmt{X: call(r.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})})
	return &ast.BlockStmt{List: pre}
}

func hoistFun(r *rw, f ast.Expr, hoist func(ast.Expr) ast.Expr) ast.Expr {
	switch x := ast.Unparen(f).(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[x].(*types.Func); ok {
			return x
		}
	case *ast.SelectorExpr:
		if r.info.Selections[x] == nil {
			return x
		}
	}
	return hoist(f)
}

func (r *rw) rangeStmt(x *ast.RangeStmt, one func(ast.Stmt) []ast.Stmt) []ast.Stmt {
	bodyY := func() { r.bodyPoint(x.Body) }
	setVars := func(pairs [][2]ast.Expr) ast.Stmt {
		var l, rr []ast.Expr
		for _, p := range pairs {
			if p[0] == nil || isBlank(p[0]) {
				continue
			}
			l = append(l, p[0])
			rr = append(rr, p[1])
		}
		if len(l) == 0 {
			return nil
		}
		if x.Tok == token.ASSIGN {
			for i := range l {
				l[i] = r.addr(l[i])
			}
		}
		return &ast.AssignStmt{Lhs: l, Tok: x.Tok, Rhs: rr}
	}
	switch r.under(x.X).(type) {
	case *types.Map:
		m, k, v, ok := r.fresh("m"), r.fresh("k"), r.fresh("v"), r.fresh("ok")
		src := r.expr(x.X)
		if r.race {
			src = call(r.rt("MapRd"), src, r.loc(x))
		}
		set := setVars([][2]ast.Expr{{x.Key, id(k)}, {x.Value, id(v)}})
		r.block(x.Body)
		bodyY()
		list := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: id(k)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}},
		}
		if set != nil {
			list = append(list, set)
		}
		list = append(list, x.Body.List...)
		loop := &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: call(r.rt("MapKeys"), id(m)), Body: &ast.BlockStmt{List: list}}
		out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{src}}}
		out = append(out, one(loop)...)
		return []ast.Stmt{&ast.BlockStmt{List: out}}
	case *types.Chan:
		c, v, ok := r.fresh("c"), r.fresh("v"), r.fresh("ok")
		src := r.expr(x.X)
		set := setVars([][2]ast.Expr{{x.Key, id(v)}})
		r.block(x.Body)
		bodyY()
		list := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("Recv2"), id(c))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}},
		}
		if set != nil {
			list = append(list, set)
		}
		list = append(list, x.Body.List...)
		loop := &ast.ForStmt{Body: &ast.BlockStmt{List: list}}
		out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{src}}}
		out = append(out, one(loop)...)
		return []ast.Stmt{&ast.BlockStmt{List: out}}
	}
	if _, isArr := r.under(x.X).(*types.Array); isArr && r.addressable(x.X) {
		x.X = r.addr(x.X)
	} else {
		x.X = r.expr(x.X)
	}
	if x.Tok == token.ASSIGN {
		x.Key, x.Value = r.addr(x.Key), r.addr(x.Value)
	}
	r.block(x.Body)
	bodyY()
	return one(x)
}

func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	if len(x.Body.List) == 0 {
		b := &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(r.rt("Select"), id("false"))},
			&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}}
		return []ast.Stmt{b}
	}
	var pre []ast.Stmt
	args := []ast.Expr{id("false")}
	var clauses []ast.Stmt
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			args[0] = id("true")
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: r.stmts(cc.Body)})
			continue
		}
		name := r.fresh("s")
		var head []ast.Stmt
		var make ast.Expr
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			make = call(call(r.rt("CaseSend"), r.expr(s.Chan)), r.expr(s.Value))
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			make = call(r.rt("CaseRecv"), r.expr(u.X))
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			make = call(r.rt("CaseRecv"), r.expr(u.X))
			rhs := []ast.Expr{sel(id(name), "Val")}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, sel(id(name), "Ok"))
			}
			notes := r.writeNotes(s.Lhs)
			if s.Tok == token.DEFINE {
				notes = nil
			}
			for i := range s.Lhs {
				s.Lhs[i] = r.addr(s.Lhs[i])
			}
			if s.Tok == token.DEFINE && allBlank(s.Lhs) {
				s.Tok = token.ASSIGN
			}
			head = append(head, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs})
			head = append(head, notes...)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{make}})
		args = append(args, id(name))
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(head, r.stmts(cc.Body)...)})
		n++
	}
	// the last clause becomes the default, so that a terminating select stays one
	clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	var sw ast.Stmt = &ast.SwitchStmt{Tag: call(r.rt("Select"), args...), Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, sw)}}
}

func allBlank(l []ast.Expr) bool {
	for _, e := range l {
		if !isBlank(e) {
			return false
		}
	}
	return true
}

// resetDecls builds, per file, the functions that restore the package's
// variables: one for each initialiser, in the file that declares it, one that
// runs them and the package's own init functions in order, in the first file.
func (r *rw) resetDecls(files []*ast.File) map[int][]ast.Decl {
	out := map[int][]ast.Decl{}
	fn := func(name string, list ...ast.Stmt) ast.Decl {
		return &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: list}}
	}
	inited := map[*types.Var]bool{}
	var list []ast.Stmt
	var names []string
	for k, in := range r.info.InitOrder {
		var lhs []ast.Expr
		skip := true
		for _, v := range in.Lhs {
			inited[v] = true
			lhs = append(lhs, id(v.Name()))
			if v.Name() != "_" {
				skip = false
				names = append(names, v.Name())
			}
		}
		if skip {
			continue
		}
		i, x := r.initExpr(files, in)
		name := fmt.Sprintf("vsimInit%d", k)
		out[i] = append(out[i], fn(name, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{x}}))
		list = append(list, &ast.ExprStmt{X: call(id(name))})
	}
	scope := r.pkg.Scope()
	var zero []string
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok && !inited[v] {
			zero = append(zero, n)
		}
	}
	sort.Strings(zero)
	names = append(names, zero...)
	var pre []ast.Stmt
	for _, n := range zero {
		pre = append(pre, &ast.ExprStmt{X: call(r.rt("Zero"), &ast.UnaryExpr{Op: token.AND, X: id(n)})})
	}
	list = append(pre, list...)
	n := 0
	for i, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				n++
				fd.Name = id(fmt.Sprintf("vsimUserInit%d", n))
				out[i] = append(out[i], fn("init", &ast.ExprStmt{X: call(fd.Name)}))
				list = append(list, &ast.ExprStmt{X: call(fd.Name)})
			}
		}
	}
	if len(list) == 0 {
		return nil
	}
	r.st.PkgVars[r.importPath] = names
	out[0] = append(out[0], fn("init",
		&ast.ExprStmt{X: call(r.rt("RegisterReset"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: list}})}))
	return out
}

// initExpr finds the rewritten initialiser of package variables and its file.
func (r *rw) initExpr(files []*ast.File, in *types.Initializer) (int, ast.Expr) {
	for k, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if r.info.Defs[n] == in.Lhs[0] {
						if len(vs.Values) == len(vs.Names) {
							return k, vs.Values[i]
						}
						return k, vs.Values[0]
					}
				}
			}
		}
	}
	return 0, in.Rhs
}

// exportFile gives the harness access to what the root package keeps private:
// the buffer-size knobs of the verif build and the correlation counter. What is
// missing from the tree is left out.
func exportFile(pkg *types.Package) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n", pkg.Name())
	b.WriteString("// VsimKnob returns a tunable of the verif build, or nil.\nfunc VsimKnob(name string) *int {\n\tswitch name {\n")
	for _, n := range pkg.Scope().Names() {
		if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok {
			if bt, ok := v.Type().(*types.Basic); ok && bt.Kind() == types.Int {
				fmt.Fprintf(&b, "\tcase %q:\n\t\treturn &%s\n", n, n)
			}
		}
	}
	b.WriteString("\t}\n\treturn nil\n}\n")
	return b.String()
}
