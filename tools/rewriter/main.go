// Command rewriter instruments packages of the repository for the model-checking runtime and writes a
// go build overlay. It works on syntax and types, so it follows refactorings of the code.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const modPath = "github.com/ahKevinXy/go-web-tools"
const rtPath = modPath + "/zzverif/rt"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
}

type spec struct {
	Pkg   string `json:"pkg"`   // path below the module, or with /...
	Modes string `json:"modes"` // comma separated: tick, conc, mem, maps, rand
}

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewriter: "+f+"\n", a...)
	os.Exit(code)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "output directory")
	cfg := flag.String("cfg", "[]", "JSON list of {pkg, modes}")
	static := flag.String("static", "", "comma separated virtual=dir pairs added to the overlay")
	modfile := flag.String("modfile", "", "")
	flag.Parse()
	var specs []spec
	if err := json.Unmarshal([]byte(*cfg), &specs); err != nil {
		die(2, "cfg: %v", err)
	}
	overlay := map[string]string{}
	for _, kv := range strings.Split(*static, ",") {
		p := strings.SplitN(kv, "=", 2)
		if len(p) != 2 {
			continue
		}
		filepath.Walk(p[1], func(path string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
				rel, _ := filepath.Rel(p[1], path)
				overlay[filepath.Join(*repo, p[0], rel)] = path
			}
			return nil
		})
	}
	if len(specs) > 0 {
		rewriteAll(*repo, *out, *modfile, specs, overlay)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die(2, "%v", err)
	}
}

func match(pat, path string) bool {
	pat = modPath + "/" + pat
	if strings.HasSuffix(pat, "/...") {
		b := strings.TrimSuffix(pat, "/...")
		return path == b || strings.HasPrefix(path, b+"/")
	}
	return pat == path
}

func rewriteAll(repo, out, modfile string, specs []spec, overlay map[string]string) {
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Standard"}
	if modfile != "" {
		args = append(args, "-modfile="+modfile)
	}
	for _, s := range specs {
		args = append(args, "./"+s.Pkg)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die(3, "go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(3, "go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && strings.HasPrefix(p.ImportPath, modPath) {
			pkgs = append(pkgs, p)
		}
	}
	for _, p := range pkgs {
		modes := ""
		for _, s := range specs {
			if match(s.Pkg, p.ImportPath) {
				modes = s.Modes
				break
			}
		}
		if modes == "" {
			continue
		}
		rewritePkg(p, modes, exports, out, overlay)
	}
}

type rw struct {
	info                  *types.Info
	pkg                   *types.Package
	fset                  *token.FileSet
	tick, conc, mem, maps, rand, fs bool
	n                     int
}

func rewritePkg(p pkgInfo, modes string, exports map[string]string, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var heads []string
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			die(3, "%v", err)
		}
		af, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
		if err != nil {
			die(3, "%v", err)
		}
		files = append(files, af)
		names = append(names, path)
		head := ""
		for _, l := range strings.Split(string(src), "\n") {
			t := strings.TrimSpace(l)
			if strings.HasPrefix(t, "package ") {
				break
			}
			if constraint.IsGoBuild(t) {
				head = strings.TrimSpace(strings.TrimPrefix(t, "//go:build"))
			}
		}
		// the runtime's generics need a newer language version than go.mod may ask for (loops keep their old meaning)
		if head == "" {
			head = "//go:build go1.21\n\n"
		} else if !strings.Contains(head, "go1.") {
			head = "//go:build go1.21 && (" + head + ")\n\n"
		} else {
			head = "//go:build " + head + "\n\n"
		}
		heads = append(heads, head)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{},
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, Error: func(error) {}}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die(3, "type check %s: %v", p.ImportPath, err)
	}
	r := &rw{info: info, pkg: pkg, fset: fset}
	for _, m := range strings.Split(modes, ",") {
		switch m {
		case "tick":
			r.tick = true
		case "conc":
			r.conc = true
		case "rand":
			r.rand = true
		case "fs":
			r.fs = true
		case "mem":
			r.mem = true
		case "maps":
			r.maps = true
		}
	}
	for i, f := range files {
		r.file(f)
		var buf bytes.Buffer
		buf.WriteString(heads[i])
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			die(3, "print %s: %v", names[i], err)
		}
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modPath+"/"), "/", "__")+"__"+filepath.Base(names[i]))
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			die(3, "%v", err)
		}
		overlay[names[i]] = dst
	}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func rtSel(name string) ast.Expr { return &ast.SelectorExpr{X: id("zzrt"), Sel: id(name)} }

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func paren(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: e} }

func (r *rw) file(f *ast.File) {
	if r.conc || r.rand || r.fs {
		shim := map[string]string{}
		if r.conc {
			shim = map[string]string{`"sync"`: "sync", `"sync/atomic"`: "atomic", `"time"`: "time", `"context"`: "context"}
		}
		if r.rand {
			shim[`"math/rand"`] = "rand"
		}
		if r.fs {
			shim[`"os"`], shim[`"io/ioutil"`] = "os", "ioutil"
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				continue
			}
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				if n, ok := shim[is.Path.Value]; ok {
					is.Path = &ast.BasicLit{Kind: token.STRING, Value: `"` + modPath + "/zzverif/shim/" + n + `"`}
					is.EndPos = token.NoPos
				}
			}
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil {
				r.fieldList(d.Recv)
			}
			r.funcType(d.Type)
			if d.Body != nil {
				r.block(d.Body)
				r.addTick(d.Body)
			}
		case *ast.GenDecl:
			r.genDecl(d)
		}
	}
	// import zzrt, used at least once
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("zzrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + rtPath + `"`}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{rtSel("Tick")}}}})
	f.Comments = nil
	f.Doc = nil
}

func (r *rw) addTick(b *ast.BlockStmt) {
	if r.tick {
		b.List = append([]ast.Stmt{&ast.ExprStmt{X: call(rtSel("Tick"))}}, b.List...)
	}
}

func (r *rw) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			if d.Tok == token.CONST {
				continue
			}
			if s.Type != nil {
				s.Type = r.typ(s.Type)
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u := r.recvOf(s.Values[0]); u != nil {
					s.Values[0] = r.recv2(u)
					continue
				}
			}
			r.exprs(s.Values)
		case *ast.TypeSpec:
			if s.TypeParams != nil {
				r.fieldList(s.TypeParams)
			}
			s.Type = r.typ(s.Type)
		}
	}
}

// ---- types

func (r *rw) typ(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		v := r.typ(e.Value)
		if !r.conc {
			e.Value = v
			return e
		}
		return &ast.StarExpr{X: &ast.IndexExpr{X: rtSel("Chan"), Index: v}}
	case *ast.ParenExpr:
		e.X = r.typ(e.X)
	case *ast.StarExpr:
		e.X = r.typ(e.X)
	case *ast.ArrayType:
		e.Elt = r.typ(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = r.typ(e.Key), r.typ(e.Value)
	case *ast.StructType:
		r.fieldList(e.Fields)
	case *ast.FuncType:
		r.funcType(e)
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
	case *ast.Ellipsis:
		e.Elt = r.typ(e.Elt)
	case *ast.IndexExpr:
		e.Index = r.typ(e.Index)
	case *ast.IndexListExpr:
		for i := range e.Indices {
			e.Indices[i] = r.typ(e.Indices[i])
		}
	case *ast.UnaryExpr: // ~T in constraints
		e.X = r.typ(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.typ(e.X), r.typ(e.Y)
	}
	return e
}

func (r *rw) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.typ(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	if t.TypeParams != nil {
		r.fieldList(t.TypeParams)
	}
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

// ---- expressions

func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) typeOf(e ast.Expr) types.Type { return r.info.TypeOf(e) }

// recvOf returns the receive expression under parentheses, if it is one.
func (r *rw) recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW && r.conc {
		return u
	}
	return nil
}

func (r *rw) recv2(u *ast.UnaryExpr) ast.Expr {
	return call(&ast.SelectorExpr{X: paren(r.expr(u.X)), Sel: id("Recv2")})
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// shared tells whether e designates memory that other goroutines may reach and that is addressable.
func (r *rw) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		return ok && !v.IsField() && v.Pkg() == r.pkg && v.Parent() == r.pkg.Scope()
	case *ast.StarExpr:
		return !r.isType(e)
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		if _, ok := under(r.typeOf(e.X)).(*types.Pointer); ok {
			return true
		}
		return r.shared(e.X)
	case *ast.IndexExpr:
		switch t := under(r.typeOf(e.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := under(t.Elem()).(*types.Array)
			return ok
		case *types.Array:
			return r.shared(e.X)
		}
	}
	return false
}

func (r *rw) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	ix, ok := e.(*ast.IndexExpr)
	if !ok || r.isType(ix) {
		return nil, false
	}
	_, isMap := under(r.typeOf(ix.X)).(*types.Map)
	return ix, isMap
}

// place rewrites the subexpressions of an addressable expression without recording an access to it.
func (r *rw) place(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		e.X = r.place(e.X)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil {
			return e
		}
		if _, ok := under(r.typeOf(e.X)).(*types.Pointer); ok {
			e.X = r.expr(e.X)
		} else {
			e.X = r.place(e.X)
		}
		return e
	case *ast.IndexExpr:
		switch under(r.typeOf(e.X)).(type) {
		case *types.Array:
			e.X = r.place(e.X)
		default:
			e.X = r.expr(e.X)
		}
		e.Index = r.expr(e.Index)
		return e
	case *ast.Ident:
		return e
	}
	return r.expr(e)
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok {
		if tv.IsType() {
			return r.typ(e)
		}
		if tv.Value != nil { // constant
			return e
		}
	}
	switch x := e.(type) {
	case *ast.BasicLit:
		return e
	case *ast.Ident:
		if r.mem && r.shared(x) {
			return paren(&ast.StarExpr{X: call(rtSel("R"), &ast.UnaryExpr{Op: token.AND, X: x})})
		}
		return e
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
		r.addTick(x.Body)
		return x
	case *ast.CompositeLit:
		t := under(r.typeOf(x))
		if p, ok := t.(*types.Pointer); ok {
			t = under(p.Elem())
		}
		_, isMap := t.(*types.Map)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isMap {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil { // package-qualified
			return x
		}
		if s.Kind() == types.FieldVal {
			if r.mem && r.shared(x) {
				return paren(&ast.StarExpr{X: call(rtSel("R"), &ast.UnaryExpr{Op: token.AND, X: r.place(x)})})
			}
			if _, ok := under(r.typeOf(x.X)).(*types.Pointer); ok {
				x.X = r.expr(x.X)
			} else {
				x.X = r.placeOrExpr(x.X)
			}
			return x
		}
		if s.Kind() == types.MethodVal {
			r.methodBase(x, s)
		}
		return x
	case *ast.IndexExpr:
		if _, ok := r.typeOf(x.X).(*types.Signature); ok { // generic function instantiation
			x.Index = r.typ(x.Index)
			return x
		}
		if _, isMap := r.isMapIndex(x); isMap {
			x.X = r.expr(x.X)
			if r.mem {
				x.X = call(rtSel("MR"), x.X)
			}
			x.Index = r.expr(x.Index)
			return x
		}
		if r.mem && r.shared(x) {
			return paren(&ast.StarExpr{X: call(rtSel("R"), &ast.UnaryExpr{Op: token.AND, X: r.place(x)})})
		}
		x.X = r.placeOrExpr(x.X)
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		for i := range x.Indices {
			x.Indices[i] = r.typ(x.Indices[i])
		}
		return x
	case *ast.StarExpr:
		if r.mem {
			return paren(&ast.StarExpr{X: call(rtSel("R"), r.expr(x.X))})
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			x.X = r.place(x.X)
			return x
		}
		if x.Op == token.ARROW && r.conc {
			return call(&ast.SelectorExpr{X: paren(r.expr(x.X)), Sel: id("Recv")})
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.SliceExpr:
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
		return x
	case *ast.CallExpr:
		return r.call(x)
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	}
	return e
}

// placeOrExpr is for bases of non-recorded selections: values stay values.
func (r *rw) placeOrExpr(e ast.Expr) ast.Expr {
	return r.expr(e)
}

// methodBase rewrites the receiver expression of a method selection.
func (r *rw) methodBase(x *ast.SelectorExpr, s *types.Selection) {
	f, _ := s.Obj().(*types.Func)
	ptrRecv := false
	if f != nil {
		if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil {
			_, ptrRecv = under(sig.Recv().Type()).(*types.Pointer)
		}
	}
	if r.isType(x.X) { // method expression
		x.X = r.typ(x.X)
		return
	}
	_, basePtr := under(r.typeOf(x.X)).(*types.Pointer)
	_, baseIface := under(r.typeOf(x.X)).(*types.Interface)
	obj := false
	if r.mem {
		if o, ptr := r.unsafeObj(r.typeOf(x.X)); o {
			obj = ptr == (basePtr || baseIface)
		}
	}
	if basePtr || baseIface || !ptrRecv {
		x.X = r.expr(x.X)
		if obj && (basePtr || baseIface) {
			x.X = call(rtSel("Obj"), x.X)
		}
		return
	}
	x.X = r.place(x.X)
	if obj {
		x.X = call(rtSel("Obj"), &ast.UnaryExpr{Op: token.AND, X: x.X})
	}
}

func (r *rw) builtin(f ast.Expr) string {
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	i, ok := f.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[i].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rw) isChan(e ast.Expr) bool {
	_, ok := under(r.typeOf(e)).(*types.Chan)
	return ok
}

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := under(r.typeOf(e)).(*types.Map)
	return ok
}

func (r *rw) isSlice(e ast.Expr) bool {
	_, ok := under(r.typeOf(e)).(*types.Slice)
	return ok
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	if b := r.builtin(x.Fun); b != "" {
		switch b {
		case "make":
			if r.conc && len(x.Args) > 0 && r.isChanType(x.Args[0]) {
				el := r.chanElem(x.Args[0])
				var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
				if len(x.Args) > 1 {
					n = call(id("int"), r.expr(x.Args[1]))
				}
				if el != nil {
					return call(&ast.IndexExpr{X: rtSel("MakeChan"), Index: el}, n)
				}
			}
			x.Args[0] = r.typ(x.Args[0])
			r.exprs(x.Args[1:])
			return x
		case "new":
			x.Args[0] = r.typ(x.Args[0])
			return x
		case "close":
			if r.conc {
				return call(rtSel("CloseChan"), r.expr(x.Args[0]))
			}
		case "len", "cap":
			if r.conc && r.isChan(x.Args[0]) {
				n := "ChLen"
				if b == "cap" {
					n = "ChCap"
				}
				return call(rtSel(n), r.expr(x.Args[0]))
			}
			if r.mem && r.isMap(x.Args[0]) {
				x.Args[0] = call(rtSel("MR"), r.expr(x.Args[0]))
				return x
			}
			if _, ok := under(r.typeOf(x.Args[0])).(*types.Array); ok {
				x.Args[0] = r.place(x.Args[0])
				return x
			}
		case "delete":
			if r.mem {
				x.Args[0] = call(rtSel("MW"), r.expr(x.Args[0]))
				x.Args[1] = r.expr(x.Args[1])
				return x
			}
		case "clear":
			if r.mem && r.isMap(x.Args[0]) {
				x.Args[0] = call(rtSel("MW"), r.expr(x.Args[0]))
				return x
			}
		case "copy":
			if r.mem && r.isSlice(x.Args[0]) && r.isSlice(x.Args[1]) {
				return call(rtSel("Copy"), r.expr(x.Args[0]), r.expr(x.Args[1]))
			}
		}
		r.exprs(x.Args)
		if b == "append" && r.mem && r.isSlice(x.Args[0]) {
			return r.appendCall(x)
		}
		return x
	}
	objs := r.objArgs(x)
	if s, ok := x.Fun.(*ast.SelectorExpr); ok && r.conc {
		if i, ok := s.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[i].(*types.PkgName); ok && pn.Imported().Path() == "runtime" && s.Sel.Name == "Gosched" {
				return call(rtSel("Gosched"), s)
			}
		}
	}
	x.Fun = r.expr(x.Fun)
	if st, ok := x.Fun.(*ast.StarExpr); ok {
		x.Fun = paren(st)
	}
	r.exprs(x.Args)
	for _, i := range objs {
		x.Args[i] = call(rtSel("Obj"), x.Args[i])
	}
	return x
}

// unsafeTypes are library types whose objects must not be used by two goroutines at a time.
var unsafeTypes = map[string]bool{
	"hash.Hash": true, "hash.Hash32": true, "hash.Hash64": true, "hash/maphash.Hash": true,
	"bytes.Buffer": true, "bytes.Reader": true, "strings.Builder": true, "strings.Reader": true,
	"bufio.Reader": true, "bufio.Writer": true, "bufio.ReadWriter": true, "bufio.Scanner": true,
	"encoding/csv.Reader": true, "encoding/csv.Writer": true, "encoding/json.Encoder": true, "encoding/json.Decoder": true,
	"crypto/cipher.BlockMode": true, "crypto/cipher.Stream": true, "archive/zip.Writer": true,
	"container/list.List": true, "container/ring.Ring": true, "math/big.Int": true,
}

func (r *rw) unsafeObj(t types.Type) (obj, ptr bool) {
	if t == nil {
		return
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !unsafeTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
		return
	}
	_, iface := n.Underlying().(*types.Interface)
	return true, ptr || iface
}

// objArgs are the arguments that a library function uses (and does not merely keep).
func (r *rw) objArgs(x *ast.CallExpr) (l []int) {
	s, ok := x.Fun.(*ast.SelectorExpr)
	if !ok || !r.mem {
		return
	}
	f, ok := r.info.Uses[s.Sel].(*types.Func)
	if !ok || f.Pkg() == nil {
		return
	}
	switch f.Pkg().Path() + "." + f.Name() {
	case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "io/ioutil.ReadAll",
		"fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fscan", "fmt.Fscanf", "fmt.Fscanln", "encoding/binary.Read", "encoding/binary.Write":
	default:
		return
	}
	for i, a := range x.Args {
		if obj, ptr := r.unsafeObj(r.typeOf(a)); obj && ptr {
			l = append(l, i)
		}
	}
	return
}

// appendCall makes the elements written by append visible; the arguments are rewritten already.
func (r *rw) appendCall(x *ast.CallExpr) ast.Expr {
	if len(x.Args) < 2 {
		return x
	}
	if x.Ellipsis != token.NoPos {
		if b, ok := under(r.info.Types[x.Args[1]].Type).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return x
		}
	}
	return &ast.CallExpr{Fun: call(rtSel("Append"), x.Args[0]), Args: x.Args[1:], Ellipsis: x.Ellipsis}
}

func (r *rw) isChanType(e ast.Expr) bool {
	t := r.typeOf(e)
	_, ok := under(t).(*types.Chan)
	return ok
}

func (r *rw) chanElem(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.ChanType:
			return r.typ(x.Value)
		}
		return nil
	}
}

// ---- statements

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
	return l
}

func (r *rw) name(p string) string {
	r.n++
	return fmt.Sprintf("_zz%s%d", p, r.n)
}

func define(n string, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

// simple tells that evaluating e twice is harmless.
func simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if u.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// clone copies a simple expression, keeping type information.
func (r *rw) clone(e ast.Expr) ast.Expr {
	var c ast.Expr
	switch x := e.(type) {
	case *ast.Ident:
		n := *x
		if o, ok := r.info.Uses[x]; ok {
			r.info.Uses[&n] = o
		}
		c = &n
	case *ast.BasicLit:
		n := *x
		c = &n
	case *ast.ParenExpr:
		c = &ast.ParenExpr{X: r.clone(x.X)}
	case *ast.StarExpr:
		c = &ast.StarExpr{X: r.clone(x.X)}
	case *ast.SelectorExpr:
		n := &ast.SelectorExpr{X: r.clone(x.X), Sel: x.Sel}
		if s, ok := r.info.Selections[x]; ok {
			r.info.Selections[n] = s
		}
		c = n
	case *ast.IndexExpr:
		c = &ast.IndexExpr{X: r.clone(x.X), Index: r.clone(x.Index)}
	case *ast.BinaryExpr:
		c = &ast.BinaryExpr{X: r.clone(x.X), Op: x.Op, Y: r.clone(x.Y)}
	case *ast.UnaryExpr:
		c = &ast.UnaryExpr{Op: x.Op, X: r.clone(x.X)}
	default:
		return nil
	}
	if tv, ok := r.info.Types[e]; ok {
		r.info.Types[c] = tv
	}
	return c
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (r *rw) lhs(e ast.Expr) ast.Expr {
	if ix, ok := r.isMapIndex(e); ok {
		ix.X = r.expr(ix.X)
		if r.mem {
			ix.X = call(rtSel("MW"), ix.X)
		}
		ix.Index = r.expr(ix.Index)
		return ix
	}
	if r.mem && r.shared(e) {
		return &ast.StarExpr{X: call(rtSel("W"), &ast.UnaryExpr{Op: token.AND, X: r.place(e)})}
	}
	return r.place(e)
}

func (r *rw) update(target ast.Expr, op token.Token, val ast.Expr) ast.Stmt {
	// target is shared and simple: read, compute, then write
	c := r.clone(target)
	if c == nil {
		return nil
	}
	read := r.expr(c)
	return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: call(rtSel("P"), &ast.UnaryExpr{Op: token.AND, X: r.place(target)}), Sel: id("St")},
		&ast.BinaryExpr{X: read, Op: op, Y: paren(val)})}
}

func (r *rw) assign(s *ast.AssignStmt) ast.Stmt {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u := r.recvOf(s.Rhs[0]); u != nil {
			s.Rhs[0] = r.recv2(u)
			if s.Tok != token.DEFINE {
				for i := range s.Lhs {
					s.Lhs[i] = r.lhs(s.Lhs[i])
				}
			}
			return s
		}
	}
	if s.Tok == token.DEFINE {
		r.exprs(s.Rhs)
		return s
	}
	if s.Tok != token.ASSIGN {
		t := s.Lhs[0]
		if _, isMap := r.isMapIndex(t); !isMap && r.mem && r.shared(t) && simple(t) {
			val := r.expr(s.Rhs[0])
			if st := r.update(t, opOf[s.Tok], val); st != nil {
				return st
			}
		}
		r.exprs(s.Rhs)
		s.Lhs[0] = r.lhs(t)
		return s
	}
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		t := s.Lhs[0]
		if _, isMap := r.isMapIndex(t); !isMap && r.mem && r.shared(t) {
			return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: call(rtSel("P"), &ast.UnaryExpr{Op: token.AND, X: r.place(t)}), Sel: id("St")}, r.expr(s.Rhs[0]))}
		}
	}
	r.exprs(s.Rhs)
	for i := range s.Lhs {
		s.Lhs[i] = r.lhs(s.Lhs[i])
	}
	return s
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		ch, v := r.expr(s.Chan), r.expr(s.Value)
		if r.conc {
			return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: paren(ch), Sel: id("Send")}, v)}
		}
		s.Chan, s.Value = ch, v
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if _, isMap := r.isMapIndex(s.X); !isMap && r.mem && r.shared(s.X) && simple(s.X) {
			if st := r.update(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}); st != nil {
				return st
			}
		}
		s.X = r.lhs(s.X)
	case *ast.AssignStmt:
		return r.assign(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.deferCall(s.Call)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Tag = r.expr(s.Tag)
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
		r.addTick(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok && r.conc {
			return r.selectStmt(sel, s.Label)
		}
		s.Stmt = r.stmt(s.Stmt)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
	}
	return s
}

// deferCall keeps a call a call.
func (r *rw) deferCall(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	if k, ok := e.(*ast.CallExpr); ok {
		return k
	}
	return c
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	if !r.conc {
		s.Call = r.deferCall(s.Call)
		return s
	}
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(rtSel("Go"), r.expr(fl))}
	}
	var pre []ast.Stmt
	if r.builtin(c.Fun) != "" {
		return &ast.ExprStmt{X: call(rtSel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.expr(c)}}}})}
	}
	isSig := false
	if _, ok := under(r.typeOf(c.Fun)).(*types.Signature); ok {
		isSig = true
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args[i] = r.expr(a)
			continue
		}
		n := r.name("a")
		pre = append(pre, define(n, r.expr(a)))
		args[i] = id(n)
	}
	fun := c.Fun
	inst := false
	switch f := fun.(type) {
	case *ast.Ident:
		if _, ok := r.info.Instances[f]; ok {
			inst = true
		}
		if _, ok := r.info.Uses[f].(*types.Func); ok {
			inst = true
		}
	case *ast.SelectorExpr:
		if _, ok := r.info.Instances[f.Sel]; ok {
			inst = true
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inst = true
	}
	callee := r.expr(fun)
	if isSig && !inst {
		n := r.name("f")
		pre = append([]ast.Stmt{define(n, callee)}, pre...)
		callee = id(n)
	}
	body := &ast.CallExpr{Fun: callee, Args: args}
	if c.Ellipsis.IsValid() {
		body.Ellipsis = token.Pos(1)
	}
	pre = append(pre, &ast.ExprStmt{X: call(rtSel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})})
	return &ast.BlockStmt{List: pre}
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := under(r.typeOf(s.X))
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	if _, ok := t.(*types.Chan); ok && r.conc {
		x := r.expr(s.X)
		r.block(s.Body)
		r.addTick(s.Body)
		v, ok2, ch := r.name("v"), r.name("ok"), r.name("ch")
		next := func() ast.Expr { return call(&ast.SelectorExpr{X: id(ch), Sel: id("Recv2")}) }
		if !blank(s.Key) {
			s.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{id(v)}}}, s.Body.List...)
		} else {
			s.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}}}, s.Body.List...)
		}
		// the loop variable cannot share the init statement with two values; evaluate the channel there
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(ch), id(v), id(ok2)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rtSel("RangeChan"), x)}},
			Cond: id(ok2),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok2)}, Tok: token.ASSIGN, Rhs: []ast.Expr{next()}},
			Body: s.Body,
		}
	}
	if _, ok := t.(*types.Map); ok && r.maps {
		x := r.expr(s.X)
		r.block(s.Body)
		r.addTick(s.Body)
		it := r.name("it")
		var pre []ast.Stmt
		if !blank(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: id(it), Sel: id("K")}}})
		}
		if !blank(s.Value) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(it), Sel: id("V")})}})
		}
		s.Body.List = append(pre, s.Body.List...)
		return &ast.ForStmt{
			Init: define(it, call(rtSel("MapIter"), x)),
			Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}),
			Body: s.Body,
		}
	}
	if _, ok := t.(*types.Slice); ok && r.mem && !blank(s.Value) && s.Tok == token.DEFINE {
		x := r.expr(s.X)
		r.block(s.Body)
		r.addTick(s.Body)
		zx, zi := r.name("x"), r.name("i")
		lhs, fn := []ast.Expr{id(zx), id(zi)}, "RangeV"
		set := &ast.AssignStmt{Tok: token.ASSIGN}
		if !blank(s.Key) {
			fn = "RangeKV"
			lhs = append(lhs, s.Key)
			set.Lhs, set.Rhs = append(set.Lhs, s.Key), append(set.Rhs, id(zi))
		}
		lhs = append(lhs, s.Value)
		set.Lhs, set.Rhs = append(set.Lhs, s.Value), append(set.Rhs, &ast.StarExpr{X: call(rtSel("RT"), &ast.UnaryExpr{Op: token.AND, X: &ast.IndexExpr{X: id(zx), Index: id(zi)}})})
		s.Body.List = append([]ast.Stmt{set}, s.Body.List...)
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(rtSel(fn), x)}},
			Cond: &ast.BinaryExpr{X: id(zi), Op: token.LSS, Y: call(id("len"), id(zx))},
			Post: &ast.IncDecStmt{X: id(zi), Tok: token.INC},
			Body: s.Body,
		}
	}
	if _, ok := t.(*types.Array); ok {
		s.X = r.place(s.X)
	} else {
		s.X = r.expr(s.X)
		if _, isMap := t.(*types.Map); isMap && r.mem {
			s.X = call(rtSel("MR"), s.X)
		}
	}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			s.Key = r.place(s.Key)
		}
		if s.Value != nil {
			s.Value = r.place(s.Value)
		}
	}
	r.block(s.Body)
	r.addTick(s.Body)
	return s
}

func (r *rw) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if !r.conc {
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			cc.Comm = r.stmt(cc.Comm)
			cc.Body = r.stmts(cc.Body)
		}
		return s
	}
	var pre []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var head []ast.Stmt
		var list []ast.Expr
		if cc.Comm == nil {
			hasDefault = "true"
			list = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
		} else {
			n := r.name("c")
			list = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}
			idx++
			cases = append(cases, id(n))
			switch k := cc.Comm.(type) {
			case *ast.SendStmt:
				pre = append(pre, define(n, call(&ast.SelectorExpr{X: call(rtSel("NewSend"), r.expr(k.Chan)), Sel: id("With")}, r.expr(k.Value))))
			case *ast.ExprStmt:
				u := r.recvOf(k.X)
				pre = append(pre, define(n, call(rtSel("NewRecv"), r.expr(u.X))))
			case *ast.AssignStmt:
				u := r.recvOf(k.Rhs[0])
				pre = append(pre, define(n, call(rtSel("NewRecv"), r.expr(u.X))))
				vals := []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: id("V")}, &ast.SelectorExpr{X: id(n), Sel: id("Ok")}}
				lhs := k.Lhs
				if k.Tok != token.DEFINE {
					for i := range lhs {
						lhs[i] = r.lhs(lhs[i])
					}
				}
				head = []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: k.Tok, Rhs: vals[:len(lhs)]}}
			}
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: list, Body: append(head, r.stmts(cc.Body)...)})
	}
	sw.Tag = call(rtSel("Select"), append([]ast.Expr{id(hasDefault)}, cases...)...)
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	// a select without default that never falls out of its clauses is terminating; a switch needs a panic default
	if hasDefault == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"select"`})}}})
	} else {
		// make the default clause a real default
		for _, c := range sw.Body.List {
			cc := c.(*ast.CaseClause)
			if len(cc.List) == 1 {
				if _, ok := cc.List[0].(*ast.UnaryExpr); ok {
					cc.List = nil
				}
			}
		}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}
