// Command rewrite turns the Go packages of a module into a copy that runs
// under the deterministic simulator: goroutines, channels, select, sync,
// sync/atomic, time, context, math/rand and net are redirected to the
// simulator's runtime, map iteration gets a simulator-chosen order, a
// preemption point is put before every statement and every package gets a
// function that puts its variables back into their initial state.
//
// The rewriting is purely mechanical and type-directed: it looks at language
// constructs, never at names or the structure of the code under test.
//
// usage: rewrite -repo DIR -out DIR -rt IMPORTPATH root packages...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var (
	repo = flag.String("repo", "/repo", "module to rewrite")
	out  = flag.String("out", "", "output directory")
	rt   = flag.String("rt", "", "import path of the simulator runtime (package sim)")
)

// packages of the standard library that are replaced by simulated ones, found
// below <rt>'s parent directory under rt/<path>.
var replaced = map[string]bool{
	"sync": true, "sync/atomic": true, "time": true, "context": true,
	"math/rand": true, "math/rand/v2": true, "net": true, "runtime": true,
	"crypto/rand": true,
}

func main() {
	log.SetFlags(0)
	log.SetPrefix("rewrite: ")
	flag.Parse()
	roots := flag.Args()
	args := append([]string{"list", "-mod=readonly", "-export", "-deps", "-e",
		"-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Imports,Standard,Module,Error"}, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	outb, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list: %v", err)
	}
	exports := map[string]string{}
	var mod []*listPkg
	dec := json.NewDecoder(bytes.NewReader(outb))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard {
			if p.Error != nil {
				log.Fatalf("%s: %s", p.ImportPath, p.Error.Err)
			}
			mod = append(mod, p) // -deps lists dependencies first
		}
	}
	fset := token.NewFileSet()
	checked := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := checked[path]; ok {
			return p, nil
		}
		return gc.Import(path)
	})
	var reset []string
	for _, p := range mod {
		if len(p.CgoFiles) > 0 {
			log.Fatalf("%s: cgo is not supported", p.ImportPath)
		}
		var files []*ast.File
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution)
			if err != nil {
				log.Fatal(err)
			}
			files = append(files, f)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			log.Fatal(err)
		}
		checked[p.ImportPath] = tp
		rel, err := filepath.Rel(*repo, p.Dir)
		if err != nil || strings.HasPrefix(rel, "..") {
			log.Fatalf("package %s lies outside the module", p.ImportPath)
		}
		dir := filepath.Join(*out, rel)
		if err := os.MkdirAll(dir, 0o777); err != nil {
			log.Fatal(err)
		}
		rw := &rewriter{fset: fset, info: info, pkg: tp, rel: rel}
		rw.collectVars(files)
		for i, f := range files {
			rw.file(f)
			var buf bytes.Buffer
			buf.WriteString("//go:build go1.21\n\n")
			f.Comments = nil
			stripDocs(f)
			if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
				log.Fatalf("%s: %v", p.GoFiles[i], err)
			}
			if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), buf.Bytes(), 0o666); err != nil {
				log.Fatal(err)
			}
		}
		rw.writeReset(dir, p.Name)
		reset = append(reset, p.ImportPath)
	}
	writeResetAll(filepath.Join(*out, "zzverif", "resetall"), reset)
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	rel     string
	zero    []resetVar
	inits   int
	n       int
	commaOk map[ast.Expr]bool
	chanArg map[*ast.CallExpr]bool
	rangeK  map[*ast.RangeStmt]rune // 'c' channel, 'm' map
	inline  map[ast.Expr]bool       // constant or nil: must not go through a variable
	builtin map[*ast.CallExpr]bool
	tuple   map[*ast.CallExpr]bool
	labelOf map[ast.Stmt]*ast.Ident
	sites   map[ast.Node]string
}

type resetVar struct {
	name string
	typ  ast.Expr
	file *ast.File
}

func (rw *rewriter) site(pos token.Pos) string {
	p := rw.fset.Position(pos)
	return filepath.Join(rw.rel, filepath.Base(p.Filename)) + ":" + strconv.Itoa(p.Line)
}

func (rw *rewriter) tmp(prefix string) string {
	rw.n++
	return fmt.Sprintf("verif%s%d", prefix, rw.n)
}

func id(name string) *ast.Ident { return ast.NewIdent(name) }

func simSel(name string) ast.Expr { return &ast.SelectorExpr{X: id("verifsim"), Sel: id(name)} }

func call(fun ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fun, Args: args} }

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

// collectVars records the package-level variables, for the reset function.
// Their initialisers run again in dependency order, each package variable
// declaration being split off into a setter in the file that declares it.
func (rw *rewriter) collectVars(files []*ast.File) {
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							rw.zero = append(rw.zero, resetVar{n.Name, vs.Type, f})
						}
					}
				}
			}
		}
	}
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (rw *rewriter) file(f *ast.File) {
	rw.commaOk = map[ast.Expr]bool{}
	rw.chanArg = map[*ast.CallExpr]bool{}
	rw.rangeK = map[*ast.RangeStmt]rune{}
	rw.inline = map[ast.Expr]bool{}
	rw.builtin = map[*ast.CallExpr]bool{}
	rw.tuple = map[*ast.CallExpr]bool{}
	rw.labelOf = map[ast.Stmt]*ast.Ident{}
	rw.sites = map[ast.Node]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if replaced[path] {
			base := strings.TrimSuffix(*rt, "/sim")
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "/rt/" + path)}
			im.EndPos = 0
		}
	}
	// init functions get a callable name
	var extra []ast.Decl
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
			name := fmt.Sprintf("verifSimInit%d", rw.inits)
			rw.inits++
			fd.Name = id(name)
			extra = append(extra, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(id(name))}}}})
		}
	}
	for _, d := range f.Decls {
		rw.node(reflect.ValueOf(d))
	}
	// setters for initialised package variables, in the file with the right imports
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					extra = append(extra, setter("verifSimZero_"+n.Name, []ast.Stmt{
						&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("verifZ")}, Type: vs.Type}}}},
						&ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id("verifZ")}},
					}))
				}
				continue
			}
			if len(vs.Values) == len(vs.Names) {
				for i, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					extra = append(extra, setter("verifSimSet_"+n.Name, []ast.Stmt{
						&ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{vs.Values[i]}}}))
				}
				continue
			}
			var lhs []ast.Expr
			name := ""
			for _, n := range vs.Names {
				lhs = append(lhs, id(n.Name))
				if name == "" && n.Name != "_" {
					name = n.Name
				}
			}
			if name != "" {
				extra = append(extra, setter("verifSimSet_"+name, []ast.Stmt{
					&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{vs.Values[0]}}}))
			}
		}
	}
	f.Decls = append(f.Decls, extra...)
	spec := &ast.ImportSpec{Name: id("verifsim"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(*rt)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{simSel("P")}}}})
	// positions would make the printer glue things together in odd ways
	clearPos(f)
}

func setter(name string, body []ast.Stmt) ast.Decl {
	return &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func (rw *rewriter) writeReset(dir, pkgname string) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// VerifSimReset puts the package back into its initial state.\nfunc VerifSimReset() {\n", pkgname)
	for _, z := range rw.zero {
		fmt.Fprintf(&b, "\tverifSimZero_%s()\n", z.name)
	}
	seen := map[string]bool{}
	for _, i := range rw.initOrder() {
		if !seen[i] {
			seen[i] = true
			fmt.Fprintf(&b, "\tverifSimSet_%s()\n", i)
		}
	}
	for i := 0; i < rw.inits; i++ {
		fmt.Fprintf(&b, "\tverifSimInit%d()\n", i)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "zz_verif_reset.go"), b.Bytes(), 0o666); err != nil {
		log.Fatal(err)
	}
}

func (rw *rewriter) initOrder() []string {
	var names []string
	for _, in := range rw.info.InitOrder {
		for _, v := range in.Lhs {
			if v.Name() != "_" {
				names = append(names, v.Name())
				break
			}
		}
	}
	return names
}

func writeResetAll(dir string, pkgs []string) {
	if err := os.MkdirAll(dir, 0o777); err != nil {
		log.Fatal(err)
	}
	var b bytes.Buffer
	b.WriteString("// Package resetall puts every rewritten package back into its initial state.\npackage resetall\n\nimport (\n")
	for i, p := range pkgs {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\nfunc Reset() {\n")
	for i := range pkgs {
		fmt.Fprintf(&b, "\tp%d.VerifSimReset()\n", i)
	}
	b.WriteString("}\n\nvar Packages = []string{\n")
	q := append([]string(nil), pkgs...)
	sort.Strings(q)
	for _, p := range q {
		fmt.Fprintf(&b, "\t%q,\n", p)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "resetall.go"), b.Bytes(), 0o666); err != nil {
		log.Fatal(err)
	}
}

var (
	exprType  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeType  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	posType   = reflect.TypeOf(token.Pos(0))
	identType = reflect.TypeOf((*ast.Ident)(nil))
)

// clearPos zeroes positions so that the printer lays the file out afresh.
// Positions that carry meaning for the printer (Lparen of a grouped
// declaration, Ellipsis of a variadic call, Assign of an alias, Arrow of a
// channel type) are set to 1.
func clearPos(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return true
		}
		v = v.Elem()
		if v.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() != posType {
				continue
			}
			name := v.Type().Field(i).Name
			p := token.Pos(v.Field(i).Int())
			switch {
			case p == token.NoPos:
			case name == "Lparen" && v.Type() == reflect.TypeOf(ast.GenDecl{}),
				name == "Rparen" && v.Type() == reflect.TypeOf(ast.GenDecl{}),
				name == "Ellipsis", name == "Assign":
				v.Field(i).SetInt(1)
			default:
				v.Field(i).SetInt(0)
			}
		}
		return true
	})
}

// node rewrites everything below v (a pointer to an ast node).
func (rw *rewriter) node(v reflect.Value) {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	n, ok := v.Interface().(ast.Node)
	if !ok {
		return
	}
	rw.pre(n)
	if cc, ok := n.(*ast.CommClause); ok && cc.Comm != nil {
		rw.comm(cc)
	}
	s := v.Elem()
	if s.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		if !f.CanSet() {
			continue
		}
		switch {
		case f.Type() == exprType:
			if !f.IsNil() {
				rw.node(f)
				f.Set(reflect.ValueOf(rw.expr(f.Interface().(ast.Expr))))
			}
		case f.Type() == stmtType:
			if _, ok := n.(*ast.CommClause); ok {
				continue // done by comm
			}
			if !f.IsNil() {
				rw.node(f)
				f.Set(reflect.ValueOf(rw.stmt(f.Interface().(ast.Stmt))))
			}
		case f.Kind() == reflect.Slice:
			switch f.Type().Elem() {
			case exprType:
				for j := 0; j < f.Len(); j++ {
					e := f.Index(j)
					if e.IsNil() {
						continue
					}
					rw.node(e)
					e.Set(reflect.ValueOf(rw.expr(e.Interface().(ast.Expr))))
				}
			case stmtType:
				body := !isCaseList(n)
				var list []ast.Stmt
				for j := 0; j < f.Len(); j++ {
					st := f.Index(j).Interface().(ast.Stmt)
					rw.node(reflect.ValueOf(st))
					if body && wantsPreempt(st) {
						list = append(list, &ast.ExprStmt{X: call(simSel("P"))})
					}
					list = append(list, rw.stmt(st))
				}
				f.Set(reflect.ValueOf(list))
			default:
				if f.Type().Elem().Implements(nodeType) {
					for j := 0; j < f.Len(); j++ {
						rw.node(f.Index(j))
					}
				}
			}
		case f.Kind() == reflect.Ptr && f.Type().Implements(nodeType) && f.Type() != identType:
			rw.node(f)
		case f.Kind() == reflect.Interface && f.Type().Implements(nodeType):
			rw.node(f)
		}
	}
}

// isCaseList: the body of a switch or select holds clauses, not statements.
func isCaseList(n ast.Node) bool {
	b, ok := n.(*ast.BlockStmt)
	if !ok {
		return false
	}
	for _, s := range b.List {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}

func wantsPreempt(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return false
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		return g.Tok == token.VAR
	case *ast.BranchStmt:
		return false
	}
	return true
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

func (rw *rewriter) pre(n ast.Node) {
	switch n := n.(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := isRecv(n.Rhs[0]); ok {
				rw.commaOk[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := isRecv(n.Values[0]); ok {
				rw.commaOk[u] = true
			}
		}
	case *ast.CallExpr:
		if fid, ok := unparen(n.Fun).(*ast.Ident); ok {
			if _, ok := rw.info.Uses[fid].(*types.Builtin); ok {
				rw.builtin[n] = true
				if len(n.Args) > 0 && rw.isKind(n.Args[0], 'c') {
					rw.chanArg[n] = true
				}
			}
		}
	case *ast.RangeStmt:
		switch {
		case rw.isKind(n.X, 'c'):
			rw.rangeK[n] = 'c'
		case rw.isKind(n.X, 'm'):
			rw.rangeK[n] = 'm'
		}
	case *ast.GoStmt:
		rw.sites[n] = rw.site(n.Pos())
		for _, a := range n.Call.Args {
			tv := rw.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				rw.inline[a] = true
			}
			if _, ok := tv.Type.(*types.Tuple); ok {
				rw.tuple[n.Call] = true
			}
		}
	case *ast.LabeledStmt:
		rw.labelOf[n.Stmt] = n.Label
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			n.Body.List = []ast.Stmt{&ast.ExprStmt{X: call(simSel("P"))}}
		}
	}
}

func (rw *rewriter) isKind(e ast.Expr, k rune) bool {
	tv, ok := rw.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	switch tv.Type.Underlying().(type) {
	case *types.Chan:
		return k == 'c'
	case *types.Map:
		return k == 'm'
	}
	return false
}

func as(ch ast.Expr, method string, args ...ast.Expr) ast.Expr {
	return call(&ast.SelectorExpr{X: call(simSel("As"), ch), Sel: id(method)}, args...)
}

// expr rewrites e, whose children have been rewritten already. Types of
// rewritten children are looked up before they are rewritten, hence the use
// of the original node as key wherever the node itself is kept.
func (rw *rewriter) expr(e ast.Expr) ast.Expr {
	switch n := e.(type) {
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: simSel("Chan"), Index: n.Value}}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			if rw.commaOk[n] {
				return as(n.X, "Recv2")
			}
			return as(n.X, "Recv")
		}
	case *ast.CallExpr:
		fid, ok := unparen(n.Fun).(*ast.Ident)
		if !ok {
			return e
		}
		b, ok := rw.info.Uses[fid].(*types.Builtin)
		if !ok {
			return e
		}
		switch b.Name() {
		case "close":
			return as(n.Args[0], "Close")
		case "len", "cap":
			if rw.chanArg[n] {
				m := "Len"
				if b.Name() == "cap" {
					m = "Cap"
				}
				return as(n.Args[0], m)
			}
		case "make":
			if rw.chanArg[n] {
				size := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
				if len(n.Args) > 1 {
					size = call(id("int"), n.Args[1])
				}
				return call(&ast.IndexExpr{X: simSel("MakeAs"), Index: n.Args[0]}, size)
			}
		}
	}
	return e
}

func (rw *rewriter) ex(e *ast.Expr) {
	if *e == nil {
		return
	}
	rw.node(reflect.ValueOf(*e))
	*e = rw.expr(*e)
}

// comm rewrites the expressions inside a communication clause, keeping the
// clause itself for the rewriting of the whole select statement.
func (rw *rewriter) comm(cc *ast.CommClause) {
	switch c := cc.Comm.(type) {
	case *ast.SendStmt:
		rw.ex(&c.Chan)
		rw.ex(&c.Value)
	case *ast.ExprStmt:
		u, _ := isRecv(c.X)
		rw.ex(&u.X)
		c.X = u
	case *ast.AssignStmt:
		for i := range c.Lhs {
			rw.ex(&c.Lhs[i])
		}
		u, _ := isRecv(c.Rhs[0])
		rw.ex(&u.X)
		c.Rhs[0] = u
	}
}

func define(rhs ast.Expr, names ...string) ast.Stmt {
	var lhs []ast.Expr
	for _, n := range names {
		lhs = append(lhs, id(n))
	}
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

// labelled puts the label that stood before the original statement o onto s.
func (rw *rewriter) labelled(o, s ast.Stmt) ast.Stmt {
	if l := rw.labelOf[o]; l != nil {
		return &ast.LabeledStmt{Label: id(l.Name), Stmt: s}
	}
	return s
}

func block(list ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: list} }

func ifNot(ok string, tok token.Token) ast.Stmt {
	return &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: block(&ast.BranchStmt{Tok: tok})}
}

// stmt rewrites s, whose children have been rewritten already.
func (rw *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch n := s.(type) {
	case *ast.LabeledStmt:
		if b, ok := n.Stmt.(*ast.BlockStmt); ok && len(b.List) > 0 {
			// a rewritten statement carries its label inside
			for _, x := range b.List {
				if l, ok := x.(*ast.LabeledStmt); ok && l.Label.Name == n.Label.Name {
					return b
				}
			}
		}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: as(n.Chan, "Send", n.Value)}
	case *ast.GoStmt:
		return rw.goStmt(n)
	case *ast.DeferStmt:
		if rw.builtin[n.Call] {
			if c, ok := rw.expr(n.Call).(*ast.CallExpr); ok {
				n.Call = c
			}
		}
	case *ast.RangeStmt:
		switch rw.rangeK[n] {
		case 'c':
			r, ok := rw.tmp("R"), rw.tmp("Ok")
			var list []ast.Stmt
			rcv := call(&ast.SelectorExpr{X: id(r), Sel: id("Recv2")})
			switch {
			case isBlank(n.Key):
				list = append(list, define(rcv, "_", ok))
			default:
				list = append(list,
					&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}},
					&ast.AssignStmt{Lhs: []ast.Expr{n.Key, id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rcv}})
			}
			list = append(list, ifNot(ok, token.BREAK), n.Body)
			outer := []ast.Stmt{define(call(simSel("As"), n.X), r)}
			if n.Tok == token.DEFINE && !isBlank(n.Key) {
				// one variable for all iterations, as in the Go version of the module
				outer = append(outer, define(call(&ast.SelectorExpr{X: id(r), Sel: id("Zero")}), n.Key.(*ast.Ident).Name))
			}
			return block(append(outer, rw.labelled(n, &ast.ForStmt{Body: block(list...)}))...)
		case 'm':
			m, k, v, ok := rw.tmp("M"), rw.tmp("K"), rw.tmp("V"), rw.tmp("Ok")
			ix := &ast.IndexExpr{X: id(m), Index: id(k)}
			var list []ast.Stmt
			if isBlank(n.Value) {
				v = "_"
			}
			list = append(list, define(ix, v, ok), ifNot(ok, token.CONTINUE))
			if !isBlank(n.Key) {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k)}})
			}
			if !isBlank(n.Value) {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{n.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
			}
			list = append(list, n.Body)
			outer := []ast.Stmt{define(n.X, m)}
			if n.Tok == token.DEFINE {
				if !isBlank(n.Key) {
					outer = append(outer, define(call(simSel("ZeroKey"), id(m)), n.Key.(*ast.Ident).Name))
				}
				if !isBlank(n.Value) {
					outer = append(outer, define(call(simSel("ZeroElem"), id(m)), n.Value.(*ast.Ident).Name))
				}
			}
			return block(append(outer, rw.labelled(n, &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE,
				X: call(simSel("MapKeys"), id(m)), Body: block(list...)}))...)
		}
	case *ast.SelectStmt:
		return rw.selectStmt(n)
	}
	return s
}

func (rw *rewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	site := str(rw.sites[n])
	launch := func(c *ast.CallExpr) ast.Stmt {
		return &ast.ExprStmt{X: call(simSel("Go"), site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: block(&ast.ExprStmt{X: c})})}
	}
	if rw.tuple[n.Call] {
		log.Fatalf("%s: go f(g()) with several results is not supported", rw.sites[n])
	}
	if rw.builtin[n.Call] {
		e := rw.expr(n.Call)
		c, ok := e.(*ast.CallExpr)
		if !ok {
			log.Fatalf("%s: unsupported go statement", rw.sites[n])
		}
		return launch(c)
	}
	if _, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
		return &ast.ExprStmt{X: call(simSel("Go"), site, n.Call.Fun)}
	}
	var list []ast.Stmt
	f := rw.tmp("F")
	list = append(list, define(n.Call.Fun, f))
	c := &ast.CallExpr{Fun: id(f), Ellipsis: n.Call.Ellipsis}
	for _, a := range n.Call.Args {
		if rw.inline[a] {
			c.Args = append(c.Args, a)
			continue
		}
		v := rw.tmp("A")
		list = append(list, define(a, v))
		c.Args = append(c.Args, id(v))
	}
	return block(append(list, launch(c))...)
}

func (rw *rewriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	unreachable := &ast.ExprStmt{X: call(id("panic"), str("verif: unreachable"))}
	if len(n.Body.List) == 0 {
		return block(&ast.ExprStmt{X: call(simSel("BlockForever"))}, unreachable)
	}
	sel := rw.tmp("S")
	list := []ast.Stmt{define(call(simSel("NewSelect")), sel)}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	idx := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		cl := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = "true"
			cl.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
			cl.Body = cc.Body
			sw.Body.List = append(sw.Body.List, cl)
			continue
		}
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			list = append(list, &ast.ExprStmt{X: as(c.Chan, "CaseSend", id(sel), c.Value)})
		case *ast.ExprStmt:
			u, _ := isRecv(c.X)
			list = append(list, &ast.ExprStmt{X: as(u.X, "CaseRecv", id(sel))})
		case *ast.AssignStmt:
			u, _ := isRecv(c.Rhs[0])
			v := rw.tmp("C")
			list = append(list, define(as(u.X, "CaseRecv", id(sel)), v))
			get := "Get"
			if len(c.Lhs) == 2 {
				get = "Get2"
			}
			cl.Body = append(cl.Body, &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok,
				Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(v), Sel: id(get)})}})
		}
		cl.Body = append(cl.Body, cc.Body...)
		sw.Body.List = append(sw.Body.List, cl)
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{unreachable}})
	sw.Tag = call(&ast.SelectorExpr{X: id(sel), Sel: id("Do")}, id(hasDefault))
	list = append(list, rw.labelled(n, sw))
	return block(list...)
}
