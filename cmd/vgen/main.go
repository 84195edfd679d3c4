// vgen rewrites the library packages of /repo's working tree so that every
// source of nondeterminism goes through the simulation runtime, and writes a
// go build overlay. It works on any Go code: nothing in it knows gologix.
//
//	vgen -repo /repo -sim /verif/sim -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "")
	sim  = flag.String("sim", "/verif/sim", "")
	out  = flag.String("out", "", "")
)

const simPkg = "internal/vsim/"

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Name       string
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module,Name", ".")
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		fatal("go list:", err, eb.String())
	}
	var pkgs []pkgInfo
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		pkgs = append(pkgs, p)
		exports[p.ImportPath] = p.Export
	}
	root := pkgs[len(pkgs)-1]
	mod := root.Module.Path
	overlay := map[string]string{}
	os.MkdirAll(*out, 0o755)

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var resetPkgs []string
	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Module.Path != mod {
			continue
		}
		r := &rewriter{fset: fset, mod: mod, pkg: p, imp: imp, repl: map[ast.Expr]ast.Expr{}}
		files := r.run()
		for name, src := range files {
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, mod), "/", "_")+"_"+name)
			if old, err := os.ReadFile(dst); err != nil || !bytes.Equal(old, src) {
				if err := os.WriteFile(dst, src, 0o644); err != nil {
					fatal(err)
				}
			}
			overlay[filepath.Join(p.Dir, name)] = dst
		}
		resetPkgs = append(resetPkgs, p.ImportPath)
	}
	// virtual packages: the runtime and the harness
	filepath.Walk(*sim, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(*sim, path)
			overlay[filepath.Join(*repo, simPkg, rel)] = path
		}
		return nil
	})
	// reset of all rewritten packages in dependency order
	var b bytes.Buffer
	b.WriteString("//go:build go1.23\n\npackage harness\n\nimport (\n")
	for i, p := range resetPkgs {
		fmt.Fprintf(&b, "\tr%d %q\n", i, p)
	}
	b.WriteString(")\n\nfunc resetPackages() {\n")
	for i := range resetPkgs {
		fmt.Fprintf(&b, "\tr%d.SimReset()\n", i)
	}
	b.WriteString("}\n")
	dst := filepath.Join(*out, "zz_reset_harness.go")
	os.WriteFile(dst, b.Bytes(), 0o644)
	overlay[filepath.Join(*repo, simPkg, "harness", "zz_reset.go")] = dst

	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
}

type rewriter struct {
	fset *token.FileSet
	mod  string
	pkg  pkgInfo
	imp  types.Importer
	info *types.Info
	tp   *types.Package
	tmp  int

	useRT bool // current file needs simrt
	repl  map[ast.Expr]ast.Expr
}

func (r *rewriter) run() map[string][]byte {
	var files []*ast.File
	for _, f := range r.pkg.GoFiles {
		src, err := os.ReadFile(filepath.Join(r.pkg.Dir, f))
		if err != nil {
			fatal(err)
		}
		if bytes.Contains(src, []byte("//go:embed")) || bytes.Contains(src, []byte("//go:linkname")) {
			fatal("unsupported directive in", f)
		}
		af, err := parser.ParseFile(r.fset, filepath.Join(r.pkg.Dir, f), src, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		files = append(files, af)
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: r.imp, GoVersion: ""}
	tp, err := conf.Check(r.pkg.ImportPath, r.fset, files, r.info)
	if err != nil {
		fatal("type check:", err)
	}
	r.tp = tp

	fileOf := func(p token.Pos) int {
		for i, f := range files {
			if f.FileStart <= p && p <= f.FileEnd {
				return i
			}
		}
		return 0
	}
	// where package variables with initialisers live
	type initFn struct {
		file int
		name string
	}
	inited := map[types.Object]bool{}
	var order []initFn
	extra := make([][]ast.Decl, len(files))
	var resetBodies = make([][]struct {
		name string
		lhs  []string
		rhs  ast.Expr
	}, len(files))
	for i, in := range r.info.InitOrder {
		fi := fileOf(in.Rhs.Pos())
		name := fmt.Sprintf("simInitVar%d", i)
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			inited[v] = true
		}
		resetBodies[fi] = append(resetBodies[fi], struct {
			name string
			lhs  []string
			rhs  ast.Expr
		}{name, lhs, in.Rhs})
		order = append(order, initFn{fi, name})
	}
	_ = extra
	var zero []string
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && !inited[v] && n != "_" {
			zero = append(zero, n)
		}
	}
	sort.Strings(zero)

	res := map[string][]byte{}
	var userInits []string
	for i, f := range files {
		r.useRT = false
		// user init functions become named functions
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				n := fmt.Sprintf("simUserInit%d", len(userInits))
				fd.Name = ast.NewIdent(n)
				userInits = append(userInits, n)
			}
		}
		rb := resetBodies[i]
		r.file(f)
		for _, b := range rb {
			rhs := b.rhs
			if n, ok := r.repl[rhs]; ok {
				rhs = n
			}
			as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}
			for _, l := range b.lhs {
				as.Lhs = append(as.Lhs, ast.NewIdent(l))
			}
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(b.name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{as}}})
		}
		r.fixImports(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, r.fset, f); err != nil {
			fatal("print", r.pkg.GoFiles[i], err)
		}
		res[r.pkg.GoFiles[i]] = buf.Bytes()
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport \"%s/%ssimrt\"\n\nvar _ = simrt.Y\n\n", tp.Name(), r.mod, simPkg)
	b.WriteString("func init() {\n")
	for _, n := range userInits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n\n// SimReset puts all package state back to what it is at program start.\nfunc SimReset() {\n")
	for _, z := range zero {
		fmt.Fprintf(&b, "\tsimrt.Zero(&%s)\n", z)
	}
	for _, o := range order {
		fmt.Fprintf(&b, "\t%s()\n", o.name)
	}
	for _, n := range userInits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n")
	res["zz_sim_reset.go"] = b.Bytes()
	return res
}

// ------------------------------------------------------------------ imports

var pkgSwap = map[string]string{"math/rand": "simrt/mrand", "math/rand/v2": "simrt/mrand2", "crypto/rand": "simrt/crand"}

func (r *rewriter) fixImports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := r.importName(is, path)
			if sw, ok := pkgSwap[path]; ok {
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.mod + "/" + simPkg + sw)}
				is.Name = ast.NewIdent(name)
			}
			if name != "_" && name != "." && !used[name] {
				continue // no longer used after rewriting
			}
			specs = append(specs, is)
		}
		gd.Specs = specs
		if len(specs) > 1 && !gd.Lparen.IsValid() {
			gd.Lparen = gd.TokPos
		}
	}
	// drop empty import declarations
	var decls []ast.Decl
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && len(gd.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	if r.useRT {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.mod + "/" + simPkg + "simrt")}}}}
		decls = append([]ast.Decl{imp}, decls...)
	}
	f.Decls = decls
	f.Imports = nil
}

func (r *rewriter) importName(is *ast.ImportSpec, path string) string {
	if is.Name != nil {
		return is.Name.Name
	}
	for _, p := range r.tp.Imports() {
		if p.Path() == path {
			return p.Name()
		}
	}
	return path[strings.LastIndex(path, "/")+1:]
}

// ------------------------------------------------------------------ rewriting

func (r *rewriter) rt(name string) ast.Expr {
	r.useRT = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}
func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}
func (r *rewriter) y() ast.Stmt { return &ast.ExprStmt{X: r.call("Y")} }
func (r *rewriter) temp(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("sim%s%d", p, r.tmp))
}

var selSwap = map[string]map[string]bool{
	"sync": {"Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true, "Cond": true, "NewCond": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true},
	"time": {"Sleep": true, "After": true, "NewTimer": true, "NewTicker": true, "Tick": true, "AfterFunc": true},
	"net":  {"Dial": true, "DialTimeout": true, "Listen": true, "ListenPacket": true, "ListenUDP": true, "DialUDP": true, "Dialer": true, "ListenConfig": true},
}

func (r *rewriter) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// a type parameter whose core type is known
		if u, ok := tp.Underlying().(*types.Interface); ok && u.NumEmbeddeds() == 1 {
			if un, ok := u.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
		}
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) isMap(e ast.Expr) bool {
	if tv, ok := r.info.Types[e]; ok && tv.IsType() {
		return false
	}
	_, ok := under(r.typeOf(e)).(*types.Map)
	return ok
}
func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := under(r.typeOf(e)).(*types.Chan)
	return ok
}

func (r *rewriter) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil {
				r.fieldList(d.Recv)
			}
			r.expr(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			r.genDecl(d)
		}
	}
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			if s.Type != nil {
				s.Type = r.expr(s.Type)
			}
			if len(s.Values) == 1 && len(s.Names) == 2 {
				if u, ok := s.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					s.Values[0] = r.call("Recv2", r.expr(u.X))
					continue
				}
			}
			for i := range s.Values {
				o := s.Values[i]
				s.Values[i] = r.expr(o)
				r.repl[o] = s.Values[i]
			}
		case *ast.TypeSpec:
			if s.TypeParams != nil {
				r.fieldList(s.TypeParams)
			}
			s.Type = r.expr(s.Type)
		}
	}
}

func (r *rewriter) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// expr rewrites an expression in place and returns its replacement.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.FuncLit:
		r.expr(x.Type)
		r.block(x.Body)
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		r.exprs(x.Elts)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if p := r.pkgOf(x.X); p != "" {
			if m := selSwap[p]; m != nil && m[x.Sel.Name] {
				return r.rt(x.Sel.Name)
			}
			return x
		}
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		isMap := r.isMap(x.X)
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		if isMap {
			x.X = r.call("MR", x.X)
		}
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low = r.expr(x.Low)
		x.High = r.expr(x.High)
		x.Max = r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok {
				switch b.Name() {
				case "close":
					x.Args[0] = r.expr(x.Args[0])
					return r.call("Close", x.Args[0])
				case "delete":
					r.exprs(x.Args)
					x.Args[0] = r.call("MWI", x.Args[0])
					return x
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.KeyValueExpr:
		if _, ok := x.Key.(*ast.Ident); !ok {
			x.Key = r.expr(x.Key)
		}
		x.Value = r.expr(x.Value)
	case *ast.ArrayType:
		x.Len = r.expr(x.Len)
		x.Elt = r.expr(x.Elt)
	case *ast.StructType:
		for _, f := range x.Fields.List {
			embedded := len(f.Names) == 0
			f.Type = r.expr(f.Type)
			_ = embedded // sync.Mutex and simrt.Mutex give the same field name
		}
	case *ast.FuncType:
		r.fieldList(x.TypeParams)
		r.fieldList(x.Params)
		r.fieldList(x.Results)
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	default:
		fatal(fmt.Sprintf("unhandled expression %T", e))
	}
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		pre, ss, post := r.stmt(s)
		o = append(o, r.y())
		o = append(o, pre...)
		o = append(o, ss)
		o = append(o, post...)
	}
	return o
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func stripParen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// stmt rewrites one statement: statements to put before, the statement, statements after.
func (r *rewriter) stmt(s ast.Stmt) (pre []ast.Stmt, _ ast.Stmt, post []ast.Stmt) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return nil, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("Send", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}, nil
	case *ast.IncDecStmt:
		if st := r.rmw(x.X, token.ADD, nil, x.Tok == token.DEC); st != nil {
			return nil, st, nil
		}
		return r.mapWrite(x, []ast.Expr{x.X}, func() { x.X = r.lhs(x.X) })
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return nil, r.goStmt(x), nil
	case *ast.DeferStmt:
		e := r.expr(x.Call)
		if c, ok := e.(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BranchStmt, *ast.EmptyStmt, *ast.BadStmt:
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		r.ifStmt(x)
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			r.exprs(a.Rhs)
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		}
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.SelectStmt:
		return nil, r.selectStmt(x), nil
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.block(x.Body)
		x.Body.List = append([]ast.Stmt{r.y()}, x.Body.List...)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.LabeledStmt:
		p, st, po := r.stmt(x.Stmt)
		x.Stmt = st
		return p, x, po
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(gd)
		}
	default:
		fatal(fmt.Sprintf("unhandled statement %T", s))
	}
	return nil, s, nil
}

func (r *rewriter) ifStmt(x *ast.IfStmt) {
	x.Init = r.simple(x.Init)
	x.Cond = r.expr(x.Cond)
	r.block(x.Body)
	switch e := x.Else.(type) {
	case *ast.IfStmt:
		r.ifStmt(e)
	case *ast.BlockStmt:
		r.block(e)
	}
}

// simple rewrites a simple statement in a place where only one statement fits.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
			if u, ok := stripParen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return x
			}
		}
		r.exprs(x.Rhs)
		if x.Tok != token.DEFINE {
			for i := range x.Lhs {
				x.Lhs[i] = r.lhsInstant(x.Lhs[i])
			}
		}
		return x
	case *ast.IncDecStmt:
		x.X = r.lhsInstant(x.X)
		return x
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return x
	case *ast.SendStmt:
		_, st, _ := r.stmt(x)
		return st
	}
	return s
}

func (r *rewriter) mapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	ix, ok := stripParen(e).(*ast.IndexExpr)
	if ok && r.isMap(ix.X) {
		return ix, true
	}
	return nil, false
}

func (r *rewriter) lhsInstant(e ast.Expr) ast.Expr {
	if ix, ok := r.mapIndex(e); ok {
		ix.X = r.call("MWI", r.expr(ix.X))
		ix.Index = r.expr(ix.Index)
		return ix
	}
	return r.expr(e)
}

func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	if ix, ok := r.mapIndex(e); ok {
		ix.X = r.call("MW", r.expr(ix.X))
		ix.Index = r.expr(ix.Index)
		return ix
	}
	return r.expr(e)
}

func (r *rewriter) mapWrite(s ast.Stmt, lhs []ast.Expr, rewrite func()) (pre []ast.Stmt, _ ast.Stmt, post []ast.Stmt) {
	isW := false
	for _, e := range lhs {
		if _, ok := r.mapIndex(e); ok {
			isW = true
		}
	}
	rewrite()
	if isW {
		post = []ast.Stmt{&ast.ExprStmt{X: r.call("MWE")}}
	}
	return nil, s, post
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) assign(x *ast.AssignStmt) (pre []ast.Stmt, _ ast.Stmt, post []ast.Stmt) {
	// v, ok := <-ch
	if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
		if u, ok := stripParen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			x.Rhs[0] = r.call("Recv2", r.expr(u.X))
			if x.Tok != token.DEFINE {
				for i := range x.Lhs {
					x.Lhs[i] = r.lhsInstant(x.Lhs[i])
				}
			}
			return nil, x, nil
		}
	}
	if x.Tok == token.DEFINE {
		r.exprs(x.Rhs)
		return nil, x, nil
	}
	// map element write with a window
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		if ix, ok := r.mapIndex(x.Lhs[0]); ok {
			idxCall := hasCall(ix.Index) || hasCall(ix.X)
			if x.Tok == token.ASSIGN && !idxCall {
				mt := under(r.typeOf(ix.X)).(*types.Map)
				rhs := x.Rhs[0]
				call := hasCall(rhs)
				if call {
					rt := r.typeOf(rhs)
					if rt == nil || !types.Identical(rt, mt.Elem()) {
						if rt == nil || types.IsInterface(mt.Elem()) == false {
							x.Rhs[0] = r.expr(rhs)
							x.Lhs[0] = r.lhsInstant(x.Lhs[0])
							return nil, x, nil
						}
					}
					t := r.temp("v")
					a := &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(rhs)}}
					x.Rhs[0] = ast.NewIdent(t.Name)
					x.Lhs[0] = r.lhs(x.Lhs[0])
					return nil, &ast.BlockStmt{List: []ast.Stmt{a, x, &ast.ExprStmt{X: r.call("MWE")}}}, nil
				}
				x.Rhs[0] = r.expr(rhs)
				x.Lhs[0] = r.lhs(x.Lhs[0])
				return nil, x, []ast.Stmt{&ast.ExprStmt{X: r.call("MWE")}}
			}
			x.Rhs[0] = r.expr(x.Rhs[0])
			x.Lhs[0] = r.lhsInstant(x.Lhs[0])
			return nil, x, nil
		}
		if x.Tok != token.ASSIGN {
			if st := r.rmw(x.Lhs[0], opOf(x.Tok), x.Rhs[0], false); st != nil {
				return nil, st, nil
			}
		}
	}
	r.exprs(x.Rhs)
	for i := range x.Lhs {
		x.Lhs[i] = r.lhsInstant(x.Lhs[i])
	}
	return nil, x, nil
}

func opOf(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.AND_ASSIGN:
		return token.AND
	case token.OR_ASSIGN:
		return token.OR
	case token.XOR_ASSIGN:
		return token.XOR
	case token.SHL_ASSIGN:
		return token.SHL
	case token.SHR_ASSIGN:
		return token.SHR
	case token.AND_NOT_ASSIGN:
		return token.AND_NOT
	}
	return token.ILLEGAL
}

// rmw splits a read-modify-write of a shared location (field, package variable)
// into a load and a store with a preemption point between them.
func (r *rewriter) rmw(lhs ast.Expr, op token.Token, rhs ast.Expr, dec bool) ast.Stmt {
	l := stripParen(lhs)
	switch v := l.(type) {
	case *ast.SelectorExpr:
		if r.pkgOf(v.X) != "" {
			return nil
		}
		if sel := r.info.Selections[v]; sel == nil || sel.Kind() != types.FieldVal {
			return nil
		}
		// must be addressable: reject fields of map elements and call results
		if !addressable(r, v.X) {
			return nil
		}
	case *ast.Ident:
		o, ok := r.info.Uses[v].(*types.Var)
		if !ok || o.Parent() != r.tp.Scope() {
			return nil
		}
	default:
		return nil
	}
	if rhs != nil && hasCall(rhs) {
		return nil
	}
	p := r.temp("p")
	t := r.temp("t")
	var sum ast.Expr
	if rhs == nil {
		o := token.ADD
		if dec {
			o = token.SUB
		}
		sum = &ast.BinaryExpr{X: ast.NewIdent(t.Name), Op: o, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
	} else {
		sum = &ast.BinaryExpr{X: ast.NewIdent(t.Name), Op: op, Y: &ast.ParenExpr{X: r.expr(rhs)}}
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: r.expr(lhs)}}},
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.StarExpr{X: ast.NewIdent(p.Name)}}},
		r.y(),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: ast.NewIdent(p.Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{sum}},
	}}
}

func addressable(r *rewriter, e ast.Expr) bool {
	if t := r.typeOf(e); t != nil {
		if _, ok := under(t).(*types.Pointer); ok {
			return !hasCall(e)
		}
	}
	switch v := stripParen(e).(type) {
	case *ast.Ident:
		_, ok := r.info.Uses[v].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if r.pkgOf(v.X) != "" {
			return false
		}
		return addressable(r, v.X)
	case *ast.IndexExpr:
		if r.isMap(v.X) || hasCall(v) {
			return false
		}
		if _, ok := under(r.typeOf(v.X)).(*types.Slice); ok {
			return true
		}
		return addressable(r, v.X)
	case *ast.StarExpr:
		return !hasCall(v.X)
	}
	return false
}

func (r *rewriter) isConst(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	return tv.IsNil() || (tv.Value != nil && tv.Value.Kind() != constant.Unknown)
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		f := r.expr(fl)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: r.call("Go", f)}
		}
	}
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			e := r.expr(c)
			return &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}
		}
	}
	var pre []ast.Stmt
	fn := r.temp("f")
	var consts []bool
	for _, a := range c.Args {
		consts = append(consts, r.isConst(a))
	}
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}})
	var args []ast.Expr
	for i, a := range c.Args {
		if consts[i] {
			args = append(args, a)
			continue
		}
		t := r.temp("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		args = append(args, ast.NewIdent(t.Name))
	}
	call := &ast.CallExpr{Fun: ast.NewIdent(fn.Name), Args: args, Ellipsis: c.Ellipsis}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := "false"
	var names, vals []ast.Expr
	var callArgs []ast.Expr
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var head []ast.Stmt
		var label ast.Expr
		if cc.Comm == nil {
			hasDef = "true"
		} else {
			n := r.temp("c")
			names = append(names, n)
			callArgs = append(callArgs, ast.NewIdent(n.Name))
			label = &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}
			idx++
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				vals = append(vals, &ast.CallExpr{Fun: r.call("SC", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}})
			case *ast.ExprStmt:
				u := stripParen(cm.X).(*ast.UnaryExpr)
				vals = append(vals, r.call("RC", r.expr(u.X)))
			case *ast.AssignStmt:
				u := stripParen(cm.Rhs[0]).(*ast.UnaryExpr)
				vals = append(vals, r.call("RC", r.expr(u.X)))
				a := &ast.AssignStmt{Tok: cm.Tok}
				for i, l := range cm.Lhs {
					if isBlank(l) {
						continue
					}
					f := "V"
					if i == 1 {
						f = "OK"
					}
					a.Lhs = append(a.Lhs, l)
					a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: ast.NewIdent(n.Name), Sel: ast.NewIdent(f)})
				}
				if len(a.Lhs) > 0 {
					head = append(head, a)
				}
			}
		}
		cl := &ast.CaseClause{Body: append(head, r.stmts(cc.Body)...)}
		if label != nil {
			cl.List = []ast.Expr{label}
		}
		sw.Body.List = append(sw.Body.List, cl)
	}
	if hasDef == "false" {
		// keeps a final select a terminating statement
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"simrt: select"`}}}}}})
	}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(hasDef)}, callArgs...)...)
	return sw
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) (pre []ast.Stmt, _ ast.Stmt, post []ast.Stmt) {
	switch {
	case r.isChan(x.X):
		ch := r.temp("ch")
		ok := r.temp("ok")
		init := &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}
		var k ast.Expr = ast.NewIdent("_")
		if x.Key != nil {
			k = x.Key
		}
		var recv []ast.Stmt
		rc := r.call("Recv2", ast.NewIdent(ch.Name))
		if x.Tok == token.ASSIGN && !isBlank(k) {
			t := r.temp("v")
			recv = append(recv, &ast.AssignStmt{Lhs: []ast.Expr{t, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}})
			recv = append(recv, brk(ok.Name))
			recv = append(recv, &ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}})
		} else {
			recv = append(recv, &ast.AssignStmt{Lhs: []ast.Expr{k, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}})
			recv = append(recv, brk(ok.Name))
		}
		r.block(x.Body)
		// keep the body in its own block so that redeclarations stay legal
		body := append(recv, &ast.BlockStmt{List: x.Body.List})
		return nil, &ast.ForStmt{Init: init, Body: &ast.BlockStmt{List: body}}, nil
	case r.isMap(x.X) && x.Key != nil && !(isBlank(x.Key) && x.Value == nil):
		m := r.temp("m")
		k := r.temp("k")
		// for simm, simks := X, MapKeys(X) is not expressible as range: use an enclosing for over keys
		mx := r.expr(x.X)
		var head []ast.Stmt
		ok := r.temp("ok")
		v := r.temp("v")
		needV := x.Value != nil && !isBlank(x.Value)
		vn := ast.Expr(ast.NewIdent("_"))
		if needV {
			vn = v
		}
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{vn, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: r.call("MR", ast.NewIdent(m.Name)), Index: ast.NewIdent(k.Name)}}})
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !isBlank(x.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(k.Name)}})
		}
		if needV {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		}
		if x.Tok == token.DEFINE {
			// silence "declared and not used" exactly as a range clause does
			for _, e := range []ast.Expr{x.Key, x.Value} {
				if e != nil && !isBlank(e) {
					head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(e.(*ast.Ident).Name)}})
				}
			}
		}
		r.block(x.Body)
		body := append(head, &ast.BlockStmt{List: x.Body.List})
		pre = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{mx}}}
		return pre, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: r.call("MapKeys", ast.NewIdent(m.Name)), Body: &ast.BlockStmt{List: body}}, nil
	}
	if r.isMap(x.X) {
		x.X = r.call("MR", r.expr(x.X))
	} else {
		x.X = r.expr(x.X)
	}
	r.block(x.Body)
	x.Body.List = append([]ast.Stmt{r.y()}, x.Body.List...)
	return nil, x, nil
}

func brk(ok string) ast.Stmt {
	return &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
}
