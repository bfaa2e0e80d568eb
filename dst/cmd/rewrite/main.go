// rewrite copies a Go module into a scratch directory with every source of
// nondeterminism and every shared memory access routed through dst/sim.
//
//	rewrite [-nomem] -modfile go.mod REPO OUT
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var noMem = flag.Bool("nomem", false, "leave plain memory accesses alone")
var modFile = flag.String("modfile", "", "alternative go.mod")

// swaps: standard packages with a simulated stand-in.
var swaps = map[string][2]string{
	"sync":          {"dst/x/xsync", "sync"},
	"sync/atomic":   {"dst/x/xatomic", "atomic"},
	"time":          {"dst/x/xtime", "time"},
	"context":       {"dst/x/xcontext", "context"},
	"os":            {"dst/x/xos", "os"},
	"io/ioutil":     {"dst/x/xioutil", "ioutil"},
	"io":            {"dst/x/xio", "io"},
	"path/filepath": {"dst/x/xfilepath", "filepath"},
	"archive/zip":   {"dst/x/xzip", "zip"},
	"os/exec":       {"dst/x/xexec", "exec"},
	"math/rand":     {"dst/x/xrand", "rand"},
	"math/rand/v2":  {"dst/x/xrandv2", "rand"},
	"crypto/rand":   {"dst/x/xcrand", "rand"},
	"runtime":       {"dst/x/xruntime", "runtime"},
	"log":           {"dst/x/xlog", "log"},
	"syscall":       {"dst/x/xsyscall", "syscall"},
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Name       string
	Module     *struct{ Path, GoVersion, Dir string }
	Error      *struct{ Err string }
	ImportMap  map[string]string
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	repo, out := flag.Arg(0), flag.Arg(1)
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Name,Module,Error,ImportMap"}
	if *modFile != "" {
		args = append(args, "-modfile="+*modFile)
	}
	cmd := exec.Command("go", append(args, "./...")...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	js, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	exports := map[string]string{}
	var mine []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(js))
	modPath, goVer := "", ""
	abs, _ := filepath.Abs(repo)
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Dir == abs {
			if p.Error != nil {
				fatal("%s: %s", p.ImportPath, p.Error.Err)
			}
			modPath, goVer = p.Module.Path, p.Module.GoVersion
			if len(p.GoFiles) > 0 {
				if p.Export == "" {
					fatal("%s does not compile\n%s", p.ImportPath, errb.String())
				}
				mine = append(mine, p)
			}
		}
	}
	if len(mine) == 0 {
		fatal("no packages in %s", repo)
	}
	sort.Slice(mine, func(i, j int) bool { return mine[i].ImportPath < mine[j].ImportPath })
	rw := &rewriter{repo: abs, mod: modPath}
	for _, p := range mine {
		rw.pkg(p, exports, goVer, out)
	}
	// module file
	gv := goVer
	if gv == "" || versionLess(gv, "1.21") {
		gv = "1.21"
	}
	os.WriteFile(filepath.Join(out, "go.mod"), []byte(rewriteMod(filepath.Join(repo, "go.mod"), gv)), 0644)
	var b strings.Builder
	b.WriteString("// Code generated by rewrite. DO NOT EDIT.\n\npackage dstsites\n\nimport \"dst/sim\"\n\nfunc init() {\n\tsim.SetSites([]string{\n")
	for _, s := range rw.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t})\n}\n")
	os.MkdirAll(filepath.Join(out, "dstsites"), 0755)
	os.WriteFile(filepath.Join(out, "dstsites", "sites.go"), []byte(b.String()), 0644)
	fmt.Printf("rewrote %d packages, %d sites\n", len(mine), len(rw.sites))
}

func versionLess(a, b string) bool {
	pa, pb := strings.Split(a, "."), strings.Split(b, ".")
	for i := 0; i < 2; i++ {
		x, y := 0, 0
		if i < len(pa) {
			x, _ = strconv.Atoi(pa[i])
		}
		if i < len(pb) {
			y, _ = strconv.Atoi(pb[i])
		}
		if x != y {
			return x < y
		}
	}
	return false
}

func rewriteMod(file, gv string) string {
	data, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var out []string
	for _, l := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "go ") {
			l = "go " + gv
		}
		if strings.HasPrefix(t, "toolchain ") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

type rewriter struct {
	repo, mod string
	sites     []string
	fset      *token.FileSet
	info      *types.Info
	tpkg      *types.Package
	shared    map[*types.Var]bool
	captured  map[*types.Var]bool       // locals used in a function literal inside their function
	defs      map[*types.Var][]ast.Expr // what is assigned to each local; nil: something unknown
	params    map[*types.Var]bool
	freshVar  map[*types.Var]bool
	n         int
	curFile   string
	curFunc   string
	labelNext bool
}

func (rw *rewriter) pkg(p *pkgInfo, exports map[string]string, goVer, out string) {
	rw.fset = token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(rw.fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, a)
	}
	imp := importer.ForCompiler(rw.fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	rw.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp}
	if goVer != "" {
		conf.GoVersion = "go" + goVer
	}
	tp, err := conf.Check(p.ImportPath, rw.fset, files, rw.info)
	if err != nil {
		fatal("%v", err)
	}
	rw.tpkg = tp
	rw.findShared(files)

	rel, _ := filepath.Rel(rw.repo, p.Dir)
	dst := filepath.Join(out, rel)
	os.MkdirAll(dst, 0755)

	// user init functions, in order
	var resetBody []ast.Stmt
	withInit := map[*types.Var]bool{}
	for _, in := range rw.info.InitOrder {
		for _, v := range in.Lhs {
			withInit[v] = true
		}
	}
	scope := tp.Scope()
	for _, nm := range scope.Names() {
		if v, ok := scope.Lookup(nm).(*types.Var); ok && !withInit[v] && nm != "_" {
			resetBody = append(resetBody, &ast.ExprStmt{X: rw.call("Zero", addr(ast.NewIdent(nm)))})
		}
	}
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return 0
	}
	extra := make([][]ast.Decl, len(files))
	initExprs := make([]ast.Expr, len(rw.info.InitOrder))
	// the initialisers are rewritten with the files below; remember where
	type pending struct {
		file int
		lhs  []*types.Var
		name string
	}
	var pend []pending
	for i, in := range rw.info.InitOrder {
		name := fmt.Sprintf("dst_init_%d", i)
		pend = append(pend, pending{fileOf(in.Rhs.Pos()), in.Lhs, name})
		resetBody = append(resetBody, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}})
		initExprs[i] = in.Rhs
	}
	rewritten := map[ast.Expr]ast.Expr{}
	ninit := 0
	for fi, f := range files {
		rw.curFile, _ = filepath.Rel(rw.repo, rw.fset.Position(f.Package).Filename)
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					d.Name = ast.NewIdent(fmt.Sprintf("dst_userinit_%d", ninit))
					ninit++
					resetBody = append(resetBody, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(d.Name.Name)}})
				}
				rw.curFunc = d.Name.Name
				if d.Body != nil {
					d.Body.List = rw.stmts(d.Body.List)
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR {
						for i, v := range vs.Values {
							n := rw.rhs(v, len(vs.Names) > len(vs.Values))
							rewritten[v] = n
							vs.Values[i] = n
						}
					}
				}
			}
		}
		rw.imports(f)
		f.Comments = nil
		f.Doc = nil
		_ = fi
	}
	for i, pd := range pend {
		e := rewritten[initExprs[i]]
		if e == nil {
			continue
		}
		var lhs []ast.Expr
		for _, v := range pd.lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		extra[pd.file] = append(extra[pd.file], &ast.FuncDecl{Name: ast.NewIdent(pd.name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{e}}}}})
	}
	for fi, f := range files {
		var b bytes.Buffer
		cfg := printer.Config{Mode: printer.TabIndent, Tabwidth: 8}
		clearDocs(f)
		f.Decls = append(f.Decls, extra[fi]...)
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{sel("Yield")}}}})
		if err := cfg.Fprint(&b, token.NewFileSet(), f); err != nil {
			fatal("print: %v", err)
		}
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(rw.fset.Position(f.Package).Filename)), b.Bytes(), 0644); err != nil {
			fatal("%v", err)
		}
	}
	if len(resetBody) > 0 {
		reset := &ast.File{Name: ast.NewIdent(p.Name), Decls: []ast.Decl{
			&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("dst_sim"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"dst/sim"`}}}},
			&ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.ExprStmt{X: rw.call("OnReset", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: resetBody}})}}}},
		}}
		var b bytes.Buffer
		printer.Fprint(&b, token.NewFileSet(), reset)
		os.WriteFile(filepath.Join(dst, "zz_dst_reset.go"), b.Bytes(), 0644)
	}
}

func clearDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (rw *rewriter) imports(f *ast.File) {
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if w, ok := swaps[p]; ok {
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(w[0])}
			if s.Name == nil {
				s.Name = ast.NewIdent(w[1])
			}
		}
		s.EndPos = 0
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent("dst_sim"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"dst/sim"`}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

// findShared finds local variables that closures share and something changes,
// and locals whose address is taken.
func (rw *rewriter) findShared(files []*ast.File) {
	rw.shared = map[*types.Var]bool{}
	rw.findDefs(files)
	declIn := map[*types.Var]ast.Node{}
	captured := map[*types.Var]bool{}
	changed := map[*types.Var]bool{}
	root := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.Ident:
				v, _ := rw.info.Uses[x].(*types.Var)
				return v
			case *ast.SelectorExpr:
				s := rw.info.Selections[x]
				if s == nil || s.Kind() != types.FieldVal || s.Indirect() {
					return nil
				}
				e = x.X
			case *ast.IndexExpr:
				if t := rw.typ(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						e = x.X
						continue
					}
				}
				return nil
			default:
				return nil
			}
		}
	}
	for _, f := range files {
		var stack []ast.Node
		var funcs []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				top := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if len(funcs) > 0 && funcs[len(funcs)-1] == top {
					funcs = funcs[:len(funcs)-1]
				}
				return true
			}
			stack = append(stack, n)
			cur := func() ast.Node {
				if len(funcs) > 0 {
					return funcs[len(funcs)-1]
				}
				return nil
			}
			switch x := n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				funcs = append(funcs, n)
			case *ast.Ident:
				if v, ok := rw.info.Defs[x].(*types.Var); ok && v != nil {
					declIn[v] = cur()
				}
				if v, ok := rw.info.Uses[x].(*types.Var); ok && !v.IsField() && v.Pkg() == rw.tpkg {
					if d, ok := declIn[v]; ok && d != cur() {
						captured[v] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if v := root(l); v != nil {
						changed[v] = true
					}
				}
			case *ast.IncDecStmt:
				if v := root(x.X); v != nil {
					changed[v] = true
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if l == nil {
						continue
					}
					if id, ok := l.(*ast.Ident); ok {
						if v, ok := rw.info.Defs[id].(*types.Var); ok && v != nil {
							changed[v] = true
						}
					}
					if v := root(l); v != nil {
						changed[v] = true
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if v := root(x.X); v != nil {
						rw.shared[v] = true
					}
				}
			case *ast.SliceExpr:
				if t := rw.typ(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						if v := root(x.X); v != nil {
							rw.shared[v] = true
						}
					}
				}
			case *ast.SelectorExpr:
				if s := rw.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
					if sg, ok := s.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
						if _, ok := sg.Recv().Type().(*types.Pointer); ok && !s.Indirect() {
							if v := root(x.X); v != nil {
								if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
									rw.shared[v] = true
								}
							}
						}
					}
				}
			}
			return true
		})
	}
	// settled now: the expressions do not keep their types while they are rewritten
	rw.captured, rw.freshVar = captured, nil
	settled := map[*types.Var]bool{}
	for v, ds := range rw.defs {
		ok := true
		for _, d := range ds {
			ok = ok && d != nil && rw.fresh(d, map[*types.Var]bool{v: true})
		}
		settled[v] = ok && !rw.params[v] && !captured[v]
	}
	rw.freshVar = settled
	for v := range captured {
		if changed[v] {
			rw.shared[v] = true
		}
	}
}

func (rw *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := rw.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := rw.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

// under is the underlying type, or nil for type parameters.
func (rw *rewriter) under(e ast.Expr) types.Type {
	t := rw.typ(e)
	if t == nil {
		return nil
	}
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	return t.Underlying()
}

func (rw *rewriter) site(n ast.Node) ast.Expr {
	p := rw.fset.Position(n.Pos())
	rw.sites = append(rw.sites, fmt.Sprintf("%s:%d", rw.curFile, p.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(rw.sites) - 1)}
}

func (rw *rewriter) tmp(p string) *ast.Ident {
	rw.n++
	return ast.NewIdent(fmt.Sprintf("dst_%s%d", p, rw.n))
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("dst_sim"), Sel: ast.NewIdent(name)}
}

func (rw *rewriter) call(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: sel(fn), Args: args}
}

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, Args: args}
}

func addr(e ast.Expr) ast.Expr {
	if s, ok := e.(*ast.StarExpr); ok {
		return s.X
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.CallExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.BasicLit, *ast.ParenExpr, *ast.CompositeLit, *ast.TypeAssertExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// isShared says whether e is a location other tasks may reach.
func (rw *rewriter) isShared(e ast.Expr) bool {
	if *noMem {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return rw.isShared(x.X)
	case *ast.Ident:
		v, ok := rw.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == rw.tpkg.Scope() {
			return true
		}
		return rw.shared[v]
	case *ast.SelectorExpr:
		s := rw.info.Selections[x]
		if s == nil {
			v, ok := rw.info.Uses[x.Sel].(*types.Var)
			return ok && v.Pkg() != nil && (v.Pkg().Path() == rw.mod || strings.HasPrefix(v.Pkg().Path(), rw.mod+"/"))
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		return rw.isShared(x.X)
	case *ast.IndexExpr:
		switch t := rw.under(x.X).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = t
			return rw.isShared(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		_, isStruct := n.Underlying().(*types.Struct)
		return isStruct
	}
	return false
}

// expr rewrites an expression used as a value.
func (rw *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, known := rw.info.Types[e]
	if known && (tv.Value != nil || tv.IsType() || tv.IsBuiltin()) {
		return e
	}
	if rw.isShared(e) && known && tv.Addressable() && !isSyncType(tv.Type) {
		return rw.call("Ld", rw.site(e), addr(rw.lval(e)))
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: rw.expr(x.X)}
	case *ast.FuncLit:
		x.Body.List = rw.stmts(x.Body.List)
		return x
	case *ast.CompositeLit:
		rw.composite(x)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return method(rw.call("Rcv", rw.site(x), rw.expr(x.X)), "Recv")
		case token.AND:
			if c, ok := unparen(x.X).(*ast.CompositeLit); ok {
				rw.composite(c)
				return x
			}
			return &ast.UnaryExpr{Op: token.AND, X: rw.lval(x.X)}
		}
		x.X = rw.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = rw.expr(x.X), rw.expr(x.Y)
		return x
	case *ast.StarExpr:
		x.X = rw.expr(x.X)
		return x
	case *ast.SelectorExpr:
		return rw.selector(x)
	case *ast.IndexExpr:
		if _, ok := rw.under(x.X).(*types.Map); ok {
			m := rw.expr(x.X)
			k := rw.expr(x.Index)
			if *noMem {
				return &ast.IndexExpr{X: m, Index: k}
			}
			return &ast.IndexExpr{X: rw.call("MR", rw.site(x), m), Index: k}
		}
		if tx, ok := rw.info.Types[x.X]; ok && !tx.IsValue() {
			return x
		}
		if t := rw.typ(x.X); t != nil {
			if _, ok := t.(*types.Signature); ok {
				return x // instantiation
			}
		}
		if _, ok := rw.under(x.X).(*types.Array); ok && rw.info.Types[x.X].Addressable() {
			return &ast.IndexExpr{X: rw.lval(x.X), Index: rw.expr(x.Index)}
		}
		return &ast.IndexExpr{X: rw.expr(x.X), Index: rw.expr(x.Index)}
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Low: rw.expr(x.Low), High: rw.expr(x.High), Max: rw.expr(x.Max), Slice3: x.Slice3}
		if _, ok := rw.under(x.X).(*types.Array); ok {
			n.X = rw.lval(x.X)
		} else {
			n.X = rw.expr(x.X)
		}
		return n
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: rw.expr(x.X), Type: x.Type}
	case *ast.CallExpr:
		return rw.callExpr(x)
	case *ast.KeyValueExpr:
		x.Value = rw.expr(x.Value)
		return x
	}
	return e
}

func (rw *rewriter) composite(c *ast.CompositeLit) {
	isMap := false
	isStruct := false
	if t := rw.typ(c); t != nil {
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		_, isMap = u.(*types.Map)
		_, isStruct = u.(*types.Struct)
	}
	for i, el := range c.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if isMap {
				kv.Key = rw.elem(kv.Key)
			} else if !isStruct {
				kv.Key = rw.expr(kv.Key)
			}
			kv.Value = rw.elem(kv.Value)
			continue
		}
		c.Elts[i] = rw.elem(el)
	}
}

func (rw *rewriter) elem(e ast.Expr) ast.Expr {
	if c, ok := e.(*ast.CompositeLit); ok {
		rw.composite(c)
		return c
	}
	return rw.expr(e)
}

// selector rewrites a field selection that is not a shared location, a method
// value, or a qualified name.
func (rw *rewriter) selector(x *ast.SelectorExpr) ast.Expr {
	s := rw.info.Selections[x]
	if s == nil || s.Kind() == types.MethodExpr {
		return x
	}
	if s.Kind() == types.FieldVal {
		base := rw.info.Types[x.X]
		if base.Addressable() {
			return &ast.SelectorExpr{X: paren(rw.lvalBase(x.X)), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: paren(rw.expr(x.X)), Sel: x.Sel}
	}
	// method
	_, basePtr := rw.under(x.X).(*types.Pointer)
	_, baseIface := rw.under(x.X).(*types.Interface)
	if basePtr || baseIface || !rw.info.Types[x.X].Addressable() {
		return &ast.SelectorExpr{X: paren(rw.expr(x.X)), Sel: x.Sel}
	}
	sg := s.Obj().Type().(*types.Signature)
	ptrRecv := false
	if sg.Recv() != nil {
		_, ptrRecv = sg.Recv().Type().(*types.Pointer)
	}
	if ptrRecv || len(s.Index()) > 1 {
		return &ast.SelectorExpr{X: paren(rw.lval(x.X)), Sel: x.Sel}
	}
	return &ast.SelectorExpr{X: paren(rw.expr(x.X)), Sel: x.Sel}
}

// lvalBase is the base of a selection or index: a pointer is a value, anything
// else a location.
func (rw *rewriter) lvalBase(e ast.Expr) ast.Expr {
	if _, ok := rw.under(e).(*types.Pointer); ok {
		return rw.expr(e)
	}
	if !rw.info.Types[e].Addressable() {
		return rw.expr(e)
	}
	return rw.lval(e)
}

// lval rewrites the path to a location without reading the location itself.
func (rw *rewriter) lval(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: rw.lval(x.X)}
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		s := rw.info.Selections[x]
		if s == nil {
			return x
		}
		return &ast.SelectorExpr{X: paren(rw.lvalBase(x.X)), Sel: x.Sel}
	case *ast.IndexExpr:
		switch rw.under(x.X).(type) {
		case *types.Array:
			return &ast.IndexExpr{X: paren(rw.lval(x.X)), Index: rw.expr(x.Index)}
		case *types.Map:
			return &ast.IndexExpr{X: paren(rw.expr(x.X)), Index: rw.expr(x.Index)}
		}
		return &ast.IndexExpr{X: paren(rw.expr(x.X)), Index: rw.expr(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: rw.expr(x.X)}
	}
	return rw.expr(e)
}

func (rw *rewriter) callExpr(c *ast.CallExpr) ast.Expr {
	// conversion
	if tv, ok := rw.info.Types[c.Fun]; ok && tv.IsType() {
		bytes := len(c.Args) == 1 && !*noMem && rw.isText(tv.Type) && rw.outside(c.Args[0])
		for i := range c.Args {
			site := c.Args[i]
			c.Args[i] = rw.expr(c.Args[i])
			if bytes {
				c.Args[i] = rw.call("Chars", rw.site(site), c.Args[i])
			}
		}
		return c
	}
	if tv, ok := rw.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		return rw.builtin(c)
	}
	n := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if c.Ellipsis != token.NoPos {
		n.Ellipsis = 1
	}
	pkg, name := rw.library(c)
	via := -2 // -1: the receiver goes to library code and others may have it too; 0 up: this argument does
	if pkg != "" {
		if f, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && rw.info.Selections[f] != nil && rw.outsideRecv(f) {
			via = -1
		}
		for i, a := range c.Args {
			if via == -2 && rw.outside(a) {
				via = i
			}
		}
	}
	// library objects that goroutines must not use at the same time
	kind := "Via"
	if pkg != "" {
		switch name {
		case "Len", "Cap", "String", "Bytes", "Size", "BlockSize", "Sum", "Sum32", "Sum64", "Available", "Error", "ReadAt", "InputOffset", "FieldPos", "Buffered":
			kind = "ViaRead"
		}
		if via >= 0 {
			switch pkg + "." + name {
			case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
				kind = "Via"
			default:
				kind = "Pass"
			}
		}
	}
	args := c.Args
	defer func() {
		if via == -1 {
			if f, ok := unparen(n.Fun).(*ast.SelectorExpr); ok {
				x := f.X
				if _, isPtr := rw.under(unparen(c.Fun).(*ast.SelectorExpr).X).(*types.Pointer); !isPtr {
					if _, isIface := rw.under(unparen(c.Fun).(*ast.SelectorExpr).X).(*types.Interface); !isIface {
						x = addr(x)
					}
				}
				n.Fun = &ast.SelectorExpr{X: rw.call(kind, rw.site(c), x), Sel: f.Sel}
			}
		} else if via >= 0 {
			n.Args[via] = rw.call(kind, rw.site(args[via]), n.Args[via])
		}
	}()
	fun := c.Fun
	switch f := unparen(fun).(type) {
	case *ast.Ident:
		n.Fun = rw.expr(fun)
	case *ast.SelectorExpr:
		_ = f
		n.Fun = rw.expr(fun)
	default:
		n.Fun = paren(rw.expr(fun))
	}
	for _, a := range c.Args {
		n.Args = append(n.Args, rw.expr(a))
	}
	return n
}

// library is the package and name of the standard library function or method
// that is called, if it is one that runs as it is.
func (rw *rewriter) library(c *ast.CallExpr) (pkg, name string) {
	if *noMem {
		return "", ""
	}
	f, ok := unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	fn, ok := rw.info.Uses[f.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil {
		return "", ""
	}
	p := fn.Pkg().Path()
	first, _, _ := strings.Cut(p, "/")
	if strings.Contains(first, ".") || p == rw.mod || strings.HasPrefix(p, rw.mod+"/") || p == "unsafe" {
		return "", ""
	}
	if _, ok := swaps[p]; ok && p != "io" {
		return "", ""
	}
	return p, fn.Name()
}

// refs says whether values of the type lead to memory that others may use.
func refs(t types.Type) bool {
	if t == nil {
		return false
	}
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil { // error
			return false
		}
		switch o.Pkg().Path() + "." + o.Name() {
		case "context.Context", "reflect.Type":
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Interface:
		return true
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "regexp.Regexp", "encoding/base64.Encoding", "time.Location":
				return false
			}
		}
		return true
	}
	return false
}

func (rw *rewriter) isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// outside says whether the expression may lead to memory that other goroutines
// use, as opposed to memory made within this function.
func (rw *rewriter) outside(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	if !ok || !tv.IsValue() || tv.Value != nil || tv.IsNil() || !refs(tv.Type) {
		return false
	}
	return !rw.fresh(e, map[*types.Var]bool{})
}

// outsideRecv is outside for the receiver of a method call.
func (rw *rewriter) outsideRecv(f *ast.SelectorExpr) bool {
	s := rw.info.Selections[f]
	if s.Kind() != types.MethodVal {
		return false
	}
	sg := s.Obj().Type().(*types.Signature)
	if sg.Recv() == nil {
		return false
	}
	t := rw.typ(f.X)
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return rw.outside(f.X)
	}
	_, ptr := sg.Recv().Type().(*types.Pointer)
	return ptr && rw.info.Types[f.X].Addressable() && !isSyncType(t) && !rw.fresh(f.X, map[*types.Var]bool{})
}

// fresh says whether the value or location was made within this function.
func (rw *rewriter) fresh(e ast.Expr, seen map[*types.Var]bool) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return rw.fresh(x.X, seen)
	case *ast.BasicLit, *ast.CompositeLit, *ast.FuncLit, *ast.BinaryExpr:
		return true
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			return rw.fresh(x.X, seen)
		case token.ARROW:
			return false
		}
		return true
	case *ast.Ident:
		o := rw.info.ObjectOf(x)
		if _, ok := o.(*types.Nil); ok {
			return true
		}
		v, ok := o.(*types.Var)
		if !ok {
			return true
		}
		if v.Parent() == rw.tpkg.Scope() || v.Pkg() != rw.tpkg || rw.params[v] || rw.captured[v] {
			return false
		}
		if r, ok := rw.freshVar[v]; ok {
			return r
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, d := range rw.defs[v] {
			if d == nil || !rw.fresh(d, seen) {
				return false
			}
		}
		return true
	case *ast.SelectorExpr:
		s := rw.info.Selections[x]
		if s == nil {
			_, isVar := rw.info.Uses[x.Sel].(*types.Var)
			return !isVar
		}
		if s.Kind() != types.FieldVal {
			return true
		}
		return rw.fresh(x.X, seen)
	case *ast.IndexExpr:
		return rw.fresh(x.X, seen)
	case *ast.SliceExpr:
		return rw.fresh(x.X, seen)
	case *ast.StarExpr:
		return rw.fresh(x.X, seen)
	case *ast.TypeAssertExpr:
		return rw.fresh(x.X, seen)
	case *ast.CallExpr:
		tv := rw.info.Types[x.Fun]
		if tv.IsType() {
			return len(x.Args) != 1 || rw.info.Types[x.Args[0]].Value != nil || !refs(rw.typ(x.Args[0])) || rw.fresh(x.Args[0], seen)
		}
		if tv.IsBuiltin() {
			return builtinName(x.Fun) != "append" || len(x.Args) == 0 || rw.fresh(x.Args[0], seen)
		}
		f, ok := unparen(x.Fun).(*ast.SelectorExpr)
		if !ok {
			return false
		}
		fn, ok := rw.info.Uses[f.Sel].(*types.Func)
		if !ok || fn.Pkg() == nil {
			return ok
		}
		p := fn.Pkg().Path()
		if p == rw.mod || strings.HasPrefix(p, rw.mod+"/") || p == "sync" || p == "sync/atomic" {
			return false
		}
		if rw.info.Selections[f] != nil && refs(rw.typ(x)) {
			switch fn.Name() {
			case "Sum":
				return true
			}
			return rw.fresh(f.X, seen)
		}
		return true
	}
	return false
}

// findDefs collects what is assigned to every local variable.
func (rw *rewriter) findDefs(files []*ast.File) {
	rw.defs, rw.params = map[*types.Var][]ast.Expr{}, map[*types.Var]bool{}
	def := func(l ast.Expr, r ast.Expr) {
		if id, ok := unparen(l).(*ast.Ident); ok {
			if v, ok := rw.info.ObjectOf(id).(*types.Var); ok {
				rw.defs[v] = append(rw.defs[v], r)
			}
		}
	}
	fields := func(l *ast.FieldList) {
		if l == nil {
			return
		}
		for _, f := range l.List {
			for _, n := range f.Names {
				if v, ok := rw.info.Defs[n].(*types.Var); ok {
					rw.params[v] = true
				}
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fields(x.Recv)
				fields(x.Type.Params)
			case *ast.FuncLit:
				fields(x.Type.Params)
			case *ast.AssignStmt:
				for i, l := range x.Lhs {
					if len(x.Rhs) == len(x.Lhs) {
						def(l, x.Rhs[i])
					} else {
						def(l, x.Rhs[0])
					}
				}
			case *ast.ValueSpec:
				for i, l := range x.Names {
					if len(x.Values) == len(x.Names) {
						def(l, x.Values[i])
					} else if len(x.Values) == 1 {
						def(l, x.Values[0])
					}
				}
			case *ast.RangeStmt:
				if x.Key != nil {
					def(x.Key, x.X)
				}
				if x.Value != nil {
					def(x.Value, x.X)
				}
			case *ast.TypeSwitchStmt:
				var from ast.Expr
				if a, ok := x.Assign.(*ast.AssignStmt); ok {
					from = a.Rhs[0]
				}
				for _, c := range x.Body.List {
					if v, ok := rw.info.Implicits[c].(*types.Var); ok {
						rw.defs[v] = append(rw.defs[v], from)
					}
				}
			}
			return true
		})
	}
}

func builtinName(e ast.Expr) string {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return "unsafe." + x.Sel.Name
	}
	return ""
}

func (rw *rewriter) builtin(c *ast.CallExpr) ast.Expr {
	name := builtinName(c.Fun)
	args := func() []ast.Expr {
		var out []ast.Expr
		for _, a := range c.Args {
			out = append(out, rw.expr(a))
		}
		return out
	}
	plain := func() ast.Expr {
		n := &ast.CallExpr{Fun: c.Fun, Args: args()}
		if c.Ellipsis != token.NoPos {
			n.Ellipsis = 1
		}
		return n
	}
	switch name {
	case "len", "cap":
		a := c.Args[0]
		switch rw.under(a).(type) {
		case *types.Chan:
			if name == "len" {
				return rw.call("Len", rw.site(c), rw.expr(a))
			}
		case *types.Map:
			if !*noMem {
				return &ast.CallExpr{Fun: c.Fun, Args: []ast.Expr{rw.call("MR", rw.site(c), rw.expr(a))}}
			}
		case *types.Array:
			return &ast.CallExpr{Fun: c.Fun, Args: []ast.Expr{rw.lvalBase(a)}}
		}
		return plain()
	case "close":
		return rw.call("Close", rw.site(c), rw.expr(c.Args[0]))
	case "delete":
		if _, ok := rw.under(c.Args[0]).(*types.Map); ok && !*noMem {
			return method(rw.call("MP", rw.site(c), rw.expr(c.Args[0])), "Delete", rw.expr(c.Args[1]))
		}
		return plain()
	case "clear":
		if _, ok := rw.under(c.Args[0]).(*types.Map); ok && !*noMem {
			return method(rw.call("MP", rw.site(c), rw.expr(c.Args[0])), "Clear")
		}
		return plain()
	case "copy":
		if *noMem {
			return plain()
		}
		d, s := rw.under(c.Args[0]), rw.under(c.Args[1])
		if _, ok := d.(*types.Slice); !ok {
			return plain()
		}
		switch b := s.(type) {
		case *types.Slice:
			return rw.call("Copy", rw.site(c), rw.expr(c.Args[0]), rw.expr(c.Args[1]))
		case *types.Basic:
			if b.Info()&types.IsString != 0 {
				return rw.call("CopyStr", rw.site(c), rw.expr(c.Args[0]), rw.expr(c.Args[1]))
			}
		}
		return plain()
	case "append":
		if *noMem || len(c.Args) < 2 {
			return plain()
		}
		if _, ok := rw.under(c.Args[0]).(*types.Slice); !ok {
			return plain()
		}
		if c.Ellipsis != token.NoPos {
			if b, ok := rw.under(c.Args[1]).(*types.Basic); ok {
				if b.Info()&types.IsString != 0 {
					return rw.call("AppStr", rw.site(c), rw.expr(c.Args[0]), rw.expr(c.Args[1]))
				}
				return plain()
			}
			n := method(rw.call("A", rw.site(c), rw.expr(c.Args[0])), "App", rw.expr(c.Args[1]))
			n.Ellipsis = 1
			return n
		}
		var rest []ast.Expr
		for _, a := range c.Args[1:] {
			rest = append(rest, rw.expr(a))
		}
		return method(rw.call("A", rw.site(c), rw.expr(c.Args[0])), "App", rest...)
	case "make", "new":
		n := &ast.CallExpr{Fun: c.Fun, Args: []ast.Expr{c.Args[0]}}
		for _, a := range c.Args[1:] {
			n.Args = append(n.Args, rw.expr(a))
		}
		return n
	case "unsafe.Sizeof", "unsafe.Offsetof", "unsafe.Alignof":
		return c
	}
	return plain()
}

// rhs rewrites a right-hand side; two says a comma-ok form is wanted.
func (rw *rewriter) rhs(e ast.Expr, two bool) ast.Expr {
	if two {
		if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return method(rw.call("Rcv", rw.site(u), rw.expr(u.X)), "Recv2")
		}
		// a comma-ok index or type assertion keeps its form
		return rw.expr(unparen(e))
	}
	return rw.expr(e)
}

func (rw *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, rw.stmt(s)...)
	}
	return out
}

func (rw *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: rw.stmts(b.List)}
}

// one rewrites a statement where only one is allowed.
func (rw *rewriter) one(s ast.Stmt) ast.Stmt {
	l := rw.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

// simple rewrites a simple statement (init or post position).
func (rw *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := rw.stmt(s)
	if len(l) == 1 {
		if _, isBlock := l[0].(*ast.BlockStmt); !isBlock {
			return l[0]
		}
	}
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}}}}
}

func (rw *rewriter) loopMark(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: rw.call("Loop", rw.site(n))}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (rw *rewriter) isMapIndex(e ast.Expr) *ast.IndexExpr {
	if x, ok := unparen(e).(*ast.IndexExpr); ok {
		if _, ok := rw.under(x.X).(*types.Map); ok {
			return x
		}
	}
	return nil
}

func (rw *rewriter) wrapped(e ast.Expr) bool {
	return !*noMem && !isBlank(e) && (rw.isMapIndex(e) != nil || rw.isShared(e))
}

func (rw *rewriter) isConstOrNil(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

// assign builds lhs = rhs; the right-hand sides are already rewritten.
func (rw *rewriter) assign(lhs []ast.Expr, rhs []ast.Expr, inline func(i int) bool) []ast.Stmt {
	any := false
	for _, l := range lhs {
		if rw.wrapped(l) {
			any = true
		}
	}
	if !any {
		var n []ast.Expr
		for _, l := range lhs {
			if isBlank(l) {
				n = append(n, l)
			} else {
				n = append(n, rw.lval(l))
			}
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: n, Tok: token.ASSIGN, Rhs: rhs}}
	}
	if len(lhs) == 1 {
		l := lhs[0]
		if m := rw.isMapIndex(l); m != nil {
			return []ast.Stmt{&ast.ExprStmt{X: method(rw.call("MP", rw.site(l), rw.expr(m.X)), "Set", rw.expr(m.Index), rhs[0])}}
		}
		return []ast.Stmt{&ast.ExprStmt{X: method(rw.call("W", rw.site(l), addr(rw.lval(l))), "Set", rhs[0])}}
	}
	// several: locations first, then values, then the stores
	var pre, post []ast.Stmt
	var tl []ast.Expr
	var tr []ast.Expr
	define := false
	for i, l := range lhs {
		if isBlank(l) {
			if len(rhs) == len(lhs) && inline(i) {
				continue
			}
			tl = append(tl, ast.NewIdent("_"))
			if len(rhs) == len(lhs) {
				tr = append(tr, rhs[i])
			}
			continue
		}
		var v ast.Expr
		if len(rhs) == len(lhs) && inline(i) {
			v = rhs[i]
		} else {
			t := rw.tmp("t")
			tl = append(tl, t)
			define = true
			v = t
			if len(rhs) == len(lhs) {
				tr = append(tr, rhs[i])
			}
		}
		if m := rw.isMapIndex(l); m != nil && !*noMem {
			w, k := rw.tmp("w"), rw.tmp("k")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{w, k}, Tok: token.DEFINE,
				Rhs: []ast.Expr{rw.call("MP", rw.site(l), rw.expr(m.X)), rw.expr(m.Index)}})
			post = append(post, &ast.ExprStmt{X: method(w, "Set", k, v)})
		} else if rw.isShared(l) {
			w := rw.tmp("w")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{w}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.call("W", rw.site(l), addr(rw.lval(l)))}})
			post = append(post, &ast.ExprStmt{X: method(w, "Set", v)})
		} else {
			post = append(post, &ast.AssignStmt{Lhs: []ast.Expr{rw.lval(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
	}
	if len(rhs) != len(lhs) {
		tr = rhs
	}
	if len(tl) > 0 {
		tok := token.ASSIGN
		if define {
			tok = token.DEFINE
		}
		pre = append(pre, &ast.AssignStmt{Lhs: tl, Tok: tok, Rhs: tr})
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, post...)}}
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// opAssign builds l op= r for a wrapped location; r is already rewritten.
func (rw *rewriter) opAssign(l ast.Expr, op token.Token, r ast.Expr) []ast.Stmt {
	if m := rw.isMapIndex(l); m != nil {
		mm, k := rw.tmp("m"), rw.tmp("k")
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{mm, k}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(m.X), rw.keyConv(m)}},
			&ast.ExprStmt{X: method(rw.call("MP", rw.site(l), mm), "Set", k,
				&ast.BinaryExpr{X: &ast.IndexExpr{X: rw.call("MR", rw.site(l), mm), Index: k}, Op: op, Y: paren(r)})},
		}}}
	}
	p := rw.tmp("p")
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{addr(rw.lval(l))}},
		&ast.ExprStmt{X: method(rw.call("W", rw.site(l), p), "Set",
			&ast.BinaryExpr{X: rw.call("Ld", rw.site(l), p), Op: op, Y: paren(r)})},
	}}}
}

// keyConv is a map key with its type fixed when it is an untyped constant.
func (rw *rewriter) keyConv(m *ast.IndexExpr) ast.Expr {
	k := rw.expr(m.Index)
	if rw.isConstOrNil(m.Index) {
		return rw.call("Key", rw.expr(m.X), k)
	}
	return k
}

func (rw *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.EmptyStmt:
		return []ast.Stmt{&ast.EmptyStmt{Implicit: false}}
	case *ast.ExprStmt:
		return []ast.Stmt{&ast.ExprStmt{X: rw.expr(x.X)}}
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: method(rw.call("Snd", rw.site(x), rw.expr(x.Chan)), "Send", rw.expr(x.Value))}}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if rw.wrapped(x.X) {
			return rw.opAssign(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		return []ast.Stmt{&ast.IncDecStmt{X: rw.lval(x.X), Tok: x.Tok}}
	case *ast.AssignStmt:
		return rw.assignStmt(x)
	case *ast.GoStmt:
		return rw.goStmt(x)
	case *ast.DeferStmt:
		c := rw.expr(x.Call)
		call, ok := c.(*ast.CallExpr)
		if !ok {
			call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}}
		}
		return []ast.Stmt{&ast.DeferStmt{Call: call}}
	case *ast.ReturnStmt:
		n := &ast.ReturnStmt{}
		for _, r := range x.Results {
			n.Results = append(n.Results, rw.expr(r))
		}
		return []ast.Stmt{n}
	case *ast.BranchStmt:
		if x.Tok == token.GOTO {
			return []ast.Stmt{rw.loopMark(x), x}
		}
		return []ast.Stmt{x}
	case *ast.BlockStmt:
		return []ast.Stmt{rw.block(x)}
	case *ast.IfStmt:
		n := &ast.IfStmt{Init: rw.simple(x.Init), Cond: rw.expr(x.Cond), Body: rw.block(x.Body)}
		if x.Else != nil {
			n.Else = rw.one(x.Else)
		}
		return []ast.Stmt{n}
	case *ast.CaseClause:
		n := &ast.CaseClause{}
		for _, e := range x.List {
			n.List = append(n.List, rw.expr(e))
		}
		n.Body = rw.stmts(x.Body)
		return []ast.Stmt{n}
	case *ast.SwitchStmt:
		return []ast.Stmt{&ast.SwitchStmt{Init: rw.simple(x.Init), Tag: rw.expr(x.Tag), Body: rw.block(x.Body)}}
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: rw.simple(x.Init), Body: rw.block(x.Body)}
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			n.Assign = &ast.ExprStmt{X: &ast.TypeAssertExpr{X: paren(rw.expr(unparen(a.X).(*ast.TypeAssertExpr).X))}}
		case *ast.AssignStmt:
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: paren(rw.expr(unparen(a.Rhs[0]).(*ast.TypeAssertExpr).X))}}}
		}
		return []ast.Stmt{n}
	case *ast.SelectStmt:
		return rw.selectStmt(x)
	case *ast.ForStmt:
		n := &ast.ForStmt{Init: rw.simple(x.Init), Cond: rw.expr(x.Cond), Post: rw.simple(x.Post)}
		n.Body = &ast.BlockStmt{List: append([]ast.Stmt{rw.loopMark(x)}, rw.stmts(x.Body.List)...)}
		return []ast.Stmt{n}
	case *ast.RangeStmt:
		return rw.rangeStmt(x)
	case *ast.LabeledStmt:
		return []ast.Stmt{&ast.LabeledStmt{Label: x.Label, Stmt: rw.one(x.Stmt)}}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, v := range vs.Values {
					vs.Values[i] = rw.rhs(v, len(vs.Names) > len(vs.Values))
				}
			}
		}
		return []ast.Stmt{x}
	}
	return []ast.Stmt{s}
}

func (rw *rewriter) assignStmt(x *ast.AssignStmt) []ast.Stmt {
	two := len(x.Lhs) == 2 && len(x.Rhs) == 1
	switch x.Tok {
	case token.DEFINE:
		n := &ast.AssignStmt{Lhs: x.Lhs, Tok: token.DEFINE}
		for _, r := range x.Rhs {
			n.Rhs = append(n.Rhs, rw.rhs(r, two))
		}
		return []ast.Stmt{n}
	case token.ASSIGN:
		var rhs []ast.Expr
		inline := make([]bool, len(x.Rhs))
		for i, r := range x.Rhs {
			inline[i] = rw.isConstOrNil(r)
			rhs = append(rhs, rw.rhs(r, two))
		}
		return rw.assign(x.Lhs, rhs, func(i int) bool { return inline[i] })
	}
	op := opOf[x.Tok]
	r := rw.expr(x.Rhs[0])
	if rw.wrapped(x.Lhs[0]) {
		return rw.opAssign(x.Lhs[0], op, r)
	}
	return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{rw.lval(x.Lhs[0])}, Tok: x.Tok, Rhs: []ast.Expr{r}}}
}

func (rw *rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	// go func() {...}() without arguments
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		return []ast.Stmt{&ast.ExprStmt{X: rw.call("Go", rw.expr(fl))}}
	}
	var pre []ast.Stmt
	if tv, ok := rw.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		// go close(ch) and the like: only the arguments are evaluated now
		var names []ast.Expr
		for i, a := range c.Args {
			if rw.isConstOrNil(a) {
				continue
			}
			t := rw.tmp("a")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(a)}})
			rw.info.Types[t] = rw.info.Types[a]
			c.Args[i] = t
			names = append(names, t)
		}
		_ = names
		call := rw.builtin(c)
		body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: rw.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})}}
	}
	n := &ast.CallExpr{}
	if c.Ellipsis != token.NoPos {
		n.Ellipsis = 1
	}
	inlineFun := false
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		_, inlineFun = rw.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if s := rw.info.Selections[f]; s == nil {
			_, inlineFun = rw.info.Uses[f.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inlineFun = true
	}
	if inlineFun {
		n.Fun = c.Fun
	} else {
		t := rw.tmp("f")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(c.Fun)}})
		n.Fun = t
	}
	if len(c.Args) == 1 {
		if tup, ok := rw.typ(c.Args[0]).(*types.Tuple); ok {
			var l []ast.Expr
			for i := 0; i < tup.Len(); i++ {
				l = append(l, rw.tmp("a"))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(c.Args[0])}})
			n.Args = l
		}
	}
	if n.Args == nil {
		for _, a := range c.Args {
			if rw.isConstOrNil(a) {
				n.Args = append(n.Args, a)
				continue
			}
			t := rw.tmp("a")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(a)}})
			n.Args = append(n.Args, t)
		}
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: n}}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: rw.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})}}
}

func (rw *rewriter) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	var lhs, rhs, names []ast.Expr
	var clauses []ast.Stmt
	hasDef := false
	idx := 0
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			clauses = append(clauses, &ast.CaseClause{Body: rw.stmts(cc.Body)})
			continue
		}
		name := rw.tmp("c")
		lhs = append(lhs, name)
		names = append(names, name)
		cl := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}}
		idx++
		recv := func(e ast.Expr) ast.Expr { return unparen(e).(*ast.UnaryExpr).X }
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, method(rw.call("SendCase", rw.expr(c.Chan)), "Val", rw.expr(c.Value)))
		case *ast.ExprStmt:
			rhs = append(rhs, rw.call("RecvCase", rw.expr(recv(c.X))))
		case *ast.AssignStmt:
			rhs = append(rhs, rw.call("RecvCase", rw.expr(recv(c.Rhs[0]))))
			get := "Get"
			if len(c.Lhs) == 2 {
				get = "Get2"
			}
			v := method(name, get)
			allBlank := true
			for _, l := range c.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				break
			}
			if c.Tok == token.DEFINE {
				cl.Body = append(cl.Body, &ast.AssignStmt{Lhs: c.Lhs, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
			} else {
				cl.Body = append(cl.Body, rw.assign(c.Lhs, []ast.Expr{v}, func(int) bool { return false })...)
			}
		}
		cl.Body = append(cl.Body, rw.stmts(cc.Body)...)
		clauses = append(clauses, cl)
	}
	def := ast.NewIdent("false")
	if hasDef {
		def = ast.NewIdent("true")
	}
	selCall := rw.call("Select", append([]ast.Expr{rw.site(x), def}, names...)...)
	if !hasDef {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw := &ast.SwitchStmt{Tag: selCall, Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return []ast.Stmt{sw}
}

func (rw *rewriter) rangeStmt(x *ast.RangeStmt) []ast.Stmt {
	switch rw.under(x.X).(type) {
	case *types.Chan, *types.Map:
	default:
		n := &ast.RangeStmt{Key: x.Key, Value: x.Value, Tok: x.Tok}
		if x.Tok == token.ASSIGN {
			if x.Key != nil && !isBlank(x.Key) {
				n.Key = rw.lval(x.Key)
			}
			if x.Value != nil && !isBlank(x.Value) {
				n.Value = rw.lval(x.Value)
			}
		}
		if _, ok := rw.under(x.X).(*types.Array); ok && (x.Value == nil || isBlank(x.Value)) {
			n.X = rw.lvalBase(x.X)
		} else {
			n.X = rw.expr(x.X)
		}
		n.Body = &ast.BlockStmt{List: append([]ast.Stmt{rw.loopMark(x)}, rw.stmts(x.Body.List)...)}
		return []ast.Stmt{n}
	}
	_, isMap := rw.under(x.X).(*types.Map)
	it := rw.tmp("it")
	fn := "ChanRange"
	vars := []ast.Expr{x.Key}
	if isMap {
		fn = "MapRange"
		vars = []ast.Expr{x.Key, x.Value}
	}
	lhs := []ast.Expr{it}
	var nextArgs []ast.Expr
	var pre []ast.Stmt
	for _, v := range vars {
		switch {
		case v == nil || isBlank(v):
			lhs = append(lhs, ast.NewIdent("_"))
			nextArgs = append(nextArgs, ast.NewIdent("nil"))
		case x.Tok == token.DEFINE:
			lhs = append(lhs, v)
			nextArgs = append(nextArgs, addr(v))
		default:
			t := rw.tmp("r")
			lhs = append(lhs, t)
			nextArgs = append(nextArgs, addr(t))
			pre = append(pre, rw.assign([]ast.Expr{v}, []ast.Expr{t}, func(int) bool { return false })...)
		}
	}
	n := &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{rw.call(fn, rw.site(x), rw.expr(x.X))}},
		Cond: method(it, "Next", nextArgs...),
	}
	n.Body = &ast.BlockStmt{List: append(append(pre, rw.loopMark(x)), rw.stmts(x.Body.List)...)}
	return []ast.Stmt{n}
}
