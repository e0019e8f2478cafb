// Command mcinstr rewrites the packages of the module under test so that
// every source of nondeterminism goes through the controlled runtime
// (verifmc/mcrt and the fakes next to it), and writes a go build overlay
// that adds the runtime and the rewritten packages without touching the
// repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var (
	repo   = flag.String("repo", "/repo", "repository")
	out    = flag.String("out", "", "output directory")
	rtdir  = flag.String("rt", "", "runtime source directory (mc/rt)")
	extra  = flag.String("extra", "", "comma separated dir=importsuffix harness packages to add")
	mod    = "github.com/jumptrading/influx-spout/v2"
	mcbase string
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mcinstr: "+f+"\n", a...)
	os.Exit(2)
}

// replacement table: import path -> name -> fake package
var repl = map[string]struct {
	pkg   string
	names map[string]bool
}{
	"sync":        {"mcrt", set("Mutex RWMutex WaitGroup Once Cond NewCond Pool Map Locker")},
	"sync/atomic": {"matomic", nil},
	"time":        {"mtime", set("Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker")},
	"context":     {"mctx", set("WithCancel WithTimeout WithDeadline")},
	"log":         {"mlog", nil},
	"os":          {"mos", set("Exit Stdout Stderr")},
	"fmt":         {"mfmt", set("Sprintf Sprint Sprintln Errorf Fprintf Fprint Fprintln Printf Print Println")},
	"net":         {"mnet", set("ListenUDP UDPConn ListenPacket Listen")},
	"net/http":    {"mhttp", set("Server Client ListenAndServe Serve Get Post PostForm Head DefaultClient")},
	"runtime":     {"mcrt", set("Gosched")},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

func main() {
	flag.Parse()
	mcbase = mod + "/verifmc"
	fset := token.NewFileSet()

	pkgs, order := load()
	exp := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exp[p.ImportPath] = p.Export
		}
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	done := map[string]*types.Package{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := done[path]; ok {
			return p, nil
		}
		return gc.Import(path)
	})

	overlay := map[string]string{}
	var registry []string
	idx := 0
	for _, p := range order {
		if p.Module == nil || p.Module.Path != mod {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pi := &pkgInstr{fset: fset, p: p, idx: idx}
		idx++
		tp := pi.check(imp)
		if p.Name != "main" {
			done[p.ImportPath] = tp
		}
		pi.rewrite(overlay)
		registry = append(registry, p.ImportPath)
	}

	// runtime packages
	ents, err := os.ReadDir(*rtdir)
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		if e.IsDir() {
			addDir(overlay, filepath.Join(*rtdir, e.Name()), filepath.Join(*repo, "verifmc", e.Name()))
		}
	}
	for _, x := range strings.Split(*extra, ",") {
		if x == "" {
			continue
		}
		kv := strings.SplitN(x, "=", 2)
		addDir(overlay, kv[0], filepath.Join(*repo, "verifmc", kv[1]))
	}
	writeOverlay(filepath.Join(*out, "overlay.json"), overlay)
	racePool(overlay)
	writeOverlay(filepath.Join(*out, "overlay-race.json"), overlay)
}

func writeOverlay(path string, overlay map[string]string) {
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		die("%v", err)
	}
}

// racePool disables the standard library's pools in race builds: they order
// unrelated threads (happens-before edges on every Put and Get) and drop
// items at random; without them race verdicts depend on the code under
// test alone.
func racePool(overlay map[string]string) {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env GOROOT: %v", err)
	}
	src := filepath.Join(strings.TrimSpace(string(root)), "src", "sync", "pool.go")
	b, err := os.ReadFile(src)
	if err != nil {
		die("%v", err)
	}
	t := string(b)
	t = strings.Replace(t, "func (p *Pool) Put(x any) {", "func (p *Pool) Put(x any) {\n\tif race.Enabled {\n\t\treturn\n\t}", 1)
	t = strings.Replace(t, "func (p *Pool) Get() any {", "func (p *Pool) Get() any {\n\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}", 1)
	dst := filepath.Join(*out, "syncpool.go")
	if err := os.WriteFile(dst, []byte(t), 0644); err != nil {
		die("%v", err)
	}
	overlay[src] = dst
}

func addDir(overlay map[string]string, dir, dst string) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		die("%v", err)
	}
	for _, f := range fs {
		a, err := filepath.Abs(f)
		if err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(dst, filepath.Base(f))] = a
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func load() (map[string]*listPkg, []*listPkg) {
	cmd := exec.Command("go", "list", "-mod=readonly", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,Imports,Module,Error",
		"./cmd/influx-spout", "./cmd/influx-spout-tap")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	m := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		m[p.ImportPath] = p
		order = append(order, p) // -deps lists dependencies first
	}
	return m, order
}

type pkgInstr struct {
	fset  *token.FileSet
	p     *listPkg
	idx   int
	files []*ast.File
	names []string
	info  *types.Info
	tpkg  *types.Package

	// per file
	cur     *ast.File
	used    map[string]bool // fake packages used by the file
	tmp     int
	natsNme map[string]bool
}

func (pi *pkgInstr) check(imp types.Importer) *types.Package {
	for _, f := range pi.p.GoFiles {
		af, err := parser.ParseFile(pi.fset, filepath.Join(pi.p.Dir, f), nil, 0)
		if err != nil {
			die("%v", err)
		}
		pi.files = append(pi.files, af)
		pi.names = append(pi.names, f)
	}
	pi.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(pi.p.ImportPath, pi.fset, pi.files, pi.info)
	if err != nil {
		die("type check %s: %v", pi.p.ImportPath, err)
	}
	pi.tpkg = tp
	return tp
}

func (pi *pkgInstr) rewrite(overlay map[string]string) {
	outDir := filepath.Join(*out, "src", strconv.Itoa(pi.idx))
	if err := os.MkdirAll(outDir, 0755); err != nil {
		die("%v", err)
	}
	dstDir := pi.p.Dir
	isMain := pi.p.Name == "main"
	if isMain {
		dstDir = filepath.Join(*repo, "verifmc", "gen", sanitize(filepath.Base(pi.p.ImportPath)))
	}

	// which file declares which initialiser
	type initFn struct {
		name string
		lhs  []string
		rhs  ast.Expr
	}
	var calls []string
	perFile := map[*ast.File][]initFn{}
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range pi.files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
		return nil
	}
	inited := map[string]bool{}
	var initCalls []string
	n := 0
	for _, in := range pi.info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		fn := initFn{name: fmt.Sprintf("mcrt_rv_%d", n), rhs: in.Rhs}
		n++
		for _, v := range in.Lhs {
			fn.lhs = append(fn.lhs, v.Name())
			inited[v.Name()] = true
		}
		perFile[f] = append(perFile[f], fn)
		initCalls = append(initCalls, fn.name)
	}
	var zero []string
	for _, name := range pi.tpkg.Scope().Names() {
		if v, ok := pi.tpkg.Scope().Lookup(name).(*types.Var); ok && !inited[v.Name()] {
			zero = append(zero, name)
		}
	}
	calls = append(calls, initCalls...)

	ninit := 0
	for i, f := range pi.files {
		pi.cur = f
		pi.used = map[string]bool{}
		pi.natsNme = map[string]bool{}
		// selector replacement bookkeeping
		pi.replaceSelectors(f)
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					pi.block(d.Body)
				}
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					d.Name.Name = fmt.Sprintf("mcrt_init_%d", ninit)
					calls = append(calls, d.Name.Name)
					ninit++
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for k := range vs.Values {
							vs.Values[k] = pi.expr(vs.Values[k])
						}
					}
				}
			}
		}
		pi.fixImports(f)
		if isMain {
			f.Name.Name = sanitize(filepath.Base(pi.p.ImportPath))
		}
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&buf, pi.fset, f); err != nil {
			die("print: %v", err)
		}
		buf.WriteString("\n")
		for _, fn := range perFile[f] {
			// the rhs may have been replaced as a whole: find it again
			rhs := pi.currentRHS(f, fn.lhs, fn.rhs)
			fmt.Fprintf(&buf, "\nfunc %s() { %s = ", fn.name, strings.Join(fn.lhs, ", "))
			if err := cfg.Fprint(&buf, pi.fset, rhs); err != nil {
				die("print: %v", err)
			}
			buf.WriteString(" }\n")
		}
		dst := filepath.Join(outDir, pi.names[i])
		if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(dstDir, pi.names[i])] = dst
	}

	// generated registration file
	var g bytes.Buffer
	name := pi.p.Name
	if isMain {
		name = sanitize(filepath.Base(pi.p.ImportPath))
	}
	fmt.Fprintf(&g, "//go:build go1.21\n\npackage %s\n\nimport mc_rt %q\n\nfunc init() {\n", name, mcbase+"/mcrt")
	fmt.Fprintf(&g, "\tmc_rt.RegisterPkg(%d, %q)\n", pi.idx, pi.p.ImportPath)
	for i := 0; i < ninit; i++ {
		fmt.Fprintf(&g, "\tmcrt_init_%d()\n", i)
	}
	fmt.Fprintf(&g, "\tmc_rt.RegisterReset(%q, func() {\n", pi.p.ImportPath)
	for _, z := range zero {
		fmt.Fprintf(&g, "\t\tmc_rt.Zero(&%s)\n", z)
	}
	for _, c := range calls {
		fmt.Fprintf(&g, "\t\t%s()\n", c)
	}
	g.WriteString("\t})\n}\n")
	if isMain {
		g.WriteString("\n// MCMain runs main.\nfunc MCMain() { main() }\n")
	}
	dst := filepath.Join(outDir, "zz_mcrt_gen.go")
	if err := os.WriteFile(dst, g.Bytes(), 0644); err != nil {
		die("%v", err)
	}
	overlay[filepath.Join(dstDir, "zz_mcrt_gen.go")] = dst
}

func sanitize(s string) string { return strings.ReplaceAll(s, "-", "") }

// currentRHS returns the (possibly rewritten) initialiser of lhs.
func (pi *pkgInstr) currentRHS(f *ast.File, lhs []string, old ast.Expr) ast.Expr {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, v := range vs.Values {
				if v == old {
					return v
				}
				if len(vs.Values) == len(vs.Names) && len(lhs) == 1 && vs.Names[i].Name == lhs[0] && lhs[0] != "_" {
					return v
				}
				if len(vs.Values) == 1 && len(vs.Names) == len(lhs) && vs.Names[0].Name == lhs[0] && lhs[0] != "_" {
					return v
				}
			}
		}
	}
	return old
}

// ---------------------------------------------------------------------
// selectors and imports

var fakeOf = map[string]string{
	"mcrt": "mc_rt", "matomic": "mc_atomic", "mtime": "mc_time", "mctx": "mc_ctx", "mlog": "mc_log",
	"mos": "mc_os", "mfmt": "mc_fmt", "mnet": "mc_net", "mhttp": "mc_http",
}

func (pi *pkgInstr) rt(name string) ast.Expr {
	pi.used["mcrt"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("mc_rt"), Sel: ast.NewIdent(name)}
}

func (pi *pkgInstr) replaceSelectors(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := pi.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		r, ok := repl[pn.Imported().Path()]
		if !ok {
			return true
		}
		if r.names != nil && !r.names[se.Sel.Name] {
			return true
		}
		pi.used[r.pkg] = true
		nid := ast.NewIdent(fakeOf[r.pkg])
		nid.NamePos = id.NamePos
		se.X = nid
		return true
	})
}

func (pi *pkgInstr) fixImports(f *ast.File) {
	// remaining uses of each import
	left := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok {
				if pn, ok := pi.info.Uses[id].(*types.PkgName); ok {
					left[pn.Imported().Path()] = true
				}
			}
		}
		return true
	})
	var gd *ast.GenDecl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			if gd == nil {
				gd = g
			}
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				p, _ := strconv.Unquote(is.Path.Value)
				if p == "github.com/nats-io/nats.go" {
					if is.Name == nil {
						is.Name = ast.NewIdent("nats")
					}
					is.Path.Value = strconv.Quote(mcbase + "/fnats")
					continue
				}
				if _, ok := repl[p]; ok && !left[p] && (is.Name == nil || is.Name.Name != ".") {
					is.Name = ast.NewIdent("_")
				}
			}
		}
	}
	var pk []string
	for p := range pi.used {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	if len(pk) == 0 {
		return
	}
	var specs []ast.Spec
	for _, p := range pk {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(fakeOf[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(mcbase + "/" + p)}})
	}
	nd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1, Specs: specs}
	f.Decls = append([]ast.Decl{nd}, f.Decls...)
}

// ---------------------------------------------------------------------
// statements

func (pi *pkgInstr) typeOf(e ast.Expr) types.Type {
	if tv, ok := pi.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := pi.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := pi.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) (*types.Chan, bool) {
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	return c, ok
}

func (pi *pkgInstr) fresh(p string) *ast.Ident {
	pi.tmp++
	return ast.NewIdent(fmt.Sprintf("mc_%s%d", p, pi.tmp))
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (pi *pkgInstr) pstmt() ast.Stmt {
	return &ast.ExprStmt{X: call(pi.rt("P"), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(pi.idx)})}
}

func (pi *pkgInstr) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = pi.list(b.List)
}

func (pi *pkgInstr) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		pre, ns := pi.stmt(s)
		out = append(out, pi.pstmt())
		out = append(out, pre...)
		out = append(out, ns)
	}
	return out
}

// stmt rewrites s; pre are statements to run before it.
func (pi *pkgInstr) stmt(s ast.Stmt) (pre []ast.Stmt, res ast.Stmt) {
	switch s := s.(type) {
	case nil:
		return nil, nil
	case *ast.BlockStmt:
		pi.block(s)
	case *ast.LabeledStmt:
		p, n := pi.stmt(s.Stmt)
		if b, ok := n.(*ast.BlockStmt); ok {
			_ = b
		}
		s.Stmt = n
		return p, s
	case *ast.ExprStmt:
		s.X = pi.expr(s.X)
	case *ast.SendStmt:
		ch := pi.expr(s.Chan)
		v := pi.expr(s.Value)
		return nil, &ast.ExprStmt{X: call(&ast.SelectorExpr{X: call(pi.rt("SendTo"), ch), Sel: ast.NewIdent("Do")}, v)}
	case *ast.IncDecStmt:
		s.X = pi.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Rhs) == 1 && len(s.Lhs) == 2 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range s.Lhs {
					s.Lhs[i] = pi.expr(s.Lhs[i])
				}
				s.Rhs[0] = call(pi.rt("Recv2"), pi.expr(u.X))
				return nil, s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = pi.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = pi.expr(s.Rhs[i])
		}
	case *ast.GoStmt:
		return nil, pi.goStmt(s)
	case *ast.DeferStmt:
		s.Call = pi.deferCall(s.Call)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = pi.expr(s.Results[i])
		}
	case *ast.IfStmt:
		if s.Init != nil {
			p, n := pi.stmt(s.Init)
			pre = append(pre, p...)
			s.Init = n
		}
		s.Cond = pi.expr(s.Cond)
		pi.block(s.Body)
		if s.Else != nil {
			p, n := pi.stmt(s.Else)
			if len(p) > 0 {
				n = &ast.BlockStmt{List: append(p, n)}
			}
			s.Else = n
		}
		return pre, s
	case *ast.SwitchStmt:
		if s.Init != nil {
			p, n := pi.stmt(s.Init)
			pre = append(pre, p...)
			s.Init = n
		}
		if s.Tag != nil {
			s.Tag = pi.expr(s.Tag)
		}
		pi.clauses(s.Body)
		return pre, s
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			p, n := pi.stmt(s.Init)
			pre = append(pre, p...)
			s.Init = n
		}
		p, n := pi.stmt(s.Assign)
		pre = append(pre, p...)
		s.Assign = n
		pi.clauses(s.Body)
		return pre, s
	case *ast.ForStmt:
		if s.Init != nil {
			p, n := pi.stmt(s.Init)
			pre = append(pre, p...)
			s.Init = n
		}
		if s.Cond != nil {
			s.Cond = pi.expr(s.Cond)
		}
		if s.Post != nil {
			_, n := pi.stmt(s.Post)
			s.Post = n
		}
		pi.loopBody(s.Body)
		return pre, s
	case *ast.RangeStmt:
		return pi.rangeStmt(s)
	case *ast.SelectStmt:
		return nil, pi.selectStmt(s)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 1 && len(vs.Names) == 2 {
					if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						vs.Values[0] = call(pi.rt("Recv2"), pi.expr(u.X))
						continue
					}
				}
				for i := range vs.Values {
					vs.Values[i] = pi.expr(vs.Values[i])
				}
			}
		}
	}
	return nil, s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (pi *pkgInstr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for i := range cc.List {
				cc.List[i] = pi.expr(cc.List[i])
			}
			cc.Body = pi.list(cc.Body)
		}
	}
}

func (pi *pkgInstr) loopBody(b *ast.BlockStmt) {
	pi.block(b)
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: call(pi.rt("Loop"))}}, b.List...)
}

func (pi *pkgInstr) deferCall(c *ast.CallExpr) *ast.CallExpr {
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := pi.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
			return call(pi.rt("Close"), pi.expr(c.Args[0]))
		}
	}
	e := pi.expr(c)
	if ce, ok := e.(*ast.CallExpr); ok {
		return ce
	}
	return c
}

func (pi *pkgInstr) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	fun := unparen(c.Fun)
	isBuiltin := false
	if id, ok := fun.(*ast.Ident); ok {
		if _, ok := pi.info.Uses[id].(*types.Builtin); ok {
			isBuiltin = true
		}
	}
	// arguments
	inline := func(e ast.Expr) bool {
		tv, ok := pi.info.Types[e]
		return ok && (tv.Value != nil || tv.IsNil() || tv.IsType())
	}
	var args []ast.Expr
	if len(c.Args) == 1 {
		if tup, ok := pi.typeOf(c.Args[0]).(*types.Tuple); ok {
			as := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{pi.expr(c.Args[0])}}
			for i := 0; i < tup.Len(); i++ {
				id := pi.fresh("a")
				as.Lhs = append(as.Lhs, id)
				args = append(args, id)
			}
			pre = append(pre, as)
		}
	}
	var f ast.Expr
	if lit, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		pi.block(lit.Body)
		if lit.Type.Results == nil || len(lit.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: call(pi.rt("Go"), lit)}
		}
		f = lit
	} else if isBuiltin {
		f = fun
	} else if id, ok := fun.(*ast.Ident); ok && isFunc(pi.info.Uses[id]) {
		f = fun
	} else {
		id := pi.fresh("f")
		pre = append(pre, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id}, Rhs: []ast.Expr{pi.expr(fun)}})
		f = id
	}
	if args == nil {
		for _, a := range c.Args {
			if inline(a) {
				args = append(args, a)
				continue
			}
			id := pi.fresh("a")
			pre = append(pre, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id}, Rhs: []ast.Expr{pi.expr(a)}})
			args = append(args, id)
		}
	}
	var inner ast.Expr = &ast.CallExpr{Fun: f, Args: args, Ellipsis: c.Ellipsis}
	if isBuiltin {
		if id := f.(*ast.Ident); id.Name == "close" {
			inner = call(pi.rt("Close"), args...)
		}
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}
	g := &ast.ExprStmt{X: call(pi.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func isFunc(o types.Object) bool { _, ok := o.(*types.Func); return ok }

func (pi *pkgInstr) rangeStmt(s *ast.RangeStmt) ([]ast.Stmt, ast.Stmt) {
	t := pi.typeOf(s.X)
	x := pi.expr(s.X)
	if _, ok := isChan(t); ok {
		pi.loopBody(s.Body)
		c := pi.fresh("c")
		v, ok2 := pi.fresh("v"), pi.fresh("ok")
		pre := &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{c}, Rhs: []ast.Expr{x}}
		var head []ast.Stmt
		if s.Key == nil || isBlank(s.Key) {
			head = append(head, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{ast.NewIdent("_"), ok2}, Rhs: []ast.Expr{call(pi.rt("Recv2"), c)}})
		} else {
			head = append(head, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{v, ok2}, Rhs: []ast.Expr{call(pi.rt("Recv2"), c)}})
		}
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok2}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if s.Key != nil && !isBlank(s.Key) {
			head = append(head, &ast.AssignStmt{Tok: s.Tok, Lhs: []ast.Expr{s.Key}, Rhs: []ast.Expr{v}})
		}
		s.Body.List = append(head, s.Body.List...)
		return []ast.Stmt{pre}, &ast.ForStmt{Body: s.Body}
	}
	if t != nil {
		if _, ok := t.Underlying().(*types.Map); ok {
			pi.loopBody(s.Body)
			m := pi.fresh("m")
			pre := &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{m}, Rhs: []ast.Expr{x}}
			k, okv := pi.fresh("k"), pi.fresh("ok")
			var head []ast.Stmt
			get := &ast.IndexExpr{X: m, Index: k}
			notok := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
			vv := ast.NewIdent("_")
			if s.Value != nil && !isBlank(s.Value) {
				vv = pi.fresh("v")
			}
			head = append(head, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{vv, okv}, Rhs: []ast.Expr{get}}, notok)
			if s.Key != nil && !isBlank(s.Key) {
				head = append(head, &ast.AssignStmt{Tok: s.Tok, Lhs: []ast.Expr{s.Key}, Rhs: []ast.Expr{k}})
			}
			if s.Value != nil && !isBlank(s.Value) {
				head = append(head, &ast.AssignStmt{Tok: s.Tok, Lhs: []ast.Expr{s.Value}, Rhs: []ast.Expr{vv}})
			}
			s.Body.List = append(head, s.Body.List...)
			ns := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call(pi.rt("MapKeys"), m), Body: s.Body}
			return []ast.Stmt{pre}, ns
		}
	}
	s.X = x
	pi.loopBody(s.Body)
	return nil, s
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (pi *pkgInstr) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ExprStmt{X: call(pi.rt("BlockForever"))}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	init := &ast.AssignStmt{Tok: token.DEFINE}
	selCall := call(pi.rt("Select"), nil)
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: pi.list(cc.Body)})
			continue
		}
		id := pi.fresh("s")
		init.Lhs = append(init.Lhs, id)
		selCall.Args = append(selCall.Args, id)
		var head []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			init.Rhs = append(init.Rhs, call(&ast.SelectorExpr{X: call(pi.rt("S"), pi.expr(cm.Chan)), Sel: ast.NewIdent("With")}, pi.expr(cm.Value)))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			init.Rhs = append(init.Rhs, call(pi.rt("R"), pi.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			init.Rhs = append(init.Rhs, call(pi.rt("R"), pi.expr(u.X)))
			as := &ast.AssignStmt{Tok: cm.Tok}
			fields := []string{"V", "Ok"}
			for i, l := range cm.Lhs {
				if cm.Tok != token.DEFINE {
					l = pi.expr(l)
				}
				as.Lhs = append(as.Lhs, l)
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: id, Sel: ast.NewIdent(fields[i])})
			}
			allBlank := true
			for _, l := range cm.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				as.Tok = token.ASSIGN
			}
			head = append(head, as)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}},
			Body: append(head, pi.list(cc.Body)...),
		})
		n++
	}
	if hasDefault == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"mcrt: bad select"`})}}})
	}
	selCall.Args[0] = ast.NewIdent(hasDefault)
	if len(init.Lhs) > 0 {
		sw.Init = init
	}
	sw.Tag = selCall
	return sw
}

// ---------------------------------------------------------------------
// expressions

func (pi *pkgInstr) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = pi.expr(l[i])
	}
}

func (pi *pkgInstr) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(pi.rt("Recv"), pi.expr(e.X))
		}
		e.X = pi.expr(e.X)
	case *ast.FuncLit:
		pi.block(e.Body)
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok {
			if b, ok := pi.info.Uses[id].(*types.Builtin); ok {
				switch b.Name() {
				case "close":
					return call(pi.rt("Close"), pi.expr(e.Args[0]))
				case "len":
					if c, ok := isChan(pi.typeOf(e.Args[0])); ok {
						fn := "Len"
						if c.Dir() == types.SendOnly {
							fn = "LenS"
						}
						return call(pi.rt(fn), pi.expr(e.Args[0]))
					}
				}
			}
		}
		e.Fun = pi.expr(e.Fun)
		pi.exprs(e.Args)
	case *ast.BinaryExpr:
		e.X = pi.expr(e.X)
		e.Y = pi.expr(e.Y)
	case *ast.ParenExpr:
		e.X = pi.expr(e.X)
	case *ast.StarExpr:
		e.X = pi.expr(e.X)
	case *ast.SelectorExpr:
		e.X = pi.expr(e.X)
	case *ast.IndexExpr:
		e.X = pi.expr(e.X)
		e.Index = pi.expr(e.Index)
	case *ast.SliceExpr:
		e.X = pi.expr(e.X)
		e.Low = pi.expr(e.Low)
		e.High = pi.expr(e.High)
		e.Max = pi.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = pi.expr(e.X)
	case *ast.CompositeLit:
		pi.exprs(e.Elts)
	case *ast.KeyValueExpr:
		e.Value = pi.expr(e.Value)
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = pi.expr(e.Key)
		}
	}
	return e
}
