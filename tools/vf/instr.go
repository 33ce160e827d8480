package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

// The instrumenter rewrites every non-test source file of the packages under
// test (and of the harness) so that all synchronisation goes through the
// controlled scheduler.  It works on the current tree of the repository and
// leaves it untouched: its output is a build overlay.

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

type instr struct {
	repo, verif, out string
	module           string
	overlay          map[string]string
	fset             *token.FileSet
	pkgs             map[string]*types.Package
	gc               types.Importer
	n                int
	files            int
	points           map[string]int
}

const (
	vsDir = "zz_vs"
	hDir  = "zz_h"
)

func moduleOf(repo string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`), nil
		}
	}
	return "", fmt.Errorf("no module line")
}

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	return c
}

func (in *instr) writeOverlay(name string) (string, error) {
	p := filepath.Join(in.out, name)
	b, _ := json.MarshalIndent(map[string]any{"Replace": in.overlay}, "", " ")
	return p, os.WriteFile(p, b, 0o644)
}

func (in *instr) addTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte(`"PKG/`), []byte(`"`+in.module+"/"+vsDir+"/"))
		b = bytes.ReplaceAll(b, []byte(`"REPO/`), []byte(`"`+in.module+"/"))
		b = bytes.ReplaceAll(b, []byte(`"REPO"`), []byte(`"`+in.module+`"`))
		o := filepath.Join(in.out, "src", dst, rel)
		os.MkdirAll(filepath.Dir(o), 0o755)
		if err := os.WriteFile(o, b, 0o644); err != nil {
			return err
		}
		in.overlay[filepath.Join(in.repo, dst, rel)] = o
		return nil
	})
}

func decodeList(b []byte) ([]*listPkg, error) {
	var res []*listPkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		err := d.Decode(p)
		if err == io.EOF {
			return res, nil
		}
		if err != nil {
			return nil, err
		}
		res = append(res, p)
	}
}

func run(c *exec.Cmd) ([]byte, error) {
	var so, se bytes.Buffer
	c.Stdout = &so
	c.Stderr = &se
	err := c.Run()
	if err != nil {
		return so.Bytes(), fmt.Errorf("%s: %v\n%s", strings.Join(c.Args, " "), err, se.String())
	}
	return so.Bytes(), nil
}

// Instrument builds the overlay; it returns the path of the overlay file.
func Instrument(repo, verif, out string) (*instr, string, error) {
	mod, err := moduleOf(repo)
	if err != nil {
		return nil, "", err
	}
	in := &instr{repo: repo, verif: verif, out: out, module: mod,
		overlay: map[string]string{}, fset: token.NewFileSet(),
		pkgs: map[string]*types.Package{}, points: map[string]int{}}
	if err := in.addTree(filepath.Join(verif, "vs"), vsDir); err != nil {
		return nil, "", err
	}
	if err := in.addTree(filepath.Join(verif, "harness"), hDir); err != nil {
		return nil, "", err
	}
	base, err := in.writeOverlay("base.json")
	if err != nil {
		return nil, "", err
	}
	b, err := run(goCmd(repo, "list", "-overlay", base, "-deps",
		"-json=ImportPath,Dir,GoFiles,Standard,Module,ImportMap,Error", "./"+hDir))
	if err != nil {
		return nil, "", err
	}
	all, err := decodeList(b)
	if err != nil {
		return nil, "", err
	}
	// The shims are not imported by the harness before instrumentation.
	b, err = run(goCmd(repo, "list", "-overlay", base, "-deps",
		"-json=ImportPath,Dir,GoFiles,Standard,Module,ImportMap,Error", "./"+vsDir+"/..."))
	if err != nil {
		return nil, "", err
	}
	more, err := decodeList(b)
	if err != nil {
		return nil, "", err
	}
	seen := map[string]bool{}
	var local []*listPkg
	var ext []string
	for _, p := range append(all, more...) {
		if seen[p.ImportPath] {
			continue
		}
		seen[p.ImportPath] = true
		if p.Module != nil && p.Module.Main {
			local = append(local, p)
		} else if p.ImportPath != "unsafe" && p.ImportPath != "C" {
			ext = append(ext, p.ImportPath)
		}
	}
	sort.Strings(ext)
	b, err = run(goCmd(repo, append([]string{"list", "-export", "-json=ImportPath,Export"}, ext...)...))
	if err != nil {
		return nil, "", err
	}
	exps, err := decodeList(b)
	if err != nil {
		return nil, "", err
	}
	exports := map[string]string{}
	for _, p := range exps {
		exports[p.ImportPath] = p.Export
	}
	in.gc = importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	for _, p := range local {
		if err := in.pkg(p); err != nil {
			return nil, "", err
		}
	}
	ov, err := in.writeOverlay("overlay.json")
	return in, ov, err
}

type pkgImporter struct {
	in *instr
	m  map[string]string
}

func (i pkgImporter) Import(path string) (*types.Package, error) {
	if i.m[path] != "" {
		path = i.m[path]
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := i.in.pkgs[path]; p != nil {
		return p, nil
	}
	return i.in.gc.Import(path)
}

func (in *instr) pkg(p *listPkg) error {
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		src := full
		if o := in.overlay[full]; o != "" {
			src = o
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(in.fset, full, b, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		names = append(names, full)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: pkgImporter{in, p.ImportMap}, GoVersion: "go1.25",
		Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, in.fset, files, info)
	if err != nil {
		return fmt.Errorf("type-checking %s: %v", p.ImportPath, err)
	}
	in.pkgs[p.ImportPath] = tp
	if strings.HasPrefix(p.ImportPath, in.module+"/"+vsDir) {
		return nil
	}
	for i, f := range files {
		rw := &rewriter{in: in, info: info, f: f, used: map[string]bool{}}
		rw.file()
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.SourcePos | printer.TabIndent | printer.UseSpaces, Tabwidth: 8}
		if err := cfg.Fprint(&buf, in.fset, f); err != nil {
			return err
		}
		rel, _ := filepath.Rel(in.repo, names[i])
		o := filepath.Join(in.out, "ins", rel)
		os.MkdirAll(filepath.Dir(o), 0o755)
		if err := os.WriteFile(o, buf.Bytes(), 0o644); err != nil {
			return err
		}
		in.overlay[names[i]] = o
		in.files++
	}
	return nil
}

type rewriter struct {
	in   *instr
	info *types.Info
	f    *ast.File
	used map[string]bool

	commaOK map[ast.Expr]bool
	inSel   map[ast.Node]bool
	goInfo  map[*ast.GoStmt]*goInfo
	rngKind map[*ast.RangeStmt]string
	closes  map[*ast.CallExpr]bool
	selRepl map[*ast.SelectorExpr]string
	mapKeys map[*ast.CallExpr]bool
}

type goInfo struct {
	inlineFun bool
	inlineArg []bool
	tuple     bool
	plainLit  bool
}

var replSets = map[string]struct {
	pkg string
	set map[string]bool
}{
	"sync":        {"vsync", nil},
	"sync/atomic": {"vatomic", nil},
	"time":        {"vtime", strset("Now Since Until Sleep Timer NewTimer AfterFunc After Ticker NewTicker Tick")},
	"context":     {"vctx", strset("WithCancel WithCancelCause WithDeadline WithDeadlineCause WithTimeout WithTimeoutCause Cause WithoutCancel AfterFunc")},
	"runtime":     {"vsched", strset("Gosched")},
}

func strset(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

func coreChanMap(t types.Type) string {
	if t == nil {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return "chan"
	case *types.Map:
		return "map"
	case *types.Interface:
		// A type parameter.
		if tp, ok := t.(*types.TypeParam); ok {
			i, ok := tp.Constraint().Underlying().(*types.Interface)
			if ok && i.NumEmbeddeds() == 1 {
				if un, ok := i.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
					return coreChanMap(un.Term(0).Type())
				}
				return coreChanMap(i.EmbeddedType(0))
			}
		}
		_ = u
	}
	return ""
}

func (r *rewriter) file() {
	r.commaOK = map[ast.Expr]bool{}
	r.inSel = map[ast.Node]bool{}
	r.goInfo = map[*ast.GoStmt]*goInfo{}
	r.rngKind = map[*ast.RangeStmt]string{}
	r.closes = map[*ast.CallExpr]bool{}
	r.selRepl = map[*ast.SelectorExpr]string{}
	r.mapKeys = map[*ast.CallExpr]bool{}
	remaining := map[*types.PkgName]int{}
	ast.Inspect(r.f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.AssignStmt:
			if len(t.Lhs) == 2 && len(t.Rhs) == 1 {
				if u, ok := isRecv(t.Rhs[0]); ok {
					r.commaOK[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(t.Names) == 2 && len(t.Values) == 1 {
				if u, ok := isRecv(t.Values[0]); ok {
					r.commaOK[u] = true
				}
			}
		case *ast.SelectStmt:
			for _, c := range t.Body.List {
				cc := c.(*ast.CommClause)
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					r.inSel[s] = true
				case *ast.ExprStmt:
					if u, ok := isRecv(s.X); ok {
						r.inSel[u] = true
					}
				case *ast.AssignStmt:
					if u, ok := isRecv(s.Rhs[0]); ok {
						r.inSel[u] = true
					}
				}
			}
		case *ast.GoStmt:
			r.goInfo[t] = r.goStmtInfo(t)
		case *ast.RangeStmt:
			r.rngKind[t] = coreChanMap(r.info.TypeOf(t.X))
		case *ast.CallExpr:
			if id, ok := unparen(t.Fun).(*ast.Ident); ok && id.Name == "close" && len(t.Args) == 1 {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					r.closes[t] = true
				}
			}
			if se, ok := t.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "MapKeys" && len(t.Args) == 0 {
				if tt := r.info.TypeOf(se.X); tt != nil && tt.String() == "reflect.Value" {
					r.mapKeys[t] = true
				}
			}
		case *ast.SelectorExpr:
			id, ok := t.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := r.info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			rs, ok := replSets[pn.Imported().Path()]
			if !ok || (rs.set != nil && !rs.set[t.Sel.Name]) {
				remaining[pn]++
				return true
			}
			r.selRepl[t] = rs.pkg
		}
		return true
	})

	for i := range r.f.Decls {
		r.walk(reflect.ValueOf(&r.f.Decls[i]).Elem())
	}

	// Imports.
	for _, d := range r.f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, sp := range gd.Specs {
			is := sp.(*ast.ImportSpec)
			path := strings.Trim(is.Path.Value, "\"`")
			if _, ok := replSets[path]; !ok {
				continue
			}
			if is.Name != nil && (is.Name.Name == "." || is.Name.Name == "_") {
				continue
			}
			var pn *types.PkgName
			if is.Name != nil {
				pn, _ = r.info.Defs[is.Name].(*types.PkgName)
			}
			n := 0
			for p, c := range remaining {
				if p == pn || (pn == nil && p.Imported().Path() == path) {
					n += c
				}
			}
			if n == 0 {
				is.Name = ast.NewIdent("_")
			}
		}
	}
	var specs []ast.Spec
	var names []string
	for k := range r.used {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		specs = append(specs, &ast.ImportSpec{
			Name: ast.NewIdent(k + "__"),
			Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + r.in.module + "/" + vsDir + "/" + k + `"`}})
	}
	if len(specs) > 0 {
		gd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs}
		r.f.Decls = append([]ast.Decl{gd}, r.f.Decls...)
	}
}

func (r *rewriter) goStmtInfo(g *ast.GoStmt) *goInfo {
	gi := &goInfo{}
	fun := unparen(g.Call.Fun)
	switch t := fun.(type) {
	case *ast.Ident:
		switch r.info.Uses[t].(type) {
		case *types.Func, *types.Builtin:
			gi.inlineFun = true
		}
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				if _, ok := r.info.Uses[t.Sel].(*types.Func); ok {
					gi.inlineFun = true
				}
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if tv, ok := r.info.Types[fun]; ok {
			if _, ok := tv.Type.(*types.Signature); ok {
				gi.inlineFun = true
			}
		}
	case *ast.FuncLit:
		if (t.Type.Params == nil || len(t.Type.Params.List) == 0) &&
			(t.Type.Results == nil || len(t.Type.Results.List) == 0) {
			gi.plainLit = true
		}
	}
	for _, a := range g.Call.Args {
		tv := r.info.Types[a]
		inl := tv.Value != nil || tv.IsNil() || tv.IsType()
		if tv.Type == types.Typ[types.UntypedNil] {
			inl = true
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			gi.tuple = true
		}
		gi.inlineArg = append(gi.inlineArg, inl)
	}
	return gi
}

// walk rewrites post-order; v is an addressable value holding a node.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return
		}
		r.walkNode(n)
		nn := r.post(n)
		if nn != n {
			v.Set(reflect.ValueOf(nn))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return
		}
		r.walkNode(n)
		nn := r.post(n)
		if nn != n {
			if reflect.TypeOf(nn).AssignableTo(v.Type()) {
				v.Set(reflect.ValueOf(nn))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

func (r *rewriter) walkNode(n ast.Node) {
	rv := reflect.ValueOf(n)
	if rv.Kind() != reflect.Ptr || rv.Elem().Kind() != reflect.Struct {
		return
	}
	// A labelled select keeps its label on the switch that replaces it.
	if l, ok := n.(*ast.LabeledStmt); ok {
		if s, ok := l.Stmt.(*ast.SelectStmt); ok {
			r.walkNode(s)
			return
		}
	}
	e := rv.Elem()
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		switch f.Kind() {
		case reflect.Interface, reflect.Ptr, reflect.Slice:
			if f.CanSet() {
				switch f.Interface().(type) {
				case *ast.Object, *ast.Scope, *ast.CommentGroup, []*ast.CommentGroup, []*ast.Ident:
					continue
				}
				r.walk(f)
			}
		}
	}
}

func (r *rewriter) pkgSel(pkg, name string) ast.Expr {
	r.used[pkg] = true
	return &ast.SelectorExpr{X: ast.NewIdent(pkg + "__"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: args}
}

func (r *rewriter) tmp(s string) string {
	r.in.n++
	return fmt.Sprintf("_vs%d_%s", r.in.n, s)
}

func define(e ast.Expr, names ...string) ast.Stmt {
	var lhs []ast.Expr
	for _, n := range names {
		lhs = append(lhs, ast.NewIdent(n))
	}
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (r *rewriter) post(n ast.Node) ast.Node {
	switch t := n.(type) {
	case *ast.SelectorExpr:
		if p, ok := r.selRepl[t]; ok {
			r.in.points[p+"."+t.Sel.Name]++
			name := t.Sel.Name
			if name == "Gosched" {
				name = "Yield"
			}
			return r.pkgSel(p, name)
		}
	case *ast.UnaryExpr:
		if t.Op != token.ARROW || r.inSel[t] {
			return n
		}
		r.in.points["recv"]++
		if r.commaOK[t] {
			return call(r.pkgSel("vsched", "Recv2"), t.X)
		}
		return call(r.pkgSel("vsched", "Recv"), t.X)
	case *ast.SendStmt:
		if r.inSel[t] {
			return n
		}
		r.in.points["send"]++
		return &ast.ExprStmt{X: call(call(r.pkgSel("vsched", "SendTo"), t.Chan), t.Value)}
	case *ast.CallExpr:
		if r.closes[t] {
			r.in.points["close"]++
			t.Fun = r.pkgSel("vsched", "Close")
			return t
		}
		if r.mapKeys[t] {
			r.in.points["mapkeys"]++
			return call(r.pkgSel("vsched", "SortValues"), t)
		}
	case *ast.RangeStmt:
		switch r.rngKind[t] {
		case "chan":
			r.in.points["rangechan"]++
			t.X = call(r.pkgSel("vsched", "Range"), t.X)
		case "map":
			r.in.points["rangemap"]++
			t.X = call(r.pkgSel("vsched", "MapRange"), t.X)
		}
	case *ast.GoStmt:
		r.in.points["go"]++
		return r.goStmt(t)
	case *ast.SelectStmt:
		r.in.points["select"]++
		return r.selectStmt(t, nil)
	case *ast.LabeledStmt:
		if s, ok := t.Stmt.(*ast.SelectStmt); ok {
			r.in.points["select"]++
			return r.selectStmt(s, t.Label)
		}
	}
	return n
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Node {
	gi := r.goInfo[g]
	vgo := r.pkgSel("vsched", "Go")
	if gi == nil {
		return g
	}
	if gi.plainLit && len(g.Call.Args) == 0 {
		return &ast.ExprStmt{X: call(vgo, unparen(g.Call.Fun))}
	}
	var stmts []ast.Stmt
	c := &ast.CallExpr{Fun: g.Call.Fun, Args: append([]ast.Expr{}, g.Call.Args...), Ellipsis: g.Call.Ellipsis}
	if !gi.inlineFun {
		f := r.tmp("f")
		stmts = append(stmts, define(g.Call.Fun, f))
		c.Fun = ast.NewIdent(f)
	}
	if !gi.tuple {
		for i, a := range c.Args {
			if gi.inlineArg[i] {
				continue
			}
			x := r.tmp("a")
			stmts = append(stmts, define(a, x))
			c.Args[i] = ast.NewIdent(x)
		}
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}
	stmts = append(stmts, &ast.ExprStmt{X: call(vgo, fl)})
	return &ast.BlockStmt{List: stmts}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Node {
	var pre []ast.Stmt
	iv, tv := r.tmp("i"), r.tmp("t")
	args := []ast.Expr{ast.NewIdent("false")}
	var clauses []ast.Stmt
	var def *ast.CaseClause
	after := func() ast.Stmt {
		return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: ast.NewIdent(tv), Sel: ast.NewIdent("After")})}
	}
	useT := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(tv)}}
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			args[0] = ast.NewIdent("true")
			def = &ast.CaseClause{Body: append([]ast.Stmt{useT}, cc.Body...)}
			clauses = append(clauses, def)
			continue
		}
		cl := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}}
		idx++
		cv := r.tmp("c")
		switch t := cc.Comm.(type) {
		case *ast.SendStmt:
			sv := r.tmp("s")
			pre = append(pre, define(t.Chan, cv))
			pre = append(pre, define(call(call(r.pkgSel("vsched", "PrepSend"), ast.NewIdent(cv)), t.Value), sv))
			args = append(args, call(r.pkgSel("vsched", "SendCase"), ast.NewIdent(cv)))
			cl.Body = append(cl.Body, &ast.ExprStmt{X: call(ast.NewIdent(sv))}, after())
		case *ast.ExprStmt:
			u, _ := isRecv(t.X)
			pre = append(pre, define(u.X, cv))
			args = append(args, call(r.pkgSel("vsched", "RecvCase"), ast.NewIdent(cv)))
			u.X = ast.NewIdent(cv)
			cl.Body = append(cl.Body, &ast.ExprStmt{X: u}, after())
		case *ast.AssignStmt:
			u, _ := isRecv(t.Rhs[0])
			pre = append(pre, define(u.X, cv))
			args = append(args, call(r.pkgSel("vsched", "RecvCase"), ast.NewIdent(cv)))
			u.X = ast.NewIdent(cv)
			t.Rhs[0] = u
			cl.Body = append(cl.Body, t, after())
		}
		cl.Body = append(cl.Body, cc.Body...)
		clauses = append(clauses, cl)
	}
	if def == nil {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{useT,
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vsched: unreachable"`})}}})
	}
	sw := &ast.SwitchStmt{
		Init: define(call(r.pkgSel("vsched", "Sel"), args...), iv, tv),
		Tag:  ast.NewIdent(iv),
		Body: &ast.BlockStmt{List: clauses},
	}
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}
