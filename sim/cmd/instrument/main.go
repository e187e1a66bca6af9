// Command instrument copies the Go packages of a module (given by -src) to -out,
// rewritten so that every source of nondeterminism goes through the simulator:
//
//   - imports of os, io/ioutil, path/filepath, fmt, flag, log, time, sync, math/rand, ...
//     are redirected to verifsim/shim/...
//   - every statement is preceded by a scheduling point (rt.Yield)
//   - range over a map asks the simulator for the order
//   - go statements start simulated tasks, channel operations tell the scheduler that they may block
//   - accesses to package-level variables and to maps are reported to the happens-before checker
//   - package initialisation can be repeated (a simulated process restart)
//
// It judges nothing about how the code is written and needs no hook in the code.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]bool{
	"os": true, "io/ioutil": true, "path/filepath": true, "fmt": true, "flag": true, "log": true,
	"time": true, "sync": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true,
	"runtime": true,
}

var forbidden = map[string]bool{
	"os/exec": true, "plugin": true, "C": true, "log/syslog": true,
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	Name       string
	GoFiles    []string
	EmbedFiles []string
	CgoFiles   []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "", "module to instrument (a private copy)")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	cmd := exec.Command("go", "list", "-e=false", "-deps", "-export", "-json", ".", "./cmd/xgen")
	cmd.Dir = *src
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, stderr.String())
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	var mine []*listPkg
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			mine = append(mine, p)
		}
	}
	in := &inst{exports: exports, out: *out, src: *src, fset: token.NewFileSet(), own: map[string]*types.Package{}, ownPaths: map[string]bool{}}
	for _, p := range mine {
		in.ownPaths[p.ImportPath] = true
	}
	in.gc = importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range mine { // dependency order
		in.pkg(p)
	}
	// site table
	b, _ := json.MarshalIndent(in.sites, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	fixGoMod(*src, *out)
}

// fixGoMod copies go.mod, raising the language version so that the helpers may
// use type inference; 1.21 keeps the per-loop variable semantics of older
// versions.
func fixGoMod(src, out string) {
	data, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	lines := strings.Split(string(data), "\n")
	seen := false
	for i, l := range lines {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			seen = true
			parts := strings.Split(f[1], ".")
			if len(parts) >= 2 {
				if n, err := strconv.Atoi(parts[1]); err == nil && n < 21 {
					lines[i] = "go 1.21"
				}
			}
		}
	}
	if !seen {
		lines = append(lines, "go 1.21")
	}
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte(strings.Join(lines, "\n")), 0o644); err != nil {
		fatal("%v", err)
	}
	if data, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(out, "go.sum"), data, 0o644)
	}
}

type site struct {
	File string
	Line int
}

type inst struct {
	exports  map[string]string
	out, src string
	fset     *token.FileSet
	gc       types.Importer
	own      map[string]*types.Package
	ownPaths map[string]bool
	sites    []site

	info    *types.Info
	tpkg    *types.Package
	written map[string]bool
	shared  map[*types.TypeName]bool
	tmp     int
}

func (in *inst) Import(path string) (*types.Package, error) {
	if p := in.own[path]; p != nil {
		return p, nil
	}
	return in.gc.Import(path)
}

func (in *inst) pkg(p *listPkg) {
	if len(p.CgoFiles) > 0 {
		fatal("%s uses cgo", p.ImportPath)
	}
	var files []*ast.File
	var names []string
	gofiles := append([]string(nil), p.GoFiles...)
	sort.Strings(gofiles)
	for _, f := range gofiles {
		a, err := parser.ParseFile(in.fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		for _, cg := range a.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
					fatal("%s: unsupported directive %s", f, c.Text)
				}
			}
		}
		files = append(files, a)
		names = append(names, f)
	}
	gover := "go1.15"
	if p.Module != nil && p.Module.GoVersion != "" {
		gover = "go" + p.Module.GoVersion
	}
	in.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: in, GoVersion: gover}
	tp, err := conf.Check(p.ImportPath, in.fset, files, in.info)
	if err != nil {
		fatal("type check %s: %v", p.ImportPath, err)
	}
	in.own[p.ImportPath] = tp
	in.tpkg = tp
	in.findShared(tp)
	in.findWritten(files)

	for _, f := range files {
		in.imports(f)
	}
	rel, err := filepath.Rel(in.src, p.Dir)
	if err != nil {
		fatal("%v", err)
	}
	outDir := filepath.Join(in.out, rel)
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		fatal("%v", err)
	}
	// initialisers, in order, each emitted next to its declaration
	var order []string
	extra := map[*ast.File][]string{}
	inOrder := map[types.Object]bool{}
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
		return nil
	}
	type initz struct {
		lhs  []string
		rhs  ast.Expr
		file *ast.File
	}
	var inits []initz
	for _, it := range in.info.InitOrder {
		var lhs []string
		for _, v := range it.Lhs {
			inOrder[v] = true
			lhs = append(lhs, v.Name())
		}
		inits = append(inits, initz{lhs, it.Rhs, fileOf(it.Rhs.Pos())})
	}
	var zero []string
	scope := tp.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok && !inOrder[v] {
			zero = append(zero, n)
		}
	}
	for _, f := range files {
		in.reflected(f)
	}
	for _, f := range files {
		in.stmts(f)
		channels(reflect.ValueOf(f))
	}
	for _, f := range files {
		in.wrapReads(f)
	}
	n := 0
	var userInits []string
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				n++
				fd.Name = ast.NewIdent(fmt.Sprintf("simUserInit%d", n))
				userInits = append(userInits, fd.Name.Name)
				extra[f] = append(extra[f], fmt.Sprintf("func init() { %s() }", fd.Name.Name))
			}
		}
	}
	for i, z := range inits {
		var b bytes.Buffer
		printer.Fprint(&b, in.fset, stripPos(z.rhs))
		fn := fmt.Sprintf("simInit%d", i)
		extra[z.file] = append(extra[z.file], fmt.Sprintf("func %s() { %s = %s }", fn, strings.Join(z.lhs, ", "), b.String()))
		order = append(order, fn)
	}
	pkgName := tp.Name()
	if pkgName == "main" {
		pkgName = "xgenmain"
	}
	for i, f := range files {
		f.Name = ast.NewIdent(pkgName)
		f.Comments = nil
		f.Doc = nil
		ast.Inspect(f, func(n ast.Node) bool {
			switch d := n.(type) {
			case *ast.GenDecl:
				d.Doc = nil
			case *ast.FuncDecl:
				d.Doc = nil
			case *ast.Field:
				d.Doc, d.Comment = nil, nil
			case *ast.ValueSpec:
				d.Doc, d.Comment = nil, nil
			case *ast.TypeSpec:
				d.Doc, d.Comment = nil, nil
			case *ast.ImportSpec:
				d.Doc, d.Comment = nil, nil
			}
			return true
		})
		// import of the runtime
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/rt"`}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f); err != nil {
			fatal("print %s: %v", names[i], err)
		}
		b.WriteString("\nvar _ = simrt.Yield\n")
		for _, e := range extra[f] {
			b.WriteString("\n" + e + "\n")
		}
		if err := os.WriteFile(filepath.Join(outDir, names[i]), b.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	var z bytes.Buffer
	fmt.Fprintf(&z, "package %s\n\nimport simrt \"verifsim/rt\"\n\nfunc init() { simrt.RegisterReset(simReset) }\n\nfunc simReset() {\n", pkgName)
	for _, v := range zero {
		if v != "_" {
			fmt.Fprintf(&z, "\tsimrt.Zero(&%s)\n", v)
		}
	}
	for _, o := range order {
		fmt.Fprintf(&z, "\t%s()\n", o)
	}
	for _, u := range userInits {
		fmt.Fprintf(&z, "\t%s()\n", u)
	}
	fmt.Fprintf(&z, "}\n")
	if tp.Name() == "main" {
		fmt.Fprintf(&z, "\n// SimMain runs the command.\nfunc SimMain() { main() }\n")
	}
	if err := os.WriteFile(filepath.Join(outDir, "zz_sim.go"), z.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
}

// stripPos returns e; printing with the file set keeps line breaks legal.
func stripPos(e ast.Expr) ast.Expr { return e }

func (in *inst) imports(f *ast.File) {
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if forbidden[path] {
			fatal("import %q has no simulated version", path)
		}
		if shims[path] {
			s.Path.Value = strconv.Quote("verifsim/shim/" + path)
			if s.Name == nil {
				name := path[strings.LastIndex(path, "/")+1:]
				if path == "math/rand/v2" {
					name = "rand"
				}
				s.Name = ast.NewIdent(name)
			}
			s.EndPos = 0
		} else if s.Name == nil && in.ownPaths[path] {
			// imported under its package name; unchanged
		}
	}
}

// reflected gives the order of maps seen through reflection to the simulator.
func (in *inst) reflected(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) > 0 {
			return true
		}
		s, ok := unparen(c.Fun).(*ast.SelectorExpr)
		if !ok || in.info.Selections[s] == nil {
			return true
		}
		o := in.info.Selections[s].Obj()
		if o.Pkg() == nil || o.Pkg().Path() != "reflect" || in.info.Types[s.X].Type.String() != "reflect.Value" {
			return true
		}
		if o.Name() == "MapKeys" || o.Name() == "MapRange" {
			c.Args = []ast.Expr{s.X}
			c.Fun = &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(o.Name())}
		}
		return true
	})
}

// ---- package-level variables

// memory names the memory that e denotes if package-level variables own or
// reach it: "pkg.v", "pkg.v.f" for fields of structure values, "T.f" for
// fields reached through a pointer to a shared structure, "...[]" for the
// elements of slices held by these. It is "" for everything else.
func (in *inst) memory(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.memory(x.X)
	case *ast.Ident:
		v, ok := in.info.Uses[x].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil || !in.ownPaths[v.Pkg().Path()] || v.Parent() != v.Pkg().Scope() {
			return ""
		}
		return v.Pkg().Name() + "." + v.Name()
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := in.info.Uses[id].(*types.PkgName); isPkg {
				return in.memory(x.Sel)
			}
		}
		if n := in.sharedField(x); n != "" {
			return n
		}
		s := in.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal || s.Indirect() {
			return ""
		}
		if b := in.memory(x.X); b != "" {
			return b + "." + x.Sel.Name
		}
	case *ast.IndexExpr:
		tv, ok := in.info.Types[x.X]
		if !ok || tv.Type == nil {
			return ""
		}
		b := in.memory(x.X)
		if b == "" {
			return ""
		}
		switch tv.Type.Underlying().(type) {
		case *types.Array:
			return b
		case *types.Slice:
			return b + "[]"
		}
	}
	return ""
}

// tracked is memory, if it is written anywhere.
func (in *inst) tracked(e ast.Expr) string {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil && isSyncType(tv.Type) {
		return ""
	}
	if m := in.memory(e); m != "" && in.written[m] {
		return m
	}
	return ""
}

func isSyncType(t types.Type) bool {
	s := types.TypeString(t, nil)
	s = strings.TrimLeft(s, "*[]")
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

func (in *inst) findWritten(files []*ast.File) {
	in.written = map[string]bool{}
	mark := func(e ast.Expr) {
		if m := in.memory(e); m != "" {
			in.written[m] = true
		}
		// a field written through a value is the same field of the type
		if x, ok := unparen(e).(*ast.SelectorExpr); ok {
			if s := in.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				t := s.Recv()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if n, ok := types.Unalias(t).(*types.Named); ok {
					in.written[n.Obj().Name()+"."+x.Sel.Name] = true
				}
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						for _, l := range s.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(s.X)
				case *ast.UnaryExpr:
					if s.Op == token.AND {
						mark(s.X)
					}
				case *ast.RangeStmt:
					if s.Tok == token.ASSIGN {
						if s.Key != nil {
							mark(s.Key)
						}
						if s.Value != nil {
							mark(s.Value)
						}
					}
				case *ast.CallExpr:
					if id, ok := s.Fun.(*ast.Ident); ok && len(s.Args) > 0 {
						if b, ok := in.info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
							mark(s.Args[0])
						}
					}
				}
				return true
			})
		}
	}
}

// ---- statements

func (in *inst) site(pos token.Pos) int {
	p := in.fset.Position(pos)
	rel, err := filepath.Rel(in.src, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	in.sites = append(in.sites, site{rel, p.Line})
	return len(in.sites) - 1
}

func call(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(fn)}, Args: args}
}

func callStmt(fn string, args ...ast.Expr) ast.Stmt { return &ast.ExprStmt{X: call(fn, args...)} }

func intLit(n int) ast.Expr    { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func strLit(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func (in *inst) fresh(p string) *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("sim%s%d", p, in.tmp))
}

func (in *inst) stmts(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = in.list(x.List)
		case *ast.CaseClause:
			x.Body = in.list(x.Body)
		case *ast.CommClause:
			x.Body = in.list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				x.Body.List = []ast.Stmt{callStmt("Yield", intLit(in.site(x.Pos())))}
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				x.Body.List = []ast.Stmt{callStmt("Yield", intLit(in.site(x.Pos())))}
			}
		}
		return true
	})
}

func isSim(s ast.Stmt) bool {
	if a, ok := s.(*ast.AssignStmt); ok {
		for _, e := range append(append([]ast.Expr(nil), a.Lhs...), a.Rhs...) {
			if id, ok := e.(*ast.Ident); ok && strings.HasPrefix(id.Name, "simB") {
				return true
			}
		}
	}
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && id.Name == "simrt"
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		if isSim(s) {
			out = append(out, s)
			continue
		}
		out = append(out, callStmt("Yield", intLit(in.site(s.Pos()))))
		out = append(out, in.touches(s)...)
		out = append(out, in.rewrite(s)...)
	}
	return out
}

// direct lists the expressions that s evaluates itself (not those of nested
// statement lists).
func direct(s ast.Stmt) (es []ast.Expr) {
	switch x := s.(type) {
	case nil:
	case *ast.ExprStmt:
		es = append(es, x.X)
	case *ast.AssignStmt:
		es = append(append(es, x.Lhs...), x.Rhs...)
	case *ast.IncDecStmt:
		es = append(es, x.X)
	case *ast.ReturnStmt:
		es = append(es, x.Results...)
	case *ast.IfStmt:
		es = append(append(es, direct(x.Init)...), x.Cond)
	case *ast.ForStmt:
		es = append(es, direct(x.Init)...)
		if x.Cond != nil {
			es = append(es, x.Cond)
		}
		es = append(es, direct(x.Post)...)
	case *ast.RangeStmt:
		es = append(es, x.X)
	case *ast.SwitchStmt:
		es = append(es, direct(x.Init)...)
		if x.Tag != nil {
			es = append(es, x.Tag)
		}
		for _, c := range x.Body.List {
			es = append(es, c.(*ast.CaseClause).List...)
		}
	case *ast.TypeSwitchStmt:
		es = append(append(es, direct(x.Init)...), direct(x.Assign)...)
	case *ast.SendStmt:
		es = append(es, x.Chan, x.Value)
	case *ast.DeferStmt:
		es = append(es, x.Call)
	case *ast.GoStmt:
		es = append(es, x.Call)
	case *ast.LabeledStmt:
		es = direct(x.Stmt)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				es = append(es, sp.(*ast.ValueSpec).Values...)
			}
		}
	}
	return
}

func (in *inst) isMap(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

// copyPlace copies an expression that can be evaluated twice: variables,
// their fields, and elements at constant or variable positions.
func (in *inst) copyPlace(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.copyPlace(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return nil
		}
		if _, ok := in.info.Uses[x].(*types.Var); !ok {
			return nil
		}
		return ast.NewIdent(x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := in.info.Uses[id].(*types.PkgName); isPkg {
				return &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(x.Sel.Name)}
			}
		}
		if b := in.copyPlace(x.X); b != nil {
			return &ast.SelectorExpr{X: b, Sel: ast.NewIdent(x.Sel.Name)}
		}
	case *ast.IndexExpr:
		if in.isMap(x.X) {
			return nil
		}
		b := in.copyPlace(x.X)
		if b == nil {
			return nil
		}
		if l, ok := x.Index.(*ast.BasicLit); ok {
			return &ast.IndexExpr{X: b, Index: &ast.BasicLit{Kind: l.Kind, Value: l.Value}}
		}
		if id, ok := x.Index.(*ast.Ident); ok {
			return &ast.IndexExpr{X: b, Index: ast.NewIdent(id.Name)}
		}
	}
	return nil
}

// lhsOf returns the expressions that s assigns to.
func (in *inst) lhsOf(s ast.Stmt) []ast.Expr {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			return x.Lhs
		}
	case *ast.IncDecStmt:
		return []ast.Expr{x.X}
	case *ast.RangeStmt:
		if x.Tok == token.ASSIGN {
			var es []ast.Expr
			if x.Key != nil {
				es = append(es, x.Key)
			}
			if x.Value != nil {
				es = append(es, x.Value)
			}
			return es
		}
	case *ast.LabeledStmt:
		return in.lhsOf(x.Stmt)
	}
	return nil
}

// touches returns the reports of the writes of s. Reads are reported where
// they are evaluated (see wrapReads).
func (in *inst) touches(s ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	seen := map[string]bool{}
	add := func(k string, st ast.Stmt) {
		if !seen[k] {
			seen[k] = true
			out = append(out, st)
		}
	}
	wr := func(e ast.Expr) {
		if n := in.tracked(e); n != "" {
			if c := in.copyPlace(e); c != nil {
				add("g"+in.text(e), callStmt("Touch", &ast.UnaryExpr{Op: token.AND, X: c}, strLit(n)))
			}
		}
		if x, ok := unparen(e).(*ast.IndexExpr); ok && in.isMap(x.X) {
			if c := in.copyPlace(x.X); c != nil {
				add("m"+in.text(x.X), callStmt("MapTouch", c))
			}
		}
	}
	for _, e := range in.lhsOf(s) {
		wr(e)
	}
	for _, e := range direct(s) {
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
					if b, ok := in.info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						if c := in.copyPlace(x.Args[0]); c != nil && in.isMap(x.Args[0]) {
							add("m"+in.text(x.Args[0]), callStmt("MapTouch", c))
						}
					}
				}
				if in.isAtomic(x) {
					add("atomic", callStmt("GlobalSync"))
				}
			}
			return true
		})
	}
	return out
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *inst) text(e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, in.fset, e)
	return b.String()
}

func (in *inst) isAtomic(c *ast.CallExpr) bool {
	sel, ok := unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	f, ok := in.info.Uses[sel.Sel].(*types.Func)
	return ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic"
}

// sharedField names the field if e selects, through a pointer, a field of a
// structure type that package-level variables can reach.
func (in *inst) sharedField(e *ast.SelectorExpr) string {
	s := in.info.Selections[e]
	if s == nil || s.Kind() != types.FieldVal || len(s.Index()) != 1 {
		return ""
	}
	t := s.Recv()
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || !in.shared[n.Obj()] || isSyncType(s.Obj().Type()) {
		return ""
	}
	return n.Obj().Name() + "." + e.Sel.Name
}

// findShared collects the named structure types of this module that
// package-level variables can reach.
func (in *inst) findShared(tp *types.Package) {
	in.shared = map[*types.TypeName]bool{}
	seen := map[types.Type]bool{}
	var rec func(t types.Type)
	rec = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			if x.Obj().Pkg() == nil || !in.ownPaths[x.Obj().Pkg().Path()] {
				return
			}
			if _, ok := x.Underlying().(*types.Struct); ok {
				in.shared[x.Obj()] = true
			}
			rec(x.Underlying())
		case *types.Pointer:
			rec(x.Elem())
		case *types.Slice:
			rec(x.Elem())
		case *types.Array:
			rec(x.Elem())
		case *types.Map:
			rec(x.Key())
			rec(x.Elem())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				rec(x.Field(i).Type())
			}
		}
	}
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok {
			rec(v.Type())
		}
	}
}

// wrapReads replaces, inside function bodies, each evaluated mention of a
// written package-level variable, of a map that is indexed or ranged over, and
// of a shared field by a call that reports the read.
func (in *inst) wrapReads(f *ast.File) {
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			in.wrapNode(reflect.ValueOf(fd.Body))
		}
	}
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

func (in *inst) wrapNode(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == exprType && v.CanSet() {
			v.Set(reflect.ValueOf(in.wrapExpr(v.Interface().(ast.Expr), true)))
			return
		}
		in.wrapNode(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch n := v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.Ident, *ast.BasicLit, *ast.CommentGroup, *ast.FuncType, *ast.BranchStmt:
			return
		case *ast.AssignStmt:
			for i := range n.Lhs {
				if n.Tok == token.DEFINE {
					continue
				}
				n.Lhs[i] = in.wrapExpr(n.Lhs[i], false)
			}
			for i := range n.Rhs {
				n.Rhs[i] = in.wrapExpr(n.Rhs[i], true)
			}
			return
		case *ast.IncDecStmt:
			n.X = in.wrapExpr(n.X, false)
			return
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					n.Key = in.wrapExpr(n.Key, false)
				}
				if n.Value != nil {
					n.Value = in.wrapExpr(n.Value, false)
				}
			}
			n.X = in.wrapExpr(n.X, true)
			in.wrapNode(reflect.ValueOf(n.Body))
			return
		case *ast.ValueSpec:
			for i := range n.Values {
				n.Values[i] = in.wrapExpr(n.Values[i], true)
			}
			return
		case *ast.TypeSpec, *ast.ImportSpec:
			return
		case *ast.LabeledStmt:
			in.wrapNode(reflect.ValueOf(&n.Stmt).Elem())
			return
		}
		in.wrapNode(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			in.wrapNode(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			in.wrapNode(v.Index(i))
		}
	}
}

func rd(e ast.Expr, name string) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call("Rd", &ast.UnaryExpr{Op: token.AND, X: e}, strLit(name))}}
}

// wrapExpr rewrites e; read tells whether the value of e itself is used (as
// against assigned).
func (in *inst) wrapExpr(e ast.Expr, read bool) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := in.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if n := in.tracked(x); read && n != "" {
			return rd(x, n)
		}
	case *ast.ParenExpr:
		x.X = in.wrapExpr(x.X, read)
	case *ast.SelectorExpr:
		n := ""
		if read {
			n = in.tracked(x)
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := in.info.Uses[id].(*types.PkgName); isPkg {
				if n != "" {
					return rd(x, n)
				}
				return x
			}
		}
		// a field of a structure value: the structure itself is not read
		x.X = in.wrapExpr(x.X, in.isPtr(x.X) || read && n == "")
		if n != "" {
			return rd(x, n)
		}
	case *ast.IndexExpr:
		if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
			if _, generic := tv.Type.Underlying().(*types.Signature); generic {
				return x
			}
		}
		isMap := in.isMap(x.X)
		n := ""
		if read && !isMap {
			n = in.tracked(x)
		}
		x.X = in.wrapExpr(x.X, isMap || in.isSlice(x.X) || in.isPtr(x.X) || read && n == "")
		x.Index = in.wrapExpr(x.Index, true)
		if isMap && read {
			x.X = call("MapRd", x.X)
		}
		if n != "" {
			return rd(x, n)
		}
	case *ast.IndexListExpr:
		return x
	case *ast.StarExpr:
		x.X = in.wrapExpr(x.X, true)
	case *ast.SliceExpr:
		x.X = in.wrapExpr(x.X, read)
		x.Low = in.wrapExpr(x.Low, true)
		x.High = in.wrapExpr(x.High, true)
		x.Max = in.wrapExpr(x.Max, true)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			x.X = in.wrapExpr(x.X, in.isLit(x.X))
		} else {
			x.X = in.wrapExpr(x.X, true)
		}
	case *ast.BinaryExpr:
		x.X = in.wrapExpr(x.X, true)
		x.Y = in.wrapExpr(x.Y, true)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			if b, ok := in.info.Uses[id].(*types.Builtin); ok {
				for i := range x.Args {
					x.Args[i] = in.wrapExpr(x.Args[i], true)
					if b.Name() == "len" && in.isMap0(x.Args[i]) {
						x.Args[i] = call("MapRd", x.Args[i])
					}
				}
				return x
			}
		}
		if sel, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
			// method call: the receiver is evaluated (by address where it is
			// addressed); sync objects are left alone
			if tv, ok := in.info.Types[sel.X]; !ok || !isSyncType(tv.Type) {
				if s := in.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
					sel.X = in.wrapExpr(sel.X, true)
				} else {
					x.Fun = in.wrapExpr(x.Fun, true)
				}
			}
		} else {
			x.Fun = in.wrapExpr(x.Fun, true)
		}
		for i := range x.Args {
			x.Args[i] = in.wrapExpr(x.Args[i], true)
		}
	case *ast.CompositeLit:
		st := false
		if tv, ok := in.info.Types[x]; ok && tv.Type != nil {
			t := tv.Type.Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			_, st = t.(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !st {
					kv.Key = in.wrapExpr(kv.Key, true)
				}
				kv.Value = in.wrapExpr(kv.Value, true)
			} else {
				x.Elts[i] = in.wrapExpr(el, true)
			}
		}
	case *ast.KeyValueExpr:
		x.Value = in.wrapExpr(x.Value, true)
	case *ast.TypeAssertExpr:
		x.X = in.wrapExpr(x.X, true)
	case *ast.FuncLit:
		in.wrapNode(reflect.ValueOf(x.Body))
	}
	return e
}

func (in *inst) isMap0(e ast.Expr) bool {
	if p, ok := e.(*ast.ParenExpr); ok { // already wrapped
		if s, ok := p.X.(*ast.StarExpr); ok {
			if c, ok := s.X.(*ast.CallExpr); ok && len(c.Args) > 0 {
				if u, ok := c.Args[0].(*ast.UnaryExpr); ok {
					return in.isMap(u.X)
				}
			}
		}
	}
	return in.isMap(e)
}

func (in *inst) isPtr(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Pointer)
	return ok
}

func (in *inst) isSlice(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Slice)
	return ok
}

func (in *inst) isLit(e ast.Expr) bool {
	_, ok := unparen(e).(*ast.CompositeLit)
	return ok
}

// rewrite replaces statements; the last one carries the label, if any.
func (in *inst) rewrite(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		l := in.rewrite(x.Stmt)
		x.Stmt = l[len(l)-1]
		l[len(l)-1] = x
		return l
	case *ast.RangeStmt:
		if in.isMap(x.X) {
			return []ast.Stmt{in.mapRange(x)}
		}
		if in.isChan(x.X) {
			return []ast.Stmt{in.chanRange(x)}
		}
	case *ast.GoStmt:
		return []ast.Stmt{in.goStmt(x)}
	case *ast.SelectStmt:
		return in.selectStmt(x)
	}
	return []ast.Stmt{s}
}

// selectStmt makes the choice between the clauses one of the simulator:
//
//	c0, c1 := simrt.CaseRecv(c), simrt.CaseSend(d)(v)
//	switch simrt.Select(hasDefault, c0, c1) { case 0: x := c0.V ... }
func (in *inst) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	var pre []ast.Stmt
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	choose := call("Select", ast.NewIdent("false"))
	dflt := &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{strLit("no case")}}}}}
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			choose.Args[0] = ast.NewIdent("true")
			dflt = &ast.CaseClause{Body: cc.Body}
			continue
		}
		h := in.fresh("B")
		var rhs ast.Expr
		body := cc.Body
		recv := func(e ast.Expr) ast.Expr {
			return call("CaseRecv", unparen(e).(*ast.UnaryExpr).X)
		}
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = &ast.CallExpr{Fun: call("CaseSend", y.Chan), Args: []ast.Expr{y.Value}}
		case *ast.ExprStmt:
			rhs = recv(y.X)
		case *ast.AssignStmt:
			rhs = recv(y.Rhs[0])
			get := &ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, TokPos: y.TokPos}
			for i := range y.Lhs {
				get.Rhs = append(get.Rhs, &ast.SelectorExpr{X: ast.NewIdent(h.Name), Sel: ast.NewIdent([]string{"V", "OK"}[i])})
			}
			body = append([]ast.Stmt{get}, body...)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{h}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}})
		choose.Args = append(choose.Args, ast.NewIdent(h.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: body})
		n++
	}
	sw.Tag = choose
	sw.Body.List = append(sw.Body.List, dflt)
	return append(pre, sw)
}

// channels leads sends and receives through the simulator.
func channels(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		channels(v.Elem())
		if !v.CanSet() {
			return
		}
		switch x := v.Interface().(type) {
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				v.Set(reflect.ValueOf(call("Recv", x.X)))
			}
		case *ast.SendStmt:
			v.Set(reflect.ValueOf(&ast.ExprStmt{X: &ast.CallExpr{Fun: call("Send", x.Chan), Args: []ast.Expr{x.Value}}}))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		two := func(n int, es []ast.Expr) {
			if n == 2 && len(es) == 1 {
				if u, ok := unparen(es[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					es[0] = call("Recv2", u.X)
				}
			}
		}
		switch x := v.Interface().(type) {
		case *ast.Object, *ast.Scope:
			return
		case *ast.AssignStmt:
			two(len(x.Lhs), x.Rhs)
		case *ast.ValueSpec:
			two(len(x.Names), x.Values)
		}
		channels(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			channels(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			channels(v.Field(i))
		}
	}
}

func (in *inst) mapRange(x *ast.RangeStmt) ast.Stmt {
	it := in.fresh("It")
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	addr := func(e ast.Expr) ast.Expr {
		if isBlank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	siteArg := intLit(in.site(x.Pos()))
	lhs := []ast.Expr{it}
	var fn string
	if x.Tok == token.DEFINE {
		k, v := isBlank(x.Key), isBlank(x.Value)
		switch {
		case k && v:
			fn = "MapIter"
		case v:
			fn = "MapIterK"
			lhs = append(lhs, x.Key)
		case k:
			fn = "MapIterV"
			lhs = append(lhs, x.Value)
		default:
			fn = "MapIterKV"
			lhs = append(lhs, x.Key, x.Value)
		}
	} else {
		fn = "MapIter"
	}
	f := &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(fn, siteArg, x.X)}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(x.Key), addr(x.Value)}},
		Body: x.Body,
	}
	return f
}

func (in *inst) isChan(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// chanRange turns "for k := range c" into receives by the runtime.
func (in *inst) chanRange(x *ast.RangeStmt) ast.Stmt {
	it := in.fresh("Ch")
	lhs := []ast.Expr{it}
	fn := "ChanIter"
	var key ast.Expr = ast.NewIdent("nil")
	if id, ok := x.Key.(*ast.Ident); x.Key != nil && !(ok && id.Name == "_") {
		if x.Tok == token.DEFINE {
			fn = "ChanIterV"
			lhs = append(lhs, x.Key)
		}
		key = &ast.UnaryExpr{Op: token.AND, X: x.Key}
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(fn, x.X)}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")}, Args: []ast.Expr{key}},
		Body: x.Body,
	}
}

func (in *inst) goStmt(x *ast.GoStmt) ast.Stmt {
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
		return callStmt("Go", fl)
	}
	// evaluate function and arguments now
	b := &ast.BlockStmt{}
	f := in.fresh("F")
	tv := in.info.Types[x.Call.Fun]
	if tv.IsBuiltin() {
		return callStmt("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x.Call}}}})
	}
	b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Call.Fun}})
	nc := &ast.CallExpr{Fun: ast.NewIdent(f.Name), Ellipsis: x.Call.Ellipsis}
	for _, a := range x.Call.Args {
		if at := in.info.Types[a]; at.Value != nil || at.IsNil() {
			nc.Args = append(nc.Args, a)
			continue
		}
		v := in.fresh("A")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		nc.Args = append(nc.Args, ast.NewIdent(v.Name))
	}
	b.List = append(b.List, callStmt("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}))
	return b
}
