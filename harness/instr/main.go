// instr rewrites the packages of the code under test so that their concurrency, timers and map
// iteration go through the controlled scheduler (../vsched and siblings). It writes the rewritten
// files to -out and a go build overlay mapping the original files to them.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles                       []string
	Imports                       []string
	Standard                      bool
}

var (
	out     = flag.String("out", "", "output directory")
	overlay = flag.String("overlay", "", "overlay file to write")
	modfile = flag.String("modfile", "", "modfile")
	prefix  = flag.String("prefix", "github.com/flawedmatrix/gocryptsftp/", "packages to instrument")
	skip    = flag.String("skip", "requesterfakes,/tools", "path suffixes to leave alone")
	swap    = flag.String("swap", "", "imports to replace by models: path=model,path=model")
	extra   = flag.String("extra", "", "overlay entries to add: dst=src,dst=src")
)

func main() {
	flag.Parse()
	args := []string{"list", "-mod=mod", "-modfile=" + *modfile, "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Imports,Standard"}
	args = append(args, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal(err)
	}
	exports := map[string]string{}
	var todo []*pkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, *prefix) && p.Name != "main" {
			ok := true
			for _, s := range strings.Split(*skip, ",") {
				if s != "" && strings.HasSuffix(p.ImportPath, s) {
					ok = false
				}
			}
			if ok {
				todo = append(todo, p)
			}
		}
	}
	repl := map[string]string{}
	var order []string
	for _, p := range todo { // -deps lists dependencies first
		instrument(p, exports, repl)
		order = append(order, p.ImportPath)
	}
	if *extra != "" {
		for _, kv := range strings.Split(*extra, ",") {
			i := strings.IndexByte(kv, '=')
			repl[kv[:i]] = kv[i+1:]
		}
	}
	// the package that re-initialises everything at the start of an execution
	var r bytes.Buffer
	r.WriteString("package reinit\n\nimport (\n")
	for i, p := range order {
		fmt.Fprintf(&r, "\tp%d %q\n", i, p)
	}
	r.WriteString(")\n\n// All re-runs the package initialisers of the code under test.\nfunc All() {\n")
	for i := range order {
		fmt.Fprintf(&r, "\tp%d.VerifReinit()\n", i)
	}
	r.WriteString("}\n")
	rf := filepath.Join(*out, "reinit.go")
	must(os.WriteFile(rf, r.Bytes(), 0644))
	wd, _ := os.Getwd()
	repl[filepath.Join(wd, "reinit", "reinit.go")] = rf
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	must(os.WriteFile(*overlay, ob, 0644))
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fatal(err)
	}
}

type rw struct {
	p     *pkg
	fset  *token.FileSet
	info  *types.Info
	tpkg  *types.Package
	used  map[string]bool // imports needed in the current file: vsched, vtime, vcrypt
	keep  map[string]bool // package names that may have become unused
	n     int
	inits int
}

func instrument(p *pkg, exports map[string]string, repl map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		must(err)
		files = append(files, af)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal(p.ImportPath, err)
	}
	w := &rw{p: p, fset: fset, info: info, tpkg: tp}
	varDecl := map[types.Object]*ast.ValueSpec{}
	fileOf := map[*ast.ValueSpec]int{}
	for i, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					fileOf[vs] = i
					for _, n := range vs.Names {
						if o := info.Defs[n]; o != nil {
							varDecl[o] = vs
						}
					}
				}
			}
		}
	}
	// per file: list of re-init functions; global order from InitOrder
	reinitBodies := make([][]ast.Stmt, 0)
	type ri struct {
		file int
		name string
	}
	var calls []ri
	pending := map[int][]ast.Decl{}
	addFn := func(file int, name string, body []ast.Stmt) {
		pending[file] = append(pending[file], &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		calls = append(calls, ri{file, name})
	}
	_ = reinitBodies
	// rewrite first (initialisers are then copied in rewritten form)
	ffiles := make([]*fileState, len(files))
	for i, f := range files {
		w.used, w.keep = map[string]bool{}, map[string]bool{}
		w.file(f)
		ffiles[i] = &fileState{f: f, used: w.used, keep: w.keep}
	}
	k := 0
	// zero-initialised variables
	for i, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					k++
					addFn(i, "verifZero"+strconv.Itoa(k), []ast.Stmt{
						&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("z")}, Type: vs.Type}}}},
						&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("z")}},
					})
				}
			}
		}
	}
	for _, ini := range info.InitOrder {
		var lhs []ast.Expr
		vs := varDecl[ini.Lhs[0]]
		blank := true
		for _, l := range ini.Lhs {
			lhs = append(lhs, ast.NewIdent(l.Name()))
			if l.Name() != "_" {
				blank = false
			}
		}
		if vs == nil {
			// blank identifiers have no object: not observable
			continue
		}
		if blank {
			continue
		}
		var rhs ast.Expr
		if len(vs.Values) == len(vs.Names) {
			for j, n := range vs.Names {
				if info.Defs[n] == ini.Lhs[0] {
					rhs = vs.Values[j]
				}
			}
		} else if len(vs.Values) == 1 {
			rhs = vs.Values[0]
		}
		if rhs == nil {
			continue
		}
		k++
		addFn(fileOf[vs], "verifVar"+strconv.Itoa(k), []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}})
	}
	for i, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				k++
				name := "verifInit" + strconv.Itoa(k)
				fd.Name = ast.NewIdent(name)
				pending[i] = append(pending[i], &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}}}})
				calls = append(calls, ri{i, name})
			}
		}
	}
	var body []ast.Stmt
	for _, c := range calls {
		body = append(body, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(c.name)}})
	}
	pending[0] = append(pending[0], &ast.FuncDecl{Name: ast.NewIdent("VerifReinit"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	dir := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, *prefix), "/", "_"))
	must(os.MkdirAll(dir, 0755))
	for i, f := range files {
		w.imports(f, ffiles[i])
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		must((&printer.Config{Mode: printer.SourcePos | printer.TabIndent | printer.UseSpaces, Tabwidth: 8}).Fprint(&buf, fset, f))
		for _, d := range pending[i] {
			buf.WriteString("\n\n")
			must((&printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), d))
		}
		buf.WriteString("\n")
		for _, kdecl := range keepDecls(f, ffiles[i].keep) {
			buf.WriteString(kdecl)
		}
		dst := filepath.Join(dir, p.GoFiles[i])
		must(os.WriteFile(dst, buf.Bytes(), 0644))
		repl[filepath.Join(p.Dir, p.GoFiles[i])] = dst
	}
}

type fileState struct {
	f          *ast.File
	used, keep map[string]bool
}

func keepDecls(f *ast.File, keep map[string]bool) []string {
	m := map[string]string{"time": "var _ %s.Duration\n", "context": "var _ %s.Context\n", "runtime": "var _ %s.Error\n", "golang.org/x/crypto/scrypt": "var _ = %s.Key\n"}
	var o []string
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if keep[p] {
			n := filepath.Base(p)
			if s.Name != nil {
				n = s.Name.Name
			}
			o = append(o, fmt.Sprintf(m[p], n))
		}
	}
	return o
}

func (w *rw) imports(f *ast.File, st *fileState) {
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		switch p {
		case "sync":
			if s.Name == nil {
				s.Name = ast.NewIdent("sync")
			}
			s.Path.Value = `"verif/vsync"`
		case "sync/atomic":
			if s.Name == nil {
				s.Name = ast.NewIdent("atomic")
			}
			s.Path.Value = `"verif/vatomic"`
		}
		for _, kv := range strings.Split(*swap, ",") {
			if i := strings.IndexByte(kv, '='); i > 0 && kv[:i] == p {
				if s.Name == nil {
					s.Name = ast.NewIdent(filepath.Base(p))
				}
				s.Path.Value = strconv.Quote(kv[i+1:])
			}
		}
	}
	var specs []ast.Spec
	for _, n := range []string{"vsched", "vtime", "vcrypt"} {
		if st.used[n] {
			specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(n + "_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/" + n)}})
		}
	}
	if len(specs) > 0 {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1}}, f.Decls...)
	}
}

func (w *rw) v(name string) ast.Expr {
	w.used["vsched"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)}
}

func (w *rw) tmp(s string) *ast.Ident {
	w.n++
	return ast.NewIdent(fmt.Sprintf("_v%s%d", s, w.n))
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func define(l, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func (w *rw) file(f *ast.File) {
	for _, d := range f.Decls {
		w.node(reflect.ValueOf(d))
	}
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

// node rewrites everything below the struct pointed to by v.
func (w *rw) node(v reflect.Value) {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	s := v.Elem()
	if s.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < s.NumField(); i++ {
		w.field(s.Field(i))
	}
}

func (w *rw) field(f reflect.Value) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		if f.Type() == exprT {
			f.Set(reflect.ValueOf(w.expr(f.Interface().(ast.Expr))))
		} else if f.Type() == stmtT {
			f.Set(reflect.ValueOf(w.stmt(f.Interface().(ast.Stmt))))
		} else if f.Type().Implements(nodeT) {
			w.node(f)
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			w.field(f.Index(i))
		}
	case reflect.Ptr:
		if f.IsNil() {
			return
		}
		switch f.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.Ident, *ast.CommentGroup, *ast.BasicLit:
			return
		}
		if f.Type().Implements(nodeT) {
			w.node(f)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *rw) isChan(e ast.Expr) bool {
	t := w.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (w *rw) isMap(e ast.Expr) bool {
	t := w.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (w *rw) builtin(e ast.Expr) string {
	if id, ok := unparen(e).(*ast.Ident); ok {
		if b, ok := w.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (w *rw) pkgOf(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		if p, ok := w.info.Uses[id].(*types.PkgName); ok {
			return p.Imported().Path()
		}
	}
	return ""
}

var timeNames = map[string]bool{"After": true, "Sleep": true, "NewTimer": true, "Timer": true, "Tick": true, "NewTicker": true, "Ticker": true, "AfterFunc": true, "Now": true, "Since": true, "Until": true}
var ctxNames = map[string]bool{"WithTimeout": true, "WithDeadline": true, "WithCancel": true}
var rtNames = map[string]string{"Gosched": "Yield", "GC": "Nop", "NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Goexit": "Goexit"}

func (w *rw) expr(e ast.Expr) ast.Expr {
	switch t := e.(type) {
	case *ast.UnaryExpr:
		if t.Op == token.ARROW {
			return call(w.v("Recv"), w.expr(t.X))
		}
	case *ast.CallExpr:
		b := w.builtin(t.Fun)
		switch b {
		case "close", "len", "cap":
			if len(t.Args) == 1 && w.isChan(t.Args[0]) {
				n := map[string]string{"close": "Close", "len": "Len", "cap": "Cap"}[b]
				return call(w.v(n), w.expr(t.Args[0]))
			}
		case "make":
			if ct, ok := unparen(t.Args[0]).(*ast.ChanType); ok && ct.Dir == ast.SEND|ast.RECV {
				el := w.expr(ct.Value)
				var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
				if len(t.Args) > 1 {
					n = call(ast.NewIdent("int"), w.expr(t.Args[1]))
				}
				return call(&ast.IndexExpr{X: w.v("MakeChan"), Index: el}, n)
			}
			if len(t.Args) == 2 && w.isMap(e) {
				t.Args[0] = w.expr(t.Args[0])
				t.Args[1] = call(w.v("Hint"), call(ast.NewIdent("int"), w.expr(t.Args[1])))
				return t
			}
		}
	case *ast.SelectorExpr:
		switch w.pkgOf(t.X) {
		case "time":
			if timeNames[t.Sel.Name] {
				w.used["vtime"], w.keep["time"] = true, true
				return &ast.SelectorExpr{X: ast.NewIdent("vtime_"), Sel: ast.NewIdent(t.Sel.Name)}
			}
		case "context":
			if ctxNames[t.Sel.Name] {
				w.used["vtime"], w.keep["context"] = true, true
				return &ast.SelectorExpr{X: ast.NewIdent("vtime_"), Sel: ast.NewIdent(t.Sel.Name)}
			}
		case "runtime":
			if n, ok := rtNames[t.Sel.Name]; ok {
				w.keep["runtime"] = true
				return w.v(n)
			}
		case "golang.org/x/crypto/scrypt":
			if t.Sel.Name == "Key" {
				w.used["vcrypt"], w.keep["golang.org/x/crypto/scrypt"] = true, true
				return &ast.SelectorExpr{X: ast.NewIdent("vcrypt_"), Sel: ast.NewIdent("ScryptKey")}
			}
		}
		t.X = w.expr(t.X)
		return t
	}
	w.node(reflect.ValueOf(e))
	return e
}

func (w *rw) stmt(s ast.Stmt) ast.Stmt {
	switch t := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(w.v("SendTo"), w.expr(t.Chan)), w.expr(t.Value))}
	case *ast.AssignStmt:
		if len(t.Lhs) == 2 && len(t.Rhs) == 1 {
			if u, ok := isRecv(t.Rhs[0]); ok {
				for i := range t.Lhs {
					t.Lhs[i] = w.expr(t.Lhs[i])
				}
				t.Rhs[0] = call(w.v("Recv2"), w.expr(u.X))
				return t
			}
		}
	case *ast.DeclStmt:
		if g, ok := t.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := isRecv(vs.Values[0]); ok {
						vs.Values[0] = call(w.v("Recv2"), w.expr(u.X))
					}
				}
			}
		}
	case *ast.DeferStmt: // its call is no expression to the walk
		if c, ok := w.expr(t.Call).(*ast.CallExpr); ok {
			t.Call = c
		}
		return t
	case *ast.GoStmt:
		return w.goStmt(t)
	case *ast.SelectStmt:
		return w.selectStmt(t, nil)
	case *ast.RangeStmt:
		if r := w.rangeStmt(t, nil); r != nil {
			return r
		}
	case *ast.LabeledStmt:
		switch b := t.Stmt.(type) {
		case *ast.SelectStmt:
			return w.selectStmt(b, t.Label)
		case *ast.RangeStmt:
			if r := w.rangeStmt(b, t.Label); r != nil {
				return r
			}
		}
	}
	w.node(reflect.ValueOf(s))
	return s
}

func label(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func (w *rw) rangeStmt(t *ast.RangeStmt, l *ast.Ident) ast.Stmt {
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	if w.isChan(t.X) {
		c, ok := w.tmp("c"), w.tmp("ok")
		x := w.expr(t.X)
		var key ast.Expr = ast.NewIdent("_")
		if t.Key != nil {
			key = w.expr(t.Key)
		}
		w.node(reflect.ValueOf(t.Body))
		rc := func() ast.Expr { return call(w.v("Recv2"), c) }
		pre := []ast.Stmt{define(c, x)}
		tok := token.DEFINE
		if t.Tok == token.ASSIGN {
			tok = token.ASSIGN
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}})
		}
		f := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: tok, Rhs: []ast.Expr{rc()}},
			Cond: ok,
			Post: &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{rc()}},
			Body: t.Body,
		}
		return &ast.BlockStmt{List: append(pre, label(l, f))}
	}
	if w.isMap(t.X) && !(blank(t.Key) && blank(t.Value)) {
		m, ki, ok := w.tmp("m"), w.tmp("k"), w.tmp("ok")
		x := w.expr(t.X)
		pre := []ast.Stmt{define(m, x)}
		val, key := t.Value, t.Key
		w.node(reflect.ValueOf(t.Body))
		var body []ast.Stmt
		vt := w.tmp("e")
		var use ast.Expr = ast.NewIdent("_")
		if !blank(val) {
			use = vt
		}
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{use, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: ki}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if t.Tok == token.DEFINE {
			// shared loop variables, as in the language version of the repository
			if !blank(key) {
				pre = append(pre, define(key, call(w.v("ZeroK"), m)))
			}
			if !blank(val) {
				pre = append(pre, define(val, call(w.v("ZeroV"), m)))
			}
		} else {
			if key != nil {
				key = w.expr(key)
			}
			if val != nil {
				val = w.expr(val)
			}
		}
		if !blank(key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ki}})
		}
		if !blank(val) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: token.ASSIGN, Rhs: []ast.Expr{vt}})
		}
		body = append(body, t.Body)
		f := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ki, Tok: token.DEFINE, X: call(w.v("SortedKeys"), m), Body: &ast.BlockStmt{List: body}}
		return &ast.BlockStmt{List: append(pre, label(l, f))}
	}
	return nil
}

func (w *rw) goStmt(t *ast.GoStmt) ast.Stmt {
	c := t.Call
	var pre []ast.Stmt
	var fun ast.Expr
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
		w.node(reflect.ValueOf(f))
		if len(c.Args) == 0 && f.Type.Results == nil {
			return &ast.ExprStmt{X: call(w.v("Go"), f)}
		}
		id := w.tmp("f")
		pre = append(pre, define(id, f))
		fun = id
	case *ast.Ident:
		if w.builtin(f) != "" {
			fun = f
			break
		}
		if _, ok := w.info.Uses[f].(*types.Func); ok {
			fun = f
			break
		}
		id := w.tmp("f")
		pre = append(pre, define(id, f))
		fun = id
	case *ast.SelectorExpr:
		if w.pkgOf(f.X) != "" {
			fun = w.expr(f)
			break
		}
		id := w.tmp("f")
		pre = append(pre, define(id, w.expr(f)))
		fun = id
	default:
		id := w.tmp("f")
		pre = append(pre, define(id, w.expr(c.Fun)))
		fun = id
	}
	var args []ast.Expr
	if len(c.Args) == 1 {
		if tt, ok := w.info.Types[c.Args[0]].Type.(*types.Tuple); ok {
			var l []ast.Expr
			for i := 0; i < tt.Len(); i++ {
				id := w.tmp("a")
				l = append(l, id)
				args = append(args, id)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(c.Args[0])}})
		}
	}
	if args == nil {
		for _, a := range c.Args {
			tv := w.info.Types[a]
			if tv.Value != nil || tv.IsNil() || tv.IsType() {
				args = append(args, w.expr(a))
				continue
			}
			id := w.tmp("a")
			pre = append(pre, define(id, w.expr(a)))
			args = append(args, id)
		}
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	// builtin close/send inside go statements keep their rewritten form
	if w.builtin(fun) == "close" {
		inner = call(w.v("Close"), args...)
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(w.v("Go"), lit)})}
}

func (w *rw) selectStmt(t *ast.SelectStmt, l *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	def := "false"
	sel := w.tmp("s")
	args := []ast.Expr{nil}
	var clauses []ast.Stmt
	k := 0
	for _, c := range t.Body.List {
		cc := c.(*ast.CommClause)
		var head []ast.Stmt
		var tag []ast.Expr
		if cc.Comm == nil {
			def = "true"
		} else {
			tag = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}
			k++
			switch m := cc.Comm.(type) {
			case *ast.SendStmt:
				id := w.tmp("k")
				pre = append(pre, define(id, call(call(w.v("SendCase"), w.expr(m.Chan)), w.expr(m.Value))))
				args = append(args, id)
			case *ast.ExprStmt:
				u, _ := isRecv(m.X)
				id := w.tmp("c")
				pre = append(pre, define(id, w.expr(u.X)))
				args = append(args, call(w.v("RecvCase"), id))
			case *ast.AssignStmt:
				u, _ := isRecv(m.Rhs[0])
				id := w.tmp("c")
				pre = append(pre, define(id, w.expr(u.X)))
				args = append(args, call(w.v("RecvCase"), id))
				got := "Got"
				if len(m.Lhs) == 2 {
					got = "Got2"
				}
				for i := range m.Lhs {
					m.Lhs[i] = w.expr(m.Lhs[i])
				}
				head = append(head, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{call(w.v(got), id, sel)}})
			}
		}
		for i := range cc.Body {
			cc.Body[i] = w.stmt(cc.Body[i])
		}
		clauses = append(clauses, &ast.CaseClause{List: tag, Body: append(head, cc.Body...)})
	}
	if def == "false" {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vsched: unreachable"`})}}})
	}
	args[0] = ast.NewIdent(def)
	pre = append(pre, define(sel, call(w.v("Select"), args...)))
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{List: clauses}}
	return &ast.BlockStmt{List: append(pre, label(l, sw))}
}
