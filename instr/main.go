// instr writes instrumented copies of the Go files of a module and an overlay file that puts them (and the
// simulator runtime) in place of the originals for one build. It never writes into the module itself.
//
//	instr -repo /repo -rt /verif/simrt -out DIR [-race]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles, CgoFiles             []string
	Imports                       []string
	Standard                      bool
	Module                        *struct{ Path, GoVersion string }
	Error                         *struct{ Err string }
	DepsErrors                    []*struct{ Err string }
}

var (
	repo = flag.String("repo", "/repo", "module to instrument")
	rt   = flag.String("rt", "/verif/simrt", "runtime sources")
	out  = flag.String("out", "", "output directory")
	race = flag.Bool("race", false, "memory access instrumentation")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	exports := map[string]string{}
	var pkgs []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && strings.HasPrefix(p.Dir, filepath.Clean(*repo)) {
			q := p
			pkgs = append(pkgs, &q) // -deps lists dependencies first
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	overlay := map[string]string{}
	src := filepath.Join(*out, "src")
	os.RemoveAll(src)
	modPath := ""
	var resets []string
	for _, p := range pkgs {
		modPath = p.Module.Path
		if len(p.CgoFiles) > 0 {
			die("%s uses cgo", p.ImportPath)
		}
		ip := &inst{fset: fset, pkg: p, main: p.Name == "main"}
		sort.Strings(p.GoFiles)
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			ip.files = append(ip.files, af)
			ip.names = append(ip.names, f)
		}
		ip.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp, GoVersion: "go" + p.Module.GoVersion}
		tp, err := conf.Check(p.ImportPath, fset, ip.files, ip.info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		ip.tpkg = tp
		ip.run()
		rel, _ := filepath.Rel(*repo, p.Dir)
		target := p.Dir
		if ip.main {
			if rel != "." {
				continue // only the server's own main package is simulated
			}
			target = filepath.Join(*repo, "verifsim", "gmain")
			resets = append(resets, modPath+"/verifsim/gmain")
		} else {
			resets = append(resets, p.ImportPath)
		}
		for i, af := range ip.files {
			var b bytes.Buffer
			if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, af); err != nil {
				die("print %s: %v", ip.names[i], err)
			}
			b.WriteString(ip.extra[i])
			dst := filepath.Join(src, rel, ip.names[i])
			if ip.main {
				dst = filepath.Join(src, "gmain", ip.names[i])
			}
			must(os.MkdirAll(filepath.Dir(dst), 0755))
			must(os.WriteFile(dst, b.Bytes(), 0644))
			overlay[filepath.Join(target, ip.names[i])] = dst
		}
		dst := filepath.Join(src, rel, "zz_verif_reset.go")
		if ip.main {
			dst = filepath.Join(src, "gmain", "zz_verif_reset.go")
		}
		must(os.WriteFile(dst, []byte(ip.resetFile()), 0644))
		overlay[filepath.Join(target, "zz_verif_reset.go")] = dst
	}
	// aggregated reset
	var b strings.Builder
	b.WriteString("package vreset\n\nimport (\n")
	for i, r := range resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, r)
	}
	b.WriteString(")\n\n// All gives every package the state of a freshly started process.\nfunc All() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.VerifReset()\n", i)
	}
	b.WriteString("}\n")
	dst := filepath.Join(src, "vreset", "vreset.go")
	must(os.MkdirAll(filepath.Dir(dst), 0755))
	must(os.WriteFile(dst, []byte(b.String()), 0644))
	overlay[filepath.Join(*repo, "verifsim", "vreset", "vreset.go")] = dst
	// runtime
	filepath.Walk(*rt, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*rt, p)
			overlay[filepath.Join(*repo, "verifsim", rel)] = p
		}
		return nil
	})
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// whole-import replacements
var whole = map[string]string{"sync": "ssync", "sync/atomic": "satomic"}

// selector replacements
var sels = map[string]struct {
	pkg   string
	names string
}{
	"time":         {"stime", "Now Since Until Sleep After AfterFunc NewTimer Timer NewTicker Ticker Tick"},
	"net":          {"snet", "Listen ListenTCP ListenConfig TCPConn TCPListener"},
	"os":           {"sos", "OpenFile Open Create Stat Lstat Mkdir MkdirAll ReadFile WriteFile Remove RemoveAll Rename Truncate Stdout Stderr Stdin Exit File"},
	"os/signal":    {"ssignal", "Notify Stop Reset Ignore Ignored NotifyContext"},
	"context":      {"scontext", "WithCancel WithCancelCause WithTimeout WithDeadline WithTimeoutCause WithDeadlineCause AfterFunc Cause"},
	"math/rand":    {"srand", "Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float64 Float32 Perm Shuffle Seed"},
	"math/rand/v2": {"srand2", "Int IntN Int64 Int64N Int32 Int32N Uint32 Uint64 Uint64N Uint32N Float64 Float32 Perm Shuffle"},
	"log":          {"slog", "Fatal Fatalf Fatalln"},
	"io/ioutil":    {"sos", "ReadFile WriteFile"},
}

type inst struct {
	fset  *token.FileSet
	pkg   *listPkg
	main  bool
	files []*ast.File
	names []string
	info  *types.Info
	tpkg  *types.Package
	extra []string

	cur     int
	used    map[string]bool // runtime packages used by the current file
	tmp     int
	inits   []string // renamed init functions
	varLoc  map[types.Object]varLoc
	capt    map[types.Object]bool
	funcs   []ast.Node
	initSeq []string
}
type varLoc struct {
	file int
	spec *ast.ValueSpec
	idx  int
}

func (p *inst) t(prefix string) *ast.Ident {
	p.tmp++
	return ast.NewIdent("_v" + prefix + strconv.Itoa(p.tmp))
}

func (p *inst) rtsel(pkg, name string) ast.Expr {
	p.used[pkg] = true
	return &ast.SelectorExpr{X: ast.NewIdent("_v_" + pkg), Sel: ast.NewIdent(name)}
}
func (p *inst) sim(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: p.rtsel("sim", name), Args: args}
}
func (p *inst) y() ast.Stmt { return &ast.ExprStmt{X: p.sim("Y")} }

func (p *inst) run() {
	p.varLoc = map[types.Object]varLoc{}
	p.extra = make([]string, len(p.files))
	p.findCaptured()
	for i, f := range p.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					for k, n := range vs.Names {
						if o := p.info.Defs[n]; o != nil {
							p.varLoc[o] = varLoc{i, vs, k}
						}
					}
				}
			}
		}
	}
	for i, f := range p.files {
		p.cur = i
		p.used = map[string]bool{}
		p.file(f)
	}
	p.genReset()
	for i, f := range p.files {
		_ = i
		if p.main {
			f.Name = ast.NewIdent("gmain")
		}
	}
}

// findCaptured finds local variables shared between a function and a function literal inside it.
func (p *inst) findCaptured() {
	p.capt = map[types.Object]bool{}
	for _, f := range p.files {
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := p.info.Uses[id].(*types.Var); ok && !o.IsField() && o.Parent() != nil && o.Parent() != p.tpkg.Scope() && o.Pkg() == p.tpkg {
					for k := len(stack) - 1; k >= 0; k-- {
						if fl, ok := stack[k].(*ast.FuncLit); ok {
							if o.Pos() < fl.Pos() || o.Pos() > fl.End() {
								p.capt[o] = true
							}
							break
						}
					}
				}
			}
			return true
		})
	}
}

func (p *inst) file(f *ast.File) {
	pkgUses := map[string]int{}
	// selectors
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := p.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		path := pn.Imported().Path()
		if w, ok := whole[path]; ok {
			p.used[w] = true
			s.X = ast.NewIdent("_v_" + w)
			return true
		}
		if r, ok := sels[path]; ok {
			for _, nm := range strings.Fields(r.names) {
				if nm == s.Sel.Name {
					p.used[r.pkg] = true
					s.X = ast.NewIdent("_v_" + r.pkg)
					return true
				}
			}
		}
		pkgUses[pn.Name()]++
		return true
	})
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				nm := fmt.Sprintf("verifInit%d_%d", p.cur, len(p.inits))
				d.Name = ast.NewIdent(nm)
				p.inits = append(p.inits, nm)
			}
			if p.main && d.Recv == nil && d.Name.Name == "main" {
				d.Name = ast.NewIdent("Main")
			}
			if d.Body != nil {
				p.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					p.valueSpec(vs)
				}
			}
		}
	}
	// imports
	var specs []ast.Spec
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if o, ok := p.info.Implicits[is]; ok {
				name = o.Name()
			}
			if name != "_" && name != "." {
				_, w := whole[path]
				_, r := sels[path]
				if (w || r) && pkgUses[name] == 0 {
					continue
				}
			}
			keep = append(keep, s)
		}
		g.Specs = keep
		g.Lparen = 1
	}
	var us []string
	for u := range p.used {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("_v_" + u), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p.pkg.Module.Path + "/verifsim/" + u)}})
	}
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	if len(specs) > 0 {
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs}}, decls...)
	}
	f.Decls = decls
	f.Imports = nil
}

func (p *inst) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			vs.Values[0] = p.sim("Recv2", p.expr(u.X))
			return
		}
	}
	for i := range vs.Values {
		vs.Values[i] = p.expr(vs.Values[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		q, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = q.X
	}
}

func (p *inst) typ(e ast.Expr) types.Type {
	if tv, ok := p.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := p.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := p.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}
func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}
func coreType(t types.Type) types.Type {
	u := under(t)
	if i, ok := u.(*types.Interface); ok {
		// type parameter constraints: take the single core type, if any
		for k := 0; k < i.NumEmbeddeds(); k++ {
			if un, ok := i.EmbeddedType(k).(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
		}
	}
	return u
}

// ---- statements ----

func (p *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = p.list(b.List)
}

func (p *inst) loopBody(b *ast.BlockStmt) {
	p.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{p.y()}
	}
}

func (p *inst) list(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			r = append(r, s)
			continue
		}
		if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
			r = append(r, s)
			continue
		}
		r = append(r, p.y())
		r = append(r, p.stmt(s, true)...)
	}
	return r
}

func (p *inst) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := p.stmt(s, false)
	if len(r) != 1 {
		die("internal: statement in simple position expanded: %T", s)
	}
	return r[0]
}

func (p *inst) stmt(s ast.Stmt, inList bool) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		p.block(s)
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.SelectStmt:
			return []ast.Stmt{p.sel(in, s.Label)}
		case *ast.GoStmt, *ast.AssignStmt, *ast.IncDecStmt:
			s.Stmt = &ast.BlockStmt{List: p.stmt(in, true)}
			// a label on a simple statement can only be a goto target
			return []ast.Stmt{s}
		}
		r := p.stmt(s.Stmt, false)
		s.Stmt = r[0]
	case *ast.ExprStmt:
		s.X = p.expr(s.X)
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: p.sim("SendTo", p.expr(s.Chan)), Args: []ast.Expr{p.expr(s.Value)}}}}
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if inList && p.shared(s.X) && pure(s.X) {
			return []ast.Stmt{p.rmw(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})}
		}
		s.X = p.lhs(s.X)
	case *ast.AssignStmt:
		return p.assign(s, inList)
	case *ast.GoStmt:
		return []ast.Stmt{p.goStmt(s)}
	case *ast.DeferStmt:
		s.Call = p.call(s.Call)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = p.expr(s.Results[i])
		}
	case *ast.IfStmt:
		s.Init = p.one(s.Init)
		s.Cond = p.expr(s.Cond)
		p.block(s.Body)
		if s.Else != nil {
			s.Else = p.one(s.Else)
		}
	case *ast.CaseClause:
		for i := range s.List {
			s.List[i] = p.expr(s.List[i])
		}
		s.Body = p.list(s.Body)
	case *ast.SwitchStmt:
		s.Init = p.one(s.Init)
		if s.Tag != nil {
			s.Tag = p.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			p.stmt(c, false)
		}
	case *ast.TypeSwitchStmt:
		s.Init = p.one(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			ta := unparen(a.X).(*ast.TypeAssertExpr)
			ta.X = p.expr(ta.X)
		case *ast.AssignStmt:
			ta := unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
			ta.X = p.expr(ta.X)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = p.list(cc.Body)
		}
	case *ast.SelectStmt:
		return []ast.Stmt{p.sel(s, nil)}
	case *ast.ForStmt:
		s.Init = p.one(s.Init)
		if s.Cond != nil {
			s.Cond = p.expr(s.Cond)
		}
		s.Post = p.one(s.Post)
		p.loopBody(s.Body)
	case *ast.RangeStmt:
		return []ast.Stmt{p.rng(s)}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				p.valueSpec(sp.(*ast.ValueSpec))
			}
		}
	}
	return []ast.Stmt{s}
}

// pure: evaluating the expression twice is the same as once.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.BinaryExpr:
		return pure(e.X) && pure(e.Y)
	}
	return false
}

// shared: the expression designates memory other goroutines may reach.
func (p *inst) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o, ok := p.info.Uses[e].(*types.Var)
		if !ok {
			return false
		}
		return o.Parent() == p.tpkg.Scope() || p.capt[o]
	case *ast.SelectorExpr:
		if sl, ok := p.info.Selections[e]; ok {
			if sl.Kind() != types.FieldVal {
				return false
			}
			if sl.Indirect() {
				return true
			}
			return p.shared(e.X)
		}
		_, ok := p.info.Uses[e.Sel].(*types.Var)
		return ok // qualified package variable
	case *ast.IndexExpr:
		switch coreType(p.typ(e.X)).(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return true
		case *types.Array:
			return p.shared(e.X)
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

func clone(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		c := *e
		return &c
	case *ast.BasicLit:
		c := *e
		return &c
	case *ast.SelectorExpr:
		c := *e
		c.X = clone(e.X)
		return &c
	case *ast.IndexExpr:
		c := *e
		c.X, c.Index = clone(e.X), clone(e.Index)
		return &c
	case *ast.StarExpr:
		c := *e
		c.X = clone(e.X)
		return &c
	case *ast.ParenExpr:
		c := *e
		c.X = clone(e.X)
		return &c
	case *ast.BinaryExpr:
		c := *e
		c.X, c.Y = clone(e.X), clone(e.Y)
		return &c
	}
	return e
}

// copyInfo keeps type information for a cloned pure expression.
func (p *inst) copyInfo(a, b ast.Expr) {
	if tv, ok := p.info.Types[a]; ok {
		p.info.Types[b] = tv
	}
	switch x := a.(type) {
	case *ast.Ident:
		y := b.(*ast.Ident)
		if o := p.info.Uses[x]; o != nil {
			p.info.Uses[y] = o
		}
		if o := p.info.Defs[x]; o != nil {
			p.info.Defs[y] = o
		}
	case *ast.SelectorExpr:
		y := b.(*ast.SelectorExpr)
		if s, ok := p.info.Selections[x]; ok {
			p.info.Selections[y] = s
		}
		p.copyInfo(x.X, y.X)
	case *ast.IndexExpr:
		y := b.(*ast.IndexExpr)
		p.copyInfo(x.X, y.X)
		p.copyInfo(x.Index, y.Index)
	case *ast.StarExpr:
		p.copyInfo(x.X, b.(*ast.StarExpr).X)
	case *ast.ParenExpr:
		p.copyInfo(x.X, b.(*ast.ParenExpr).X)
	case *ast.BinaryExpr:
		p.copyInfo(x.X, b.(*ast.BinaryExpr).X)
		p.copyInfo(x.Y, b.(*ast.BinaryExpr).Y)
	}
}

func (p *inst) rmw(x ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	c := clone(x)
	p.copyInfo(x, c)
	t := p.t("t")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{p.expr(x)}},
		p.y(),
		&ast.AssignStmt{Lhs: []ast.Expr{p.lhs(c)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(t.Name), Op: op, Y: rhs}}},
	}}
}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func (p *inst) assign(s *ast.AssignStmt, inList bool) []ast.Stmt {
	if op, ok := assignOps[s.Tok]; ok {
		if inList && p.shared(s.Lhs[0]) && pure(s.Lhs[0]) {
			return []ast.Stmt{p.rmw(s.Lhs[0], op, &ast.ParenExpr{X: p.expr(s.Rhs[0])})}
		}
		s.Lhs[0] = p.lhs(s.Lhs[0])
		s.Rhs[0] = p.expr(s.Rhs[0])
		return []ast.Stmt{s}
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = p.sim("Recv2", p.expr(u.X))
			if s.Tok == token.ASSIGN {
				for i := range s.Lhs {
					s.Lhs[i] = p.lhs(s.Lhs[i])
				}
			}
			return []ast.Stmt{s}
		}
		if ix, ok := unparen(s.Rhs[0]).(*ast.IndexExpr); ok { // v, ok := m[k]
			ix.X = p.readMap(ix.X)
			ix.Index = p.expr(ix.Index)
			if s.Tok == token.ASSIGN {
				for i := range s.Lhs {
					s.Lhs[i] = p.lhs(s.Lhs[i])
				}
			}
			return []ast.Stmt{s}
		}
	}
	if inList && s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && p.shared(s.Lhs[0]) && pure(s.Lhs[0]) {
		tv, ok := p.info.Types[s.Rhs[0]]
		lt := p.typ(s.Lhs[0])
		_, lit := unparen(s.Rhs[0]).(*ast.FuncLit)
		if ok && tv.Value == nil && !tv.IsNil() && lt != nil && !lit {
			rt := tv.Type
			if b, ok := rt.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
				if !simpleOperand(s.Rhs[0]) {
					t := p.t("t")
					return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
						&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{p.expr(s.Rhs[0])}},
						p.y(),
						&ast.AssignStmt{Lhs: []ast.Expr{p.lhs(s.Lhs[0])}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}},
					}}}
				}
			}
		}
	}
	for i := range s.Rhs {
		s.Rhs[i] = p.expr(s.Rhs[i])
	}
	if s.Tok == token.ASSIGN {
		for i := range s.Lhs {
			s.Lhs[i] = p.lhs(s.Lhs[i])
		}
	}
	return []ast.Stmt{s}
}

func simpleOperand(e ast.Expr) bool {
	switch unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	}
	return false
}

func (p *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	call := s.Call
	if fl, ok := unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		p.block(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: p.sim("Go", fl)}
		}
		return &ast.ExprStmt{X: p.sim("Go", thunk(&ast.CallExpr{Fun: fl}))}
	}
	if tv, ok := p.info.Types[call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		return &ast.ExprStmt{X: p.sim("Go", thunk(p.call(call)))}
	}
	var pre []ast.Stmt
	fn := p.t("f")
	fe := p.expr(call.Fun)
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{fe}})
	nc := &ast.CallExpr{Fun: ast.NewIdent(fn.Name)}
	if call.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	for _, a := range call.Args {
		tv, ok := p.info.Types[a]
		_, tuple := tv.Type.(*types.Tuple)
		if !ok || tv.Value != nil || tv.IsNil() || tuple {
			nc.Args = append(nc.Args, p.expr(a))
			continue
		}
		t := p.t("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{p.expr(a)}})
		nc.Args = append(nc.Args, ast.NewIdent(t.Name))
	}
	pre = append(pre, &ast.ExprStmt{X: p.sim("Go", thunk(nc))})
	return &ast.BlockStmt{List: pre}
}

func thunk(c *ast.CallExpr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
}

func (p *inst) sel(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ExprStmt{X: p.sim("Forever")}
	}
	var pre []ast.Stmt
	var args []ast.Expr
	var clauses []ast.Stmt
	hasDef := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			clauses = append(clauses, &ast.CaseClause{Body: p.list(cc.Body)})
			continue
		}
		cv := p.t("c")
		var body []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{
				&ast.CallExpr{Fun: p.sim("SendCase", p.expr(cm.Chan)), Args: []ast.Expr{p.expr(cm.Value)}}}})
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{p.sim("RecvCase", p.expr(u.X))}})
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{p.sim("RecvCase", p.expr(u.X))}})
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(cv.Name), Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(cv.Name), Sel: ast.NewIdent("OK")})
			}
			lhs := cm.Lhs
			if cm.Tok == token.ASSIGN {
				for i := range lhs {
					lhs[i] = p.lhs(lhs[i])
				}
			}
			body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: cm.Tok, Rhs: rhs})
		}
		args = append(args, ast.NewIdent(cv.Name))
		body = append(body, p.list(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	def := "false"
	if hasDef {
		def = "true"
	} else {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: p.sim("Select", append([]ast.Expr{ast.NewIdent(def)}, args...)...), Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func (p *inst) rng(s *ast.RangeStmt) ast.Stmt {
	switch coreType(p.typ(s.X)).(type) {
	case *types.Map:
		it := p.t("it")
		k, v := s.Key, s.Value
		var pre []ast.Stmt
		kn, vn := p.t("k"), p.t("v")
		if s.Tok == token.DEFINE {
			if !isBlank(k) {
				kn = k.(*ast.Ident)
			}
			if !isBlank(v) {
				vn = v.(*ast.Ident)
			}
		} else {
			if !isBlank(k) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{p.lhs(k)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(kn.Name)}})
			}
			if !isBlank(v) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{p.lhs(v)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vn.Name)}})
			}
		}
		f := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{it, kn, vn}, Tok: token.DEFINE, Rhs: []ast.Expr{p.sim("MapRange", p.expr(s.X))}},
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(ast.NewIdent(kn.Name)), addr(ast.NewIdent(vn.Name))}},
			Body: s.Body,
		}
		p.loopBody(s.Body)
		s.Body.List = append(pre, s.Body.List...)
		return f
	case *types.Chan:
		c := p.t("c")
		vn := p.t("v")
		var pre []ast.Stmt
		if s.Tok == token.DEFINE {
			if !isBlank(s.Key) {
				vn = s.Key.(*ast.Ident)
			}
		} else if !isBlank(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{p.lhs(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vn.Name)}})
		}
		f := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{c, vn}, Tok: token.DEFINE, Rhs: []ast.Expr{p.sim("RangeCh", p.expr(s.X))}},
			Cond: p.sim("NextCh", ast.NewIdent(c.Name), addr(ast.NewIdent(vn.Name))),
			Body: s.Body,
		}
		p.loopBody(s.Body)
		s.Body.List = append(pre, s.Body.List...)
		return f
	}
	s.X = p.expr(s.X)
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			s.Key = p.lhs(s.Key)
		}
		if s.Value != nil {
			s.Value = p.lhs(s.Value)
		}
	}
	p.loopBody(s.Body)
	return s
}

// ---- expressions ----

// lhs rewrites an assignment target.
func (p *inst) lhs(e ast.Expr) ast.Expr {
	if isBlank(e) {
		return e
	}
	if *race {
		if ix, ok := unparen(e).(*ast.IndexExpr); ok {
			if _, m := coreType(p.typ(ix.X)).(*types.Map); m {
				ix.X = p.sim("WMap", p.expr(ix.X))
				ix.Index = p.expr(ix.Index)
				return ix
			}
		}
		if p.shared(e) && p.canAddr(e) {
			return &ast.StarExpr{X: p.sim("Wr", addr(p.inner(e)))}
		}
	}
	return p.inner(e)
}

func (p *inst) canAddr(e ast.Expr) bool {
	tv, ok := p.info.Types[e]
	if ok {
		return tv.Addressable()
	}
	if id, isId := unparen(e).(*ast.Ident); isId {
		_, v := p.info.Uses[id].(*types.Var)
		return v
	}
	return false
}

func (p *inst) readMap(x ast.Expr) ast.Expr {
	if *race {
		if _, m := coreType(p.typ(x)).(*types.Map); m {
			return p.sim("RMap", p.expr(x))
		}
	}
	return p.expr(x)
}

// inner rewrites the sub-expressions of e but does not report an access to e itself.
func (p *inst) inner(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		e.X = p.inner(e.X)
		return e
	case *ast.SelectorExpr:
		if _, ok := p.info.Selections[e]; ok {
			e.X = p.base(e.X)
		}
		return e
	case *ast.IndexExpr:
		switch coreType(p.typ(e.X)).(type) {
		case *types.Array:
			e.X = p.inner(e.X)
		default:
			e.X = p.expr(e.X)
		}
		e.Index = p.expr(e.Index)
		return e
	case *ast.StarExpr:
		e.X = p.expr(e.X)
		return e
	case *ast.Ident:
		return e
	}
	return p.expr(e)
}

// base rewrites x in x.f: a struct value is not itself accessed, a pointer is read.
func (p *inst) base(x ast.Expr) ast.Expr {
	t := p.typ(x)
	if t == nil {
		return x
	}
	if _, ok := coreType(t).(*types.Pointer); ok {
		return p.expr(x)
	}
	if _, ok := coreType(t).(*types.Interface); ok {
		return p.expr(x)
	}
	if p.canAddr(x) {
		return p.inner(x)
	}
	return p.expr(x)
}

func (p *inst) isType(e ast.Expr) bool {
	tv, ok := p.info.Types[e]
	return ok && tv.IsType()
}

func (p *inst) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := p.info.Types[e]; ok && (tv.IsType() || tv.Value != nil || tv.IsBuiltin()) {
		return e
	}
	if *race && p.shared(e) {
		if ix, ok := unparen(e).(*ast.IndexExpr); ok {
			if _, m := coreType(p.typ(ix.X)).(*types.Map); m {
				ix.X = p.sim("RMap", p.expr(ix.X))
				ix.Index = p.expr(ix.Index)
				return ix
			}
		}
		if p.canAddr(e) && !syncType(p.typ(e)) {
			return &ast.ParenExpr{X: &ast.StarExpr{X: p.sim("Rd", addr(p.inner(e)))}}
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		e.X = p.expr(e.X)
	case *ast.SelectorExpr:
		if sl, ok := p.info.Selections[e]; ok {
			if sl.Kind() == types.MethodVal {
				// implicit address of a value receiver's variable is not a read
				if sig, ok := sl.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					_, ptr := sig.Recv().Type().(*types.Pointer)
					if ptr && p.canAddr(e.X) {
						if _, isPtr := coreType(p.typ(e.X)).(*types.Pointer); !isPtr {
							e.X = p.inner(e.X)
							return e
						}
					}
				}
				e.X = p.expr(e.X)
				return e
			}
			e.X = p.base(e.X)
		}
	case *ast.IndexExpr:
		if p.isType(e.Index) {
			return e // generic instantiation
		}
		e.X = p.readMap(e.X)
		e.Index = p.expr(e.Index)
	case *ast.SliceExpr:
		if _, arr := coreType(p.typ(e.X)).(*types.Array); arr {
			e.X = p.inner(e.X)
		} else {
			e.X = p.expr(e.X)
		}
		e.Low, e.High, e.Max = p.expr(e.Low), p.expr(e.High), p.expr(e.Max)
	case *ast.StarExpr:
		e.X = p.expr(e.X)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.ARROW:
			return p.sim("Recv", p.expr(e.X))
		case token.AND:
			if _, ok := unparen(e.X).(*ast.CompositeLit); ok {
				e.X = p.expr(e.X)
			} else {
				e.X = p.inner(e.X)
			}
		default:
			e.X = p.expr(e.X)
		}
	case *ast.BinaryExpr:
		e.X, e.Y = p.expr(e.X), p.expr(e.Y)
	case *ast.CallExpr:
		return p.call(e)
	case *ast.TypeAssertExpr:
		e.X = p.expr(e.X)
	case *ast.CompositeLit:
		_, isStruct := coreType(p.typ(e)).(*types.Struct)
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = p.expr(kv.Key)
				}
				kv.Value = p.expr(kv.Value)
			} else {
				e.Elts[i] = p.expr(el)
			}
		}
	case *ast.FuncLit:
		p.block(e.Body)
	}
	return e
}

func syncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := coreType(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (p *inst) call(c *ast.CallExpr) *ast.CallExpr {
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, b := p.info.Uses[id].(*types.Builtin); b {
			switch id.Name {
			case "close":
				return p.sim("Close", p.expr(c.Args[0]))
			case "len":
				switch coreType(p.typ(c.Args[0])).(type) {
				case *types.Chan:
					return p.sim("LenCh", p.expr(c.Args[0]))
				case *types.Map:
					c.Args[0] = p.readMap(c.Args[0])
					return c
				}
			case "delete":
				if *race {
					c.Args[0] = p.sim("WMap", p.expr(c.Args[0]))
				} else {
					c.Args[0] = p.expr(c.Args[0])
				}
				c.Args[1] = p.expr(c.Args[1])
				return c
			case "make":
				for i := 1; i < len(c.Args); i++ {
					tv := p.info.Types[c.Args[i]]
					a := p.expr(c.Args[i])
					if tv.Value == nil {
						if _, ch := coreType(p.typ(c.Args[0])).(*types.Chan); !ch {
							a = p.sim("AllocN", a)
						}
					}
					c.Args[i] = a
				}
				return c
			case "copy":
				if *race && isByteSlice(p.typ(c.Args[0])) {
					c.Args[0] = p.sim("WSl", p.expr(c.Args[0]))
					if isByteSlice(p.typ(c.Args[1])) {
						c.Args[1] = p.sim("RSl", p.expr(c.Args[1]))
					} else {
						c.Args[1] = p.expr(c.Args[1])
					}
					return c
				}
			case "append":
				if *race && isByteSlice(p.typ(c.Args[0])) && len(c.Args) == 2 && c.Ellipsis.IsValid() && isByteSlice(p.typ(c.Args[1])) {
					src := c.Args[1]
					if pure(src) {
						cp := clone(src)
						p.copyInfo(src, cp)
						n := &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{cp}}
						c.Args[0] = p.sim("WSlCap", p.expr(c.Args[0]), n)
					} else {
						c.Args[0] = p.expr(c.Args[0])
					}
					c.Args[1] = p.sim("RSl", p.expr(src))
					return c
				}
			case "new", "recover", "print", "println":
				for i := range c.Args {
					c.Args[i] = p.expr(c.Args[i])
				}
				return c
			}
			for i := range c.Args {
				c.Args[i] = p.expr(c.Args[i])
			}
			return c
		}
	}
	if tv, ok := p.info.Types[c.Fun]; ok && tv.IsType() { // conversion
		if *race && len(c.Args) == 1 && isByteSlice(p.typ(c.Args[0])) {
			if b, ok := coreType(tv.Type).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				c.Args[0] = p.sim("RSl", p.expr(c.Args[0]))
				return c
			}
		}
		for i := range c.Args {
			c.Args[i] = p.expr(c.Args[i])
		}
		return c
	}
	rep := false
	if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if pn, ok := p.info.Uses[id].(*types.PkgName); ok && s.Sel.Name == "Repeat" && (pn.Imported().Path() == "strings" || pn.Imported().Path() == "bytes") {
				rep = true
			}
		}
	}
	c.Fun = p.expr(c.Fun)
	for i := range c.Args {
		c.Args[i] = p.expr(c.Args[i])
	}
	if rep && len(c.Args) == 2 && p.info.Types[c.Args[1]].Value == nil {
		c.Args[1] = p.sim("AllocN", c.Args[1])
	}
	return c
}

// ---- reset ----

func (p *inst) genReset() {
	str := func(e ast.Expr) string {
		var b bytes.Buffer
		printer.Fprint(&b, p.fset, e)
		return b.String()
	}
	inited := map[types.Object]bool{}
	n := 0
	for _, in := range p.info.InitOrder {
		var names []string
		var loc varLoc
		found := false
		for _, l := range in.Lhs {
			inited[l] = true
			names = append(names, l.Name())
			if x, ok := p.varLoc[l]; ok {
				loc, found = x, true
			}
		}
		if !found {
			continue
		}
		idx := loc.idx
		if len(loc.spec.Values) == 1 {
			idx = 0
		}
		fn := fmt.Sprintf("verifVar%d", n)
		n++
		p.extra[loc.file] += fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), str(loc.spec.Values[idx]))
		p.initSeq = append(p.initSeq, fn+"()")
	}
	var zero []string
	for o := range p.varLoc {
		if !inited[o] && o.Name() != "_" {
			zero = append(zero, "_v_sim.Zero(&"+o.Name()+")")
		}
	}
	sort.Strings(zero)
	p.initSeq = append(zero, p.initSeq...)
	for _, i := range p.inits {
		p.initSeq = append(p.initSeq, i+"()")
	}
}

func (p *inst) resetFile() string {
	name := p.pkg.Name
	if p.main {
		name = "gmain"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport _v_sim %q\n\nvar _ = _v_sim.Epoch\n\n// VerifReset puts the package in the state of a freshly started process.\nfunc VerifReset() {\n", name, p.pkg.Module.Path+"/verifsim/sim")
	for _, s := range p.initSeq {
		b.WriteString("\t" + s + "\n")
	}
	b.WriteString("}\n")
	return b.String()
}
