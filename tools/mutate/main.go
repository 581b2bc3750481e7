// mutate PKGDIR OUTDIR FIRST IMPORTCFG: writes mutant schemata of a package.
//
// Every mutant has a number; the built program behaves as mutant N when the
// environment has MUTANT=N.  mutants.txt lists them.  With MUTHITS=FILE, a
// file of one byte per mutant, the sites that run are marked in it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	a, b int // offsets
	f    func(inner string) string
}

type gen struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	src   []byte
	file  string
	edits []edit
	n     int
	list  *strings.Builder
	skip  map[string]bool
	fn    string
}

func (g *gen) off(p token.Pos) int { return g.fset.Position(p).Offset }
func (g *gen) text(n ast.Node) string {
	return string(g.src[g.off(n.Pos()):g.off(n.End())])
}

// id makes a mutant, or returns 0 when it is to be left out.
func (g *gen) id(n ast.Node, what string) int {
	g.n++
	p := g.fset.Position(n.Pos())
	t := strings.Join(strings.Fields(g.text(n)), " ")
	if len(t) > 90 {
		t = t[:90] + "..."
	}
	if g.skip[strconv.Itoa(g.n)] {
		return 0
	}
	fmt.Fprintf(g.list, "%d\t%s:%d\t%s\t%s\t%s\n", g.n, g.file, p.Line, g.fn, what, t)
	return g.n
}

func (g *gen) wrap(n ast.Node, f func(string) string) {
	g.edits = append(g.edits, edit{g.off(n.Pos()), g.off(n.End()), f})
}

type alt struct {
	id   int
	text string
}

// choose replaces an expression of type typ by one that some mutants alter.
func (g *gen) choose(n ast.Node, typ string, alts []alt) {
	s := ""
	for _, a := range alts {
		if a.id != 0 {
			s += fmt.Sprintf("if mutOn(%d) { return %s }; ", a.id, a.text)
		}
	}
	if s == "" {
		return
	}
	g.wrap(n, func(inner string) string {
		return fmt.Sprintf("func() %s { %sreturn %s }()", typ, s, inner)
	})
}

func (g *gen) typ(e ast.Expr) string {
	t := g.info.Types[e].Type
	if t == nil {
		return ""
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	return types.TypeString(t, func(p *types.Package) string {
		if p == g.pkg {
			return ""
		}
		return p.Name()
	})
}

func (g *gen) basic(e ast.Expr) types.BasicInfo {
	t := g.info.Types[e].Type
	if t == nil {
		return 0
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func isLog(s string) bool {
	return strings.HasPrefix(s, "logf(") || strings.HasPrefix(s, "fmt.Print")
}

func (g *gen) expr(e ast.Expr, constOK bool) {
	switch x := e.(type) {
	case nil:
		return
	case *ast.CallExpr:
		if isLog(g.text(x)) || g.text(x.Fun) == "fmt.Errorf" || g.text(x.Fun) == "panic" || g.text(x.Fun) == "errors.New" {
			return
		}
	case *ast.FuncLit:
		g.block(x.Body)
		return
	case *ast.ArrayType, *ast.StructType, *ast.MapType, *ast.FuncType, *ast.InterfaceType, *ast.ChanType:
		return
	}
	tv := g.info.Types[e]
	if tv.IsType() {
		return
	}
	if tv.Value != nil {
		if !constOK {
			return
		}
		switch {
		case g.basic(e)&types.IsInteger != 0:
			if v, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok && g.typ(e) != "" {
				alts := []alt{{g.id(e, "+1"), "func() "+g.typ(e)+" { var mutX "+g.typ(e)+" = "+g.text(e)+"; mutX += 1; return mutX }()"}}
				if v > 0 {
					alts = append(alts, alt{g.id(e, "-1"), "func() "+g.typ(e)+" { var mutX "+g.typ(e)+" = "+g.text(e)+"; mutX -= 1; return mutX }()"})
				}
				g.choose(e, g.typ(e), alts)
			}
		case g.basic(e)&types.IsBoolean != 0:
			g.choose(e, g.typ(e), []alt{{g.id(e, "not"), "!" + g.text(e)}})
		}
		return
	}
	switch x := e.(type) {
	case *ast.BinaryExpr:
		l, r := g.text(x.X), g.text(x.Y)
		var alts []alt
		op := func(o string) {
			alts = append(alts, alt{g.id(x, x.Op.String()+" -> "+o), l + " " + o + " " + r})
		}
		switch x.Op {
		case token.LSS:
			op("<=")
		case token.LEQ:
			op("<")
		case token.GTR:
			op(">=")
		case token.GEQ:
			op(">")
		case token.LAND:
			op("||")
			alts = append(alts, alt{g.id(x, "left only"), l}, alt{g.id(x, "right only"), r})
		case token.LOR:
			op("&&")
			alts = append(alts, alt{g.id(x, "left only"), l}, alt{g.id(x, "right only"), r})
		case token.ADD:
			if g.basic(x)&types.IsInteger != 0 {
				op("-")
			}
		case token.SUB:
			if g.basic(x)&types.IsInteger != 0 {
				op("+")
			}
		case token.MUL:
			op("+")
		case token.QUO, token.REM:
			op("*")
		case token.SHL:
			op(">>")
		case token.SHR:
			op("<<")
		case token.AND:
			op("|")
		case token.OR:
			op("&")
		case token.XOR:
			op("|")
		case token.EQL, token.NEQ:
			// Conditions are negated below; here only parts of conditions.
		}
		g.choose(e, g.typ(e), alts)
		shift := x.Op == token.SHL || x.Op == token.SHR
		_ = shift
		g.expr(x.X, true)
		g.expr(x.Y, true)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if c, ok := x.X.(*ast.CompositeLit); ok {
				g.expr(c, true)
			}
			return
		}
		g.expr(x.X, true)
	case *ast.ParenExpr:
		g.expr(x.X, true)
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.SelectorExpr); ok {
			g.expr(f.X, true)
		}
		if f, ok := x.Fun.(*ast.FuncLit); ok {
			g.block(f.Body)
		}
		name := g.text(x.Fun)
		for i, a := range x.Args {
			if name == "make" && i == 0 || name == "new" {
				continue
			}
			if name == "append" && i == 0 {
				continue
			}
			g.expr(a, true)
		}
	case *ast.SelectorExpr:
		g.expr(x.X, true)
	case *ast.IndexExpr:
		g.expr(x.X, true)
		g.expr(x.Index, true)
	case *ast.SliceExpr:
		g.expr(x.X, true)
		for _, k := range []ast.Expr{x.Low, x.High, x.Max} {
			if k != nil {
				if g.info.Types[k].Value == nil && g.basic(k)&types.IsInteger != 0 {
					if _, ok := k.(*ast.BinaryExpr); !ok {
						g.choose(k, g.typ(k), []alt{{g.id(k, "slice +1"), g.text(k) + " + 1"}, {g.id(k, "slice -1"), g.text(k) + " - 1"}})
					}
				}
				g.expr(k, true)
			}
		}
	case *ast.TypeAssertExpr:
		g.expr(x.X, true)
	case *ast.StarExpr:
		g.expr(x.X, true)
	case *ast.CompositeLit:
		t := g.info.Types[x].Type
		st := false
		if t != nil {
			_, st = t.Underlying().(*types.Struct)
		}
		for _, el := range x.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				g.expr(el, true)
				continue
			}
			if st {
				ty := g.typ(kv.Value)
				if ft := fieldType(t, g.text(kv.Key)); ft != nil {
					ty = types.TypeString(ft, func(p *types.Package) string {
						if p == g.pkg {
							return ""
						}
						return p.Name()
					})
				}
				if ty != "" {
					z := g.id(kv, "field zero")
					if z != 0 {
						ty := ty
						g.wrap(kv.Value, func(inner string) string {
							return fmt.Sprintf("func() (mutZ %s) { if mutOn(%d) { return }; return %s }()", ty, z, inner)
						})
					}
				}
			}
			g.expr(kv.Value, true)
		}
	}
}

func fieldType(t types.Type, name string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (g *gen) cond(e ast.Expr) {
	if e == nil {
		return
	}
	g.choose(e, "bool", []alt{{g.id(e, "cond true"), "true"}, {g.id(e, "cond false"), "false"}})
	if b, ok := e.(*ast.BinaryExpr); ok {
		g.parts(b)
	}
	g.expr(e, false)
}

// parts negates the comparisons in a condition.
func (g *gen) parts(b *ast.BinaryExpr) {
	if b.Op != token.LAND && b.Op != token.LOR {
		return
	}
	for _, x := range []ast.Expr{b.X, b.Y} {
		if p, ok := x.(*ast.BinaryExpr); ok && (p.Op == token.LAND || p.Op == token.LOR) {
			g.parts(p)
			continue
		}
		g.choose(x, "bool", []alt{{g.id(x, "not"), "!(" + g.text(x) + ")"}})
	}
}

func (g *gen) stmts(l []ast.Stmt) {
	for _, s := range l {
		g.stmt(s, true)
	}
}

func (g *gen) block(b *ast.BlockStmt) {
	if b != nil {
		g.stmts(b.List)
	}
}

// remove makes a mutant without the statement.
func (g *gen) remove(s ast.Stmt) {
	if k := g.id(s, "removed"); k != 0 {
		g.wrap(s, func(inner string) string { return fmt.Sprintf("if !mutOn(%d) { %s }", k, inner) })
	}
}

func (g *gen) stmt(s ast.Stmt, inList bool) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		t := g.text(x)
		if isLog(t) || strings.HasPrefix(t, "panic(") {
			return
		}
		if inList {
			g.remove(s)
		}
		g.expr(x.X, true)
	case *ast.AssignStmt:
		if inList && x.Tok != token.DEFINE {
			g.remove(s)
		}
		for _, e := range x.Lhs {
			if i, ok := e.(*ast.IndexExpr); ok {
				g.expr(i.Index, true)
			}
		}
		for _, e := range x.Rhs {
			// A constant given to a new variable keeps its type.
			g.expr(e, true)
		}
	case *ast.IncDecStmt:
		if inList {
			g.remove(s)
		}
	case *ast.BranchStmt:
		if inList && x.Tok != token.FALLTHROUGH && x.Tok != token.GOTO {
			g.remove(s)
		}
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			g.expr(e, true)
		}
	case *ast.IfStmt:
		if x.Init != nil {
			g.stmt(x.Init, false)
		}
		g.cond(x.Cond)
		g.block(x.Body)
		if x.Else != nil {
			g.stmt(x.Else, false)
		}
	case *ast.ForStmt:
		if x.Init != nil {
			g.stmt(x.Init, false)
		}
		if x.Cond != nil {
			g.expr(x.Cond, false)
		}
		if x.Cond != nil {
			g.once(x.Body)
		}
		g.block(x.Body)
	case *ast.RangeStmt:
		g.expr(x.X, false)
		g.once(x.Body)
		g.block(x.Body)
	case *ast.SwitchStmt:
		if x.Init != nil {
			g.stmt(x.Init, false)
		}
		g.expr(x.Tag, false)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			if x.Tag == nil {
				for _, e := range cc.List {
					g.cond(e)
				}
			}
			g.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			g.stmts(c.(*ast.CaseClause).Body)
		}
	case *ast.BlockStmt:
		g.block(x)
	case *ast.DeclStmt:
		if d, ok := x.Decl.(*ast.GenDecl); ok && d.Tok == token.VAR {
			for _, s := range d.Specs {
				for _, v := range s.(*ast.ValueSpec).Values {
					g.expr(v, true)
				}
			}
		}
	case *ast.GoStmt:
		g.expr(x.Call, true)
	case *ast.DeferStmt:
		if inList {
			g.remove(s)
		}
		if f, ok := x.Call.Fun.(*ast.FuncLit); ok {
			g.block(f.Body)
		}
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			g.stmts(c.(*ast.CommClause).Body)
		}
	case *ast.LabeledStmt:
		g.stmt(x.Stmt, false)
	}
}

// once ends a loop after its first round.
func (g *gen) once(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		return
	}
	if k := g.id(b, "loop once"); k != 0 {
		p := g.off(b.End()) - 1
		g.edits = append(g.edits, edit{p, p, func(string) string { return fmt.Sprintf("; if mutOn(%d) { break }\n", k) }})
	}
}

// render applies the edits in [a, b), starting with those from index i.
func render(src []byte, es []edit, a, b int) string {
	var out strings.Builder
	p := a
	for i := 0; i < len(es); {
		e := es[i]
		j := i + 1
		for j < len(es) && es[j].b <= e.b && (es[j].a < e.b || e.a == e.b && es[j].a == e.a) {
			j++
		}
		out.Write(src[p:e.a])
		out.WriteString(e.f(render(src, es[i+1:j], e.a, e.b)))
		p = e.b
		i = j
	}
	out.Write(src[p:b])
	return out.String()
}

const support = `package %s

import (
	"os"
	"strconv"
	"syscall"
)

var mutSel, mutHits = func() (int, []byte) {
	n, _ := strconv.Atoi(os.Getenv("MUTANT"))
	if f := os.Getenv("MUTHITS"); f != "" {
		h, err := os.OpenFile(f, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		b, err := syscall.Mmap(int(h.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			panic(err)
		}
		return n, b
	}
	return n, nil
}()

func mutOn(n int) bool {
	if mutHits != nil {
		mutHits[n] = 1
	}
	return mutSel == n
}
`

func main() {
	dir, out := os.Args[1], os.Args[2]
	first, _ := strconv.Atoi(os.Args[3])
	skip := map[string]bool{}
	if b, err := os.ReadFile(os.Args[4]); err == nil {
		for _, f := range strings.Fields(string(b)) {
			skip[f] = true
		}
	}
	os.Chdir(dir)
	fset := token.NewFileSet()
	names, _ := filepath.Glob("*.go")
	sort.Strings(names)
	var files []*ast.File
	var used []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, "zz_") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		used = append(used, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(err error) { fmt.Fprintln(os.Stderr, err) }}
	pkg, _ := conf.Check(files[0].Name.Name, fset, files, info)
	os.MkdirAll(out, 0o755)
	var list strings.Builder
	n := first
	for i, f := range files {
		src, _ := os.ReadFile(used[i])
		g := &gen{fset: fset, info: info, pkg: pkg, src: src, file: used[i], n: n, list: &list, skip: skip}
		if used[i] != "log.go" {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				if fd.Name.Name == "String" || fd.Name.Name == "init" {
					continue
				}
				g.fn = fd.Name.Name
				g.block(fd.Body)
			}
		}
		n = g.n
		sort.SliceStable(g.edits, func(a, b int) bool {
			x, y := g.edits[a], g.edits[b]
			if x.a != y.a {
				return x.a < y.a
			}
			return x.b > y.b
		})
		var b bytes.Buffer
		b.WriteString(render(src, g.edits, 0, len(src)))
		os.WriteFile(filepath.Join(out, used[i]), b.Bytes(), 0o644)
	}
	os.WriteFile(filepath.Join(out, "zz_mut.go"), []byte(fmt.Sprintf(support, pkg.Name())), 0o644)
	os.WriteFile(filepath.Join(out, "mutants.txt"), []byte(list.String()), 0o644)
	fmt.Println(n)
}
