// refactor lists behaviour-preserving edits of a Go module as JSON lines
// {file, kind, line, edits: [{start, end, text}]}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
}

type change struct {
	File  string `json:"file"`
	Kind  string `json:"kind"`
	Line  int    `json:"line"`
	Edits []edit `json:"edits"`
}

type gen struct {
	fs   *token.FileSet
	info *types.Info
	pkg  *types.Package
	src  []byte
	file string
	enc  *json.Encoder
	n    int
	fd   *ast.FuncDecl
}

func (g *gen) off(p token.Pos) int      { return g.fs.Position(p).Offset }
func (g *gen) txt(n ast.Node) string    { return string(g.src[g.off(n.Pos()):g.off(n.End())]) }
func (g *gen) in(a, b token.Pos) string { return string(g.src[g.off(a):g.off(b)]) }

func (g *gen) put(kind string, at ast.Node, es ...edit) {
	g.enc.Encode(change{g.file, kind, g.fs.Position(at.Pos()).Line, es})
}

func (g *gen) rep(n ast.Node, text string) edit {
	return edit{g.off(n.Pos()), g.off(n.End()), text}
}

func (g *gen) name(s string) string { g.n++; return fmt.Sprintf("%s%d", s, g.n) }

func main() {
	root, _ := filepath.Abs(os.Args[1])
	fs := token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedImports | packages.NeedDeps, Dir: root, Fset: fs}, "./...")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			path := fs.Position(f.Pos()).Filename
			rel, err := filepath.Rel(root, path)
			if err != nil || strings.HasPrefix(rel, "..") || strings.HasSuffix(rel, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(path)
			g := &gen{fs: fs, info: p.TypesInfo, pkg: p.Types, src: src, file: rel, enc: enc}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					g.fd = fd
					g.fn(fd)
				}
			}
		}
	}
}

func (g *gen) fn(fd *ast.FuncDecl) {
	g.delegate(fd)
	g.paramCopy(fd)
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.BlockStmt:
			g.stmts(s.List)
		case *ast.CaseClause:
			g.stmts(s.Body)
		case *ast.CommClause:
			g.stmts(s.Body)
		case *ast.BinaryExpr:
			g.flip(s)
		case *ast.CompositeLit:
			g.literal(s)
		case *ast.SelectStmt:
			g.selectOrder(s)
		case *ast.IfStmt:
			g.invert(s)
			g.split(s)
		case *ast.ForStmt:
			g.forCond(s)
		case *ast.IncDecStmt:
			op := "+="
			if s.Tok == token.DEC {
				op = "-="
			}
			g.put("incdec", s, g.rep(s, g.txt(s.X)+" "+op+" 1"))
		case *ast.AssignStmt:
			if len(s.Lhs) == 1 && s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
				op := strings.TrimSuffix(s.Tok.String(), "=")
				g.put("opassign", s, g.rep(s, g.txt(s.Lhs[0])+" = "+g.txt(s.Lhs[0])+" "+op+" ("+g.txt(s.Rhs[0])+")"))
			}
		}
		return true
	})
}

// exits: control leaves the node other than by its end.
func exits(n ast.Node) bool {
	bad := false
	var walk func(n ast.Node, loop, brk int)
	walk = func(n ast.Node, loop, brk int) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch s := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt:
				bad = true
			case *ast.BranchStmt:
				if s.Label != nil || s.Tok == token.GOTO || s.Tok == token.CONTINUE && loop == 0 || s.Tok == token.BREAK && brk == 0 {
					bad = true
				}
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, loop+1, brk+1)
				return false
			case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				walk(m, loop, brk+1)
				return false
			}
			return true
		})
	}
	switch n.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		walk(n, 1, 1)
	case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
		walk(n, 0, 1)
	case *ast.ReturnStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.LabeledStmt:
		return true
	default:
		walk(n, 0, 0)
	}
	return bad
}

func hasBreak(n ast.Node) bool {
	bad := false
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch s := m.(type) {
			case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				return false
			case *ast.BranchStmt:
				if s.Tok == token.BREAK && s.Label == nil {
					bad = true
				}
			}
			return true
		})
	}
	walk(n)
	return bad
}

func hasLit(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			f = true
		}
		return true
	})
	return f
}

func hasCall(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch u := m.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			f = true
		case *ast.UnaryExpr:
			f = f || u.Op == token.ARROW
		}
		return true
	})
	return f
}

func leaves(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok != token.FALLTHROUGH
	}
	return false
}

func inner(g *gen, b *ast.BlockStmt) string { return g.in(b.Lbrace+1, b.Rbrace) }

func (g *gen) invert(s *ast.IfStmt) {
	e, ok := s.Else.(*ast.BlockStmt)
	if !ok {
		return
	}
	init := ""
	if s.Init != nil {
		init = g.txt(s.Init) + "; "
	}
	g.put("invert", s, g.rep(s, "if "+init+"!("+g.txt(s.Cond)+") {"+inner(g, e)+"} else {"+inner(g, s.Body)+"}"))
	if !hasBreak(s.Body) && !hasBreak(e) && s.Init == nil {
		g.put("switch", s, g.rep(s, "switch {\ncase "+g.txt(s.Cond)+":"+inner(g, s.Body)+"default:"+inner(g, e)+"}"))
	}
}

func (g *gen) split(s *ast.IfStmt) {
	b, ok := s.Cond.(*ast.BinaryExpr)
	if ok && b.Op == token.LAND && s.Else == nil {
		init := ""
		if s.Init != nil {
			init = g.txt(s.Init) + "; "
		}
		g.put("nest", s, g.rep(s, "if "+init+g.txt(b.X)+" {\nif "+g.txt(b.Y)+" {"+inner(g, s.Body)+"}\n}"))
	}
	if ok && (b.Op == token.LAND || b.Op == token.LOR) {
		op := "||"
		if b.Op == token.LOR {
			op = "&&"
		}
		g.put("demorgan", s, g.rep(s.Cond, "!(!("+g.txt(b.X)+") "+op+" !("+g.txt(b.Y)+"))"))
	}
	if ok && b.Op == token.LOR && s.Else == nil && s.Init == nil && len(s.Body.List) > 0 && leaves(s.Body.List[len(s.Body.List)-1]) {
		g.put("or-twice", s, g.rep(s, "if "+g.txt(b.X)+" {"+inner(g, s.Body)+"}\nif "+g.txt(b.Y)+" {"+inner(g, s.Body)+"}"))
	}
}

func (g *gen) forCond(s *ast.ForStmt) {
	if s.Cond == nil {
		return
	}
	init, post := "", ""
	if s.Init != nil {
		init = g.txt(s.Init)
	}
	if s.Post != nil {
		post = g.txt(s.Post)
	}
	g.put("for-break", s, g.rep(s, "for "+init+"; ; "+post+" {\nif !("+g.txt(s.Cond)+") {\nbreak\n}"+inner(g, s.Body)+"}"))
}

func (g *gen) flip(b *ast.BinaryExpr) {
	f := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<=", token.EQL: "==", token.NEQ: "!="}
	if op, ok := f[b.Op]; ok {
		if hasCall(b.X) && hasCall(b.Y) {
			return
		}
		g.put("flip", b, g.rep(b, g.txt(b.Y)+" "+op+" "+g.txt(b.X)))
	}
	h := map[token.Token]string{token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<", token.EQL: "!=", token.NEQ: "=="}
	if op, ok := h[b.Op]; ok {
		if t, is := g.info.TypeOf(b.X).Underlying().(*types.Basic); is && t.Info()&types.IsFloat != 0 {
			return
		}
		if _, is := g.info.TypeOf(b.X).(*types.TypeParam); is && b.Op != token.EQL && b.Op != token.NEQ {
			return
		}
		g.put("negate", b, g.rep(b, "!("+g.txt(b.X)+" "+op+" "+g.txt(b.Y)+")"))
	}
}

func (g *gen) literal(c *ast.CompositeLit) {
	if len(c.Elts) < 2 {
		return
	}
	var es []edit
	for i, e := range c.Elts {
		if _, ok := e.(*ast.KeyValueExpr); !ok {
			return
		}
		es = append(es, g.rep(e, g.txt(c.Elts[len(c.Elts)-1-i])))
	}
	g.put("literal-order", c, es...)
}

func (g *gen) selectOrder(s *ast.SelectStmt) {
	if len(s.Body.List) < 2 {
		return
	}
	var es []edit
	for i, c := range s.Body.List {
		es = append(es, g.rep(c, g.txt(s.Body.List[len(s.Body.List)-1-i])))
	}
	g.put("select-order", s, es...)
}

// delegate moves the body into another function.
func (g *gen) delegate(fd *ast.FuncDecl) {
	if fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 {
		return
	}
	rn := fd.Recv.List[0].Names[0].Name
	var args []string
	for _, p := range fd.Type.Params.List {
		if len(p.Names) == 0 {
			return
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				return
			}
			a := n.Name
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				a += "..."
			}
			args = append(args, a)
		}
	}
	impl := g.name("impl") + fd.Name.Name
	call := rn + "." + impl + "(" + strings.Join(args, ", ") + ")"
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		call = "return " + call
	}
	sig := g.in(fd.Type.Params.Pos(), fd.Body.Pos())
	g.put("delegate", fd, g.rep(fd.Body, "{\n"+call+"\n}\n\nfunc "+g.txt(fd.Recv)+" "+impl+sig+g.txt(fd.Body)))
}

func (g *gen) paramCopy(fd *ast.FuncDecl) {
	var names []string
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			if n.Name != "_" {
				names = append(names, n.Name)
			}
		}
	}
	if len(names) == 0 || fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
		return
	}
	for _, n := range names {
		g.put("param-copy", fd, g.rep(fd.Body, "{\n{\n"+n+" := "+n+"\n"+inner(g, fd.Body)+"}\n}"))
	}
}

func (g *gen) qual(p *types.Package) string {
	if p == g.pkg {
		return ""
	}
	return p.Name()
}

// free: variables of the enclosing function used in the nodes, and whether
// any is assigned there or has its address taken.
func (g *gen) free(ns []ast.Stmt) (vars []*types.Var, written map[*types.Var]bool) {
	lo, hi := ns[0].Pos(), ns[len(ns)-1].End()
	seen := map[*types.Var]bool{}
	written = map[*types.Var]bool{}
	obj := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if t := g.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Struct); ok {
						e = x.X
						continue
					}
				}
				return nil
			case *ast.IndexExpr:
				if t := g.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						e = x.X
						continue
					}
				}
				return nil
			case *ast.Ident:
				v, _ := g.info.Uses[x].(*types.Var)
				return v
			}
			return nil
		}
	}
	for _, n := range ns {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.Ident:
				v, ok := g.info.Uses[x].(*types.Var)
				if !ok || v.IsField() || v.Parent() == g.pkg.Scope() || v.Pos() >= lo && v.Pos() < hi {
					return true
				}
				if !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if v := obj(l); v != nil {
						written[v] = true
					}
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if l != nil {
						if v := obj(l); v != nil {
							written[v] = true
						}
					}
				}
			case *ast.IncDecStmt:
				if v := obj(x.X); v != nil {
					written[v] = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if v := obj(x.X); v != nil {
						written[v] = true
					}
				}
			case *ast.CallExpr:
				// methods with pointer receivers on variables
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if sel := g.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
						if f, ok := sel.Obj().(*types.Func); ok {
							if _, ptr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
								if v := obj(s.X); v != nil {
									if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
										written[v] = true
									}
								}
							}
						}
					}
				}
			}
			return true
		})
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].Pos() < vars[j].Pos() })
	return
}

// declares: variables declared by the statements at their top level.
func (g *gen) declares(ns []ast.Stmt) (out []*types.Var) {
	for _, n := range ns {
		switch s := n.(type) {
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				for _, l := range s.Lhs {
					if v, ok := g.info.Defs[l.(*ast.Ident)].(*types.Var); ok {
						out = append(out, v)
					}
				}
			}
		case *ast.DeclStmt:
			ast.Inspect(s, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if v, ok := g.info.Defs[id].(*types.Var); ok {
						out = append(out, v)
					}
				}
				return true
			})
		}
	}
	return
}

func (g *gen) usedAfter(v *types.Var, rest []ast.Stmt) bool {
	f := false
	for _, n := range rest {
		ast.Inspect(n, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok && g.info.Uses[id] == v {
				f = true
			}
			return true
		})
	}
	return f
}

func (g *gen) extract(kind string, ns, rest []ast.Stmt) {
	fd := g.fd
	if fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 {
		return
	}
	for _, n := range ns {
		if exits(n) {
			return
		}
	}
	var outs []*types.Var
	for _, v := range g.declares(ns) {
		if g.usedAfter(v, rest) {
			outs = append(outs, v)
		}
	}
	vars, written := g.free(ns)
	if len(written) > 0 || len(outs) > 2 {
		return
	}
	rv := g.info.Defs[fd.Recv.List[0].Names[0]]
	var ps, as []string
	for _, v := range vars {
		if v == rv {
			continue
		}
		if v.Name() == rv.Name() {
			return
		}
		ps = append(ps, v.Name()+" "+types.TypeString(v.Type(), g.qual))
		as = append(as, v.Name())
	}
	name := g.name("part")
	a, b := ns[0], ns[len(ns)-1]
	body := g.in(a.Pos(), b.End())
	call := rv.Name() + "." + name + "(" + strings.Join(as, ", ") + ")"
	res := ""
	if len(outs) > 0 {
		var on, ot []string
		for _, v := range outs {
			on = append(on, v.Name())
			ot = append(ot, types.TypeString(v.Type(), g.qual))
		}
		call = strings.Join(on, ", ") + " := " + call
		body += "\nreturn " + strings.Join(on, ", ")
		res = " (" + strings.Join(ot, ", ") + ")"
	}
	g.put(kind, a, edit{g.off(a.Pos()), g.off(b.End()), call},
		edit{g.off(fd.End()), g.off(fd.End()), "\n\nfunc " + g.txt(fd.Recv) + " " + name + "(" + strings.Join(ps, ", ") + ")" + res + " {\n" + body + "\n}\n"})
}

func call(s ast.Stmt) (recv *ast.SelectorExpr, name string) {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return nil, ""
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return nil, ""
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil, ""
	}
	return f, f.Sel.Name
}

func (g *gen) stmts(l []ast.Stmt) {
	for i, s := range l {
		rest := l[i+1:]
		// extract single statements and whole tails into a method
		switch s.(type) {
		case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.GoStmt, *ast.ExprStmt, *ast.AssignStmt:
			g.extract("extract", []ast.Stmt{s}, rest)
		}
		for n := 2; n <= 4 && i+n <= len(l); n++ {
			g.extract("extract-n", l[i:i+n], l[i+n:])
		}
		switch s := s.(type) {
		case *ast.IfStmt:
			if s.Init != nil {
				g.put("hoist-init", s, g.rep(s, "{\n"+g.txt(s.Init)+"\nif "+g.in(s.Cond.Pos(), s.End())+"\n}"))
			} else {
				n := g.name("cond")
				g.put("cond-var", s, g.rep(s, n+" := "+g.txt(s.Cond)+"\nif "+n+" "+g.in(s.Body.Pos(), s.End())))
			}
			if s.Else == nil && len(s.Body.List) > 0 && leaves(s.Body.List[len(s.Body.List)-1]) && len(rest) > 0 && s.Init == nil {
				body := g.in(rest[0].Pos(), rest[len(rest)-1].End())
				g.put("else", s, edit{g.off(s.Pos()), g.off(rest[len(rest)-1].End()), g.txt(s) + " else {\n" + body + "\n}"})
				last := s.Body.List[len(s.Body.List)-1]
				if br, ok := last.(*ast.BranchStmt); ok && br.Tok == token.CONTINUE && br.Label == nil {
					_ = br
				}
			}
			if s.Else == nil && len(rest) == 0 && s.Init == nil && !exits(s) {
				g.put("func-lit", s, g.rep(s, "func() {\n"+g.txt(s)+"\n}()"))
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				if t := g.info.TypeOf(s.Results[0]); t != nil {
					if tup, ok := t.(*types.Tuple); ok {
						var ns []string
						for k := 0; k < tup.Len(); k++ {
							ns = append(ns, g.name("r"))
						}
						g.put("return-var", s, g.rep(s, strings.Join(ns, ", ")+" := "+g.txt(s.Results[0])+"\nreturn "+strings.Join(ns, ", ")))
					} else if b, ok := t.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
						n := g.name("r")
						g.put("return-var", s, g.rep(s, n+" := "+g.txt(s.Results[0])+"\nreturn "+n))
					}
				}
			} else if len(s.Results) > 1 {
				var ns, es []string
				for _, r := range s.Results {
					t := g.info.TypeOf(r)
					n := g.name("r")
					ns = append(ns, n)
					es = append(es, "var "+n+" "+types.TypeString(t, g.qual)+" = "+g.txt(r))
					if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
						es = nil
						break
					}
				}
				if es != nil {
					g.put("return-vars", s, g.rep(s, strings.Join(es, "\n")+"\nreturn "+strings.Join(ns, ", ")))
				}
			}
		case *ast.DeferStmt:
			if len(s.Call.Args) == 0 {
				if _, ok := s.Call.Fun.(*ast.FuncLit); !ok {
					g.put("defer-lit", s, g.rep(s, "defer func() {\n"+g.txt(s.Call)+"\n}()"))
				}
			}
		case *ast.GoStmt:
			if f, ok := s.Call.Fun.(*ast.FuncLit); ok {
				n := g.name("fn")
				g.put("go-var", s, g.rep(s, n+" := "+g.txt(f)+"\ngo "+n+g.in(s.Call.Lparen, s.End())))
			} else {
				var ps, as []string
				ok := true
				for k, a := range s.Call.Args {
					t := g.info.TypeOf(a)
					n := fmt.Sprintf("a%d", k)
					as = append(as, n)
					ps = append(ps, n+" := "+g.txt(a))
					if b, is := t.(*types.Basic); is && b.Info()&types.IsUntyped != 0 {
						ok = false
					}
				}
				if ok {
					pre := strings.Join(ps, "\n")
					g.put("go-lit", s, g.rep(s, "{\n"+pre+"\ngo func() {\n"+g.txt(s.Call.Fun)+"("+strings.Join(as, ", ")+")\n}()\n}"))
				}
			}
		case *ast.RangeStmt:
			g.rangeIndex(s)
			if !exits(s.Body) && !g.writesFree(s.Body.List) && s.Tok != token.ASSIGN {
				g.put("body-lit", s, g.rep(s.Body, "{\nfunc() {"+inner(g, s.Body)+"}()\n}"))
			}
		case *ast.ForStmt:
			if !exits(s.Body) && !g.writesFree(s.Body.List) {
				g.put("body-lit", s, g.rep(s.Body, "{\nfunc() {"+inner(g, s.Body)+"}()\n}"))
			}
		case *ast.SendStmt:
			n := g.name("ch")
			g.put("send-var", s, g.rep(s, n+" := "+g.txt(s.Chan)+"\n"+n+" <- "+g.txt(s.Value)))
		case *ast.ExprStmt:
			if c, ok := s.X.(*ast.CallExpr); ok {
				g.args(s, c, "")
			}
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 && len(s.Lhs) == 1 {
				if _, ok := s.Lhs[0].(*ast.Ident); !ok && s.Tok == token.ASSIGN {
					t := g.info.TypeOf(s.Rhs[0])
					if b, is := t.(*types.Basic); !is || b.Info()&types.IsUntyped == 0 {
						n := g.name("val")
						g.put("value-var", s, g.rep(s, n+" := "+g.txt(s.Rhs[0])+"\n"+g.txt(s.Lhs[0])+" = "+n))
					}
				}
				if c, ok := s.Rhs[0].(*ast.CallExpr); ok {
					if id, isID := c.Fun.(*ast.Ident); !isID || id.Name != "make" && id.Name != "new" {
						g.args(s, c, g.in(s.Pos(), c.Pos()))
					}
				}
			}
			if len(rest) > 0 {
				g.swap(s, rest[0])
			}
		}
		g.section(l, i)
	}
}

func (g *gen) writesFree(l []ast.Stmt) bool {
	if len(l) == 0 {
		return true
	}
	return false
}

// args puts the last argument of a call into a variable first.
func (g *gen) args(s ast.Stmt, c *ast.CallExpr, before string) {
	if len(c.Args) == 0 || c.Ellipsis.IsValid() {
		return
	}
	a := c.Args[len(c.Args)-1]
	switch a.(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.CallExpr, *ast.BinaryExpr, *ast.SliceExpr:
	default:
		return
	}
	if tv, ok := g.info.Types[a]; !ok || tv.IsType() || tv.Value != nil || tv.IsBuiltin() {
		return
	}
	for _, o := range c.Args[:len(c.Args)-1] {
		if hasCall(o) {
			return
		}
	}
	n := g.name("arg")
	g.put("arg-var", s, edit{g.off(s.Pos()), g.off(c.End()), n + " := " + g.txt(a) + "\n" + before + g.in(c.Pos(), a.Pos()) + n + g.in(a.End(), c.End())})
}

// swap exchanges two neighbouring assignments that do not touch each other.
func (g *gen) swap(a *ast.AssignStmt, n ast.Stmt) {
	b, ok := n.(*ast.AssignStmt)
	if !ok || hasCall(a) || hasCall(b) {
		return
	}
	idents := func(n ast.Node) map[string]bool {
		m := map[string]bool{}
		ast.Inspect(n, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				m[id.Name] = true
			}
			return true
		})
		return m
	}
	last := func(e ast.Expr) string {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name
		case *ast.SelectorExpr:
			return x.Sel.Name
		}
		return ""
	}
	ia, ib := idents(a), idents(b)
	for _, l := range a.Lhs {
		if n := last(l); n == "" || ib[n] {
			return
		}
	}
	for _, l := range b.Lhs {
		if n := last(l); n == "" || ia[n] {
			return
		}
	}
	g.put("swap", a, edit{g.off(a.Pos()), g.off(b.End()), g.txt(b) + "\n" + g.txt(a)})
}

func (g *gen) rangeIndex(s *ast.RangeStmt) {
	t := g.info.TypeOf(s.X)
	if _, ok := t.Underlying().(*types.Slice); !ok || s.Tok != token.DEFINE || hasLit(s.Body) {
		return
	}
	key, val := "", ""
	if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
		key = id.Name
	}
	if id, ok := s.Value.(*ast.Ident); ok && id.Name != "_" {
		val = id.Name
	}
	if key == "" {
		key = g.name("i")
	}
	xs := g.name("list")
	head := ""
	if val != "" {
		head = val + " := " + xs + "[" + key + "]\n"
	}
	g.put("range-index", s, g.rep(s, xs+" := "+g.txt(s.X)+"\nfor "+key+" := 0; "+key+" < len("+xs+"); "+key+"++ {\n"+head+inner(g, s.Body)+"}"))
	if !hasContinue(s.Body) {
		g.put("range-while", s, g.rep(s, "{\n"+xs+" := "+g.txt(s.X)+"\n"+key+" := 0\nfor "+key+" < len("+xs+") {\n"+head+inner(g, s.Body)+"\n"+key+"++\n}\n}"))
	}
	if id, ok := s.X.(*ast.SelectorExpr); ok && val != "" {
		_ = id
	}
}

func hasContinue(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(m ast.Node) bool {
		if b, ok := m.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
			f = true
		}
		return true
	})
	return f
}

// section turns lock; ...; unlock into a function that defers the unlock.
func (g *gen) section(l []ast.Stmt, i int) {
	f, n := call(l[i])
	if f == nil || n != "Lock" && n != "RLock" {
		return
	}
	un := strings.Replace(n, "Lock", "Unlock", 1)
	for j := i + 1; j < len(l); j++ {
		u, m := call(l[j])
		if u == nil || m != un || g.txt(u.X) != g.txt(f.X) {
			if exits(l[j]) {
				return
			}
			continue
		}
		mid := l[i+1 : j]
		if len(mid) == 0 {
			return
		}
		pre := ""
		ds := g.declares(mid)
		body := g.in(mid[0].Pos(), mid[len(mid)-1].End())
		for _, v := range ds {
			if g.usedAfter(v, l[j+1:]) {
				if len(mid) != 1 {
					return
				}
				pre += "var " + v.Name() + " " + types.TypeString(v.Type(), g.qual) + "\n"
			}
		}
		if pre != "" {
			a := mid[0].(*ast.AssignStmt)
			if a.Tok != token.DEFINE || len(ds) != len(a.Lhs) {
				return
			}
			for _, v := range ds {
				if !g.usedAfter(v, l[j+1:]) {
					pre += "var " + v.Name() + " " + types.TypeString(v.Type(), g.qual) + "\n"
				}
			}
			body = strings.Replace(body, ":=", "=", 1)
		}
		g.put("section-lit", l[i], edit{g.off(l[i].Pos()), g.off(l[j].End()), pre + "func() {\n" + g.txt(l[i]) + "\ndefer " + g.txt(l[j]) + "\n" + body + "\n}()"})
		return
	}
}
