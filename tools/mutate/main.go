// mutate lists small source mutations of a Go tree as JSON lines
// {file, start, end, text, desc}.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	Desc  string `json:"desc"`
	Line  int    `json:"line"`
}

var flip = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.REM: {"/"}, token.QUO: {"*"},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/.git/") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(a, b token.Pos, t, d string) {
			enc.Encode(mut{rel, off(a), off(b), t, d, fs.Position(a).Line})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.BlockStmt:
					stmts(s.List, put, txt)
				case *ast.CaseClause:
					stmts(s.Body, put, txt)
				case *ast.CommClause:
					stmts(s.Body, put, txt)
				case *ast.IfStmt:
					put(s.Cond.Pos(), s.Cond.End(), "!("+txt(s.Cond)+")", "negate "+txt(s.Cond))
					put(s.Cond.Pos(), s.Cond.End(), "true || ("+txt(s.Cond)+")", "always "+txt(s.Cond))
					put(s.Cond.Pos(), s.Cond.End(), "false && ("+txt(s.Cond)+")", "never "+txt(s.Cond))
				case *ast.BinaryExpr:
					for _, o := range flip[s.Op] {
						put(s.OpPos, s.OpPos+token.Pos(len(s.Op.String())), o, txt(s)+" with "+o)
					}
				case *ast.BasicLit:
					if s.Kind == token.INT {
						if v, err := strconv.ParseInt(s.Value, 0, 64); err == nil {
							put(s.Pos(), s.End(), strconv.FormatInt(v+1, 10), s.Value+"+1")
							if v > 0 {
								put(s.Pos(), s.End(), strconv.FormatInt(v-1, 10), s.Value+"-1")
							}
						}
					}
				case *ast.Ident:
					if s.Name == "true" {
						put(s.Pos(), s.End(), "false", "true->false")
					} else if s.Name == "false" {
						put(s.Pos(), s.End(), "true", "false->true")
					}
				case *ast.ReturnStmt:
					for _, r := range s.Results {
						if t := txt(r); t == "err" || strings.HasSuffix(t, "Err") || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "fmt.Errorf") {
							put(r.Pos(), r.End(), "nil", "return nil for "+t)
						}
					}
				case *ast.SelectorExpr:
					switch s.Sel.Name {
					case "Lock":
						put(s.Sel.Pos(), s.Sel.End(), "RLock", "Lock->RLock")
					case "Unlock":
						put(s.Sel.Pos(), s.Sel.End(), "RUnlock", "Unlock->RUnlock")
					case "RLock":
						put(s.Sel.Pos(), s.Sel.End(), "Lock", "RLock->Lock")
					}
				case *ast.SliceExpr:
					if s.Low != nil {
						put(s.Low.Pos(), s.Low.End(), "", "drop low of "+txt(s))
						put(s.Low.Pos(), s.Low.End(), txt(s.Low)+"+1", "low+1 of "+txt(s))
					}
					if s.High != nil {
						put(s.High.Pos(), s.High.End(), txt(s.High)+"-1", "high-1 of "+txt(s))
					}
				case *ast.CallExpr:
					// swapped neighbouring arguments
					for i := 0; i+1 < len(s.Args); i++ {
						a, b := s.Args[i], s.Args[i+1]
						put(a.Pos(), b.End(), txt(b)+", "+txt(a), "swap args "+txt(s))
					}
				}
				return true
			})
		}
		return nil
	})
}

func stmts(list []ast.Stmt, put func(a, b token.Pos, t, d string), txt func(ast.Node) string) {
	for i, s := range list {
		t := txt(s)
		short := t
		if len(short) > 70 {
			short = short[:70]
		}
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.SendStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
			put(s.Pos(), s.End(), "", "delete "+short)
		case *ast.DeferStmt:
			put(s.Pos(), s.End(), "", "delete "+short)
			put(s.Pos(), s.Pos()+5, "", "undefer "+short)
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				put(s.Pos(), s.End(), "", "delete "+short)
			} else {
				put(x.TokPos, x.TokPos+2, "=", "no := "+short)
			}
		case *ast.BranchStmt:
			put(s.Pos(), s.End(), "", "delete "+short)
			if x.Tok == token.BREAK {
				put(s.Pos(), s.End(), "continue", "break->continue")
			} else if x.Tok == token.CONTINUE {
				put(s.Pos(), s.End(), "break", "continue->break")
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				put(s.Pos(), s.End(), "", "delete return")
			} else if i+1 < len(list) || true {
				put(s.Pos(), s.End(), "", "delete "+short)
			}
		}
		if g, ok := s.(*ast.GoStmt); ok {
			put(g.Pos(), g.Pos()+2, "", "ungo "+short)
		}
		if i+1 < len(list) {
			put(s.Pos(), list[i+1].End(), txt(list[i+1])+"\n"+t, "swap "+short)
		}
	}
}
