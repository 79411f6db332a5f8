// Command mutate writes small random changes of the library as patches of one
// file each, to measure what the checks notice (development tool; no check
// uses it).
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	file     string
	lo, hi   int
	new, why string
	fn       string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "/tmp/mut", "")
	n := flag.Int("n", 100, "")
	seed := flag.Int64("seed", 1, "")
	re := flag.String("re", ".", "only changes whose description matches")
	flag.Parse()
	pk, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: *repo}, "./...")
	if err != nil {
		panic(err)
	}
	var es []edit
	for _, p := range pk {
		for _, f := range p.Syntax {
			es = append(es, mutants(p, f)...)
		}
	}
	rx := regexp.MustCompile(*re)
	kept := es[:0]
	for _, e := range es {
		if rx.MatchString(e.file + " " + e.fn + " " + e.why) {
			kept = append(kept, e)
		}
	}
	es = kept
	r := rand.New(rand.NewSource(*seed))
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	fmt.Fprintln(os.Stderr, len(es), "mutants")
	os.MkdirAll(*out, 0o755)
	for i, e := range es {
		if i >= *n {
			break
		}
		b, _ := os.ReadFile(e.file)
		old := string(b[e.lo:e.hi])
		nb := append(append(append([]byte{}, b[:e.lo]...), e.new...), b[e.hi:]...)
		d := filepath.Join(*out, fmt.Sprintf("m%04d", i))
		os.MkdirAll(d, 0o755)
		rel, _ := filepath.Rel(*repo, e.file)
		os.WriteFile(filepath.Join(d, "file"), []byte(rel), 0o644)
		os.WriteFile(filepath.Join(d, "new.go"), nb, 0o644)
		line := 1 + bytes.Count(b[:e.lo], []byte("\n"))
		os.WriteFile(filepath.Join(d, "why"), []byte(fmt.Sprintf("%s:%d %s: %s: %s => %s\n", rel, line, e.fn, e.why, strings.ReplaceAll(old, "\n", "\\n"), strings.ReplaceAll(e.new, "\n", "\\n"))), 0o644)
	}
}

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-", "|"}, token.SUB: {"+"},
	token.AND: {"|", "^"}, token.OR: {"&", "^", "+"}, token.XOR: {"|", "&", "+"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"&"},
}

func mutants(p *packages.Package, f *ast.File) []edit {
	var es []edit
	name := p.Fset.Position(f.Pos()).Filename
	src, _ := os.ReadFile(name)
	off := func(x token.Pos) int { return p.Fset.Position(x).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn := fd.Name.Name
		add := func(lo, hi token.Pos, s, why string) {
			es = append(es, edit{name, off(lo), off(hi), s, why, fn})
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swap[n.Op] {
					if t, ok := p.TypesInfo.Types[n.X].Type.Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 && n.Op == token.ADD {
						continue
					}
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "operator")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					add(n.Pos(), n.End(), "("+n.Value+"+1)", "constant")
					if n.Value != "0" {
						add(n.Pos(), n.End(), "("+n.Value+"-1)", "constant")
					}
				}
			case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
				x := n.(ast.Expr)
				tv, ok := p.TypesInfo.Types[x]
				if !ok || !tv.IsValue() || tv.Value != nil {
					return true
				}
				b, ok := tv.Type.Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				tn := types.TypeString(tv.Type, func(*types.Package) string { return "" })
				for _, c := range []string{"int8", "uint8", "uint16", "int16"} {
					if c != b.Name() && !(b.Kind() == types.Uint8 && strings.HasSuffix(c, "16")) {
						add(n.Pos(), n.End(), tn+"("+c+"("+text(n)+"))", "narrow")
					}
				}
				add(n.Pos(), n.End(), "("+text(n)+"+1)", "plus one")
				add(n.Pos(), n.End(), "("+text(n)+"-1)", "minus one")
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
			case *ast.ForStmt:
				if n.Cond != nil {
					add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
				}
			case *ast.BlockStmt:
				for i, s := range n.List {
					switch s := s.(type) {
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "", "delete")
						}
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
						add(s.Pos(), s.End(), "", "delete")
					case *ast.IfStmt:
						add(s.Pos(), s.End(), "", "delete if")
					}
					if i+1 < len(n.List) {
						t := n.List[i+1]
						add(s.Pos(), t.End(), text(t)+"\n"+text(s), "swap")
					}
				}
			case *ast.CallExpr:
				if len(n.Args) == 2 {
					a, b := n.Args[0], n.Args[1]
					add(a.Pos(), b.End(), text(b)+", "+text(a), "swap args")
				}
			case *ast.ReturnStmt:
				for _, x := range n.Results {
					if t := text(x); t == "true" {
						add(x.Pos(), x.End(), "false", "return")
					} else if t == "false" {
						add(x.Pos(), x.End(), "true", "return")
					}
				}
			}
			return true
		})
	}
	return es
}
