package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	_ "embed"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/analyzer/absint"
)

//go:embed spec/dawg.go.txt
var specDawg []byte

//go:embed spec/main.go.txt
var specMain []byte

//go:embed spec/lib.go.txt
var specLib []byte

const libFile = "zz_reference_library_.go"

// libFuncs are the loops that operations on whole slices and strings stand for.
var libFuncs = map[string]string{
	"copy uint8":          "copyBytes",
	"copy uint8 string":   "copyString",
	"copy uint32":         "copyUint32",
	"append uint8":        "appendBytes",
	"append uint8 string": "appendString",
	"append uint32":       "appendUint32",
	"bytes.IndexByte":     "indexByte",
	"strings.IndexByte":   "indexByteString",
	"bytes.Compare":       "compare",
	"strings.Compare":     "compareString",
	"string.less":         "lessString",
}

// growFuncs stand for the appending operations as growing first and storing then.
var growFuncs = map[string]string{
	"append uint8":        "growBytes",
	"append uint8 string": "growString",
	"append uint32":       "growUint32",
}

const specFile = "zz_reference_model_.go"

// Program is the analysed program: the repository's packages with the
// reference model added to them through an overlay.
type Program struct {
	Repo string
	Fset *token.FileSet
	Prog *ssa.Program
	Dawg *ssa.Package
	Main *ssa.Package
	Pkgs []*packages.Package

	dropped map[string]string // model functions left out, and why
}

// load type-checks the repository with the model. Parts of the model that do
// not fit the repository's declarations any more are left out, and what
// depends on them is reported as undecided.
func load(repo string) (*Program, error) {
	p := &Program{Repo: repo, dropped: map[string]string{}}
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	files := map[string][]byte{
		filepath.Join(repo, specFile):                 specDawg,
		filepath.Join(repo, libFile):                  specLib,
		filepath.Join(repo, "cmd/dawgtool", specFile): specMain,
	}
	renamed := false
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		cfg.Overlay = files
		var err error
		pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		var own []string
		bad := map[string][]packages.Error{}
		for _, pk := range pkgs {
			for _, e := range pk.Errors {
				file := e.Pos
				if i := strings.Index(file, ".go:"); i >= 0 {
					file = file[:i+3]
				}
				if filepath.Base(file) == specFile {
					bad[file] = append(bad[file], e)
				} else {
					own = append(own, e.Error())
				}
			}
		}
		if len(bad) == 0 {
			if len(own) > 0 {
				return nil, fmt.Errorf("type checking: %s", strings.Join(own, "; "))
			}
			break
		}
		if round > 40 {
			return nil, fmt.Errorf("the model does not fit the repository: %v", bad)
		}
		if !renamed {
			renamed = true
			for _, pk := range pkgs {
				if pk.Name == "dawg" && pk.Types != nil {
					f := filepath.Join(repo, specFile)
					files[f] = p.rename(files[f], pk.Types)
				}
			}
			continue
		}
		for file, es := range bad {
			b, err := p.drop(files[file], es)
			if err != nil {
				return nil, err
			}
			files[file] = b
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog, p.Fset, p.Pkgs = prog, prog.Fset, pkgs
	for i, pk := range pkgs {
		if spkgs[i] == nil {
			continue
		}
		switch {
		case pk.Name == "dawg":
			p.Dawg = spkgs[i]
		case pk.Name == "main":
			p.Main = spkgs[i]
		}
	}
	if p.Dawg == nil {
		return nil, fmt.Errorf("package dawg not found")
	}
	return p, nil
}

// isSpec tells whether a function belongs to the reference model.
func isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return strings.HasPrefix(fn.Name(), "spec_")
}

// Func resolves "F" or "T.M" in a package.
func (p *Program) Func(pkg *ssa.Package, name string) *ssa.Function {
	if pkg == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, ok := pkg.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := types.NewMethodSet(t)
			for j := 0; j < ms.Len(); j++ {
				f := ms.At(j).Obj().(*types.Func)
				if f.Name() == name[i+1:] {
					if fn := p.Prog.FuncValue(f); fn != nil {
						return fn
					}
				}
			}
		}
		return nil
	}
	return pkg.Func(name)
}

// allFuncs lists the functions of a package, closures included.
func (p *Program) allFuncs(pkg *ssa.Package, spec bool) []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.Prog) {
		if fn.Pkg != pkg || isSpec(fn) != spec || len(fn.Blocks) == 0 {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// mutableGlobals are the globals stored to outside package initialisation, or
// whose address escapes.
func (p *Program) mutableGlobals(pkg *ssa.Package) map[*ssa.Global]bool {
	mut := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.Prog) {
		if fn.Pkg != pkg || len(fn.Blocks) == 0 || fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					mut[g] = true
				}
			}
		}
	}
	return mut
}

// initMem interprets the initialisation of a package's tables.
func (p *Program) initMem(e *absint.Engine, pkg *ssa.Package) *absint.Mem {
	mem := absint.NewMem()
	init := pkg.Func("init")
	if init == nil {
		return mem
	}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			mem.Store(absint.Ptr{Obj: absint.GlobalObj(g)}, t, absint.ZeroValue(t), nil)
		}
	}
	outs := e.Run(e.NewState(init, nil, absint.NewFacts(), mem))
	for _, o := range outs {
		if o.Kind == absint.OReturn {
			r := o.St.Mem
			mut := p.mutableGlobals(pkg)
			for g := range mut {
				r.Forget(absint.GlobalObj(g))
			}
			return r
		}
	}
	return absint.NewMem()
}

// rename follows renamed unexported fields in the model.
func (p *Program) rename(src []byte, pkg *types.Package) []byte {
	rec := recordedShapes()["dawg"]
	ren := fieldRenames(rec, packageShapes(pkg))
	to := map[string]string{}
	for tn, m := range ren {
		for old, now := range m {
			// Selectors in the model are not typed here: follow a field only
			// where its name is that of no other type's field.
			unique := true
			for other, sh := range rec {
				for _, f := range sh {
					if other != tn && f[0] == old && ren[other][old] != now {
						unique = false
					}
				}
			}
			if unique && !token.IsExported(old) {
				to[old] = now
			}
		}
	}
	if len(to) == 0 {
		return src
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, specFile, src, parser.ParseComments)
	if err != nil {
		return src
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if now, ok := to[x.Sel.Name]; ok {
				x.Sel.Name = now
			}
		case *ast.CompositeLit:
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					if id, ok := kv.Key.(*ast.Ident); ok {
						if now, ok := to[id.Name]; ok {
							id.Name = now
						}
					}
				}
			}
		}
		return true
	})
	var buf bytes.Buffer
	if printer.Fprint(&buf, fset, f) != nil {
		return src
	}
	return buf.Bytes()
}

// drop removes the model functions in which errors were reported.
func (p *Program) drop(src []byte, es []packages.Error) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, specFile, src, 0)
	if err != nil {
		return nil, err
	}
	lines := map[int]string{}
	for _, e := range es {
		parts := strings.Split(e.Pos, ":")
		if len(parts) >= 2 {
			if n, err := strconv.Atoi(parts[1]); err == nil {
				lines[n] = e.Msg
			}
		}
	}
	cut := false
	out := append([]byte(nil), src...)
	blank := func(n ast.Node) {
		for i := fset.Position(n.Pos()).Offset; i < fset.Position(n.End()).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		cut = true
	}
	for _, d := range f.Decls {
		lo, hi := fset.Position(d.Pos()).Line, fset.Position(d.End()).Line
		for l, msg := range lines {
			if l < lo || l > hi {
				continue
			}
			switch x := d.(type) {
			case *ast.FuncDecl:
				p.dropped[x.Name.Name] = msg
				blank(x)
			case *ast.GenDecl:
				if x.Tok != token.IMPORT {
					blank(x)
					break
				}
				for _, s := range x.Specs {
					if fset.Position(s.Pos()).Line == l {
						blank(s)
					}
				}
			}
			break
		}
	}
	if !cut {
		return nil, fmt.Errorf("the model does not fit the repository: %v", es[0])
	}
	return out, nil
}

// dropNote explains why an entry has no model.
func (p *Program) dropNote(entry string) string {
	for _, n := range strings.Split(entry, "|") {
		n = strings.TrimPrefix(n, "main:")
		if w, ok := p.dropped[specName(n)]; ok {
			return " (" + w + ")"
		}
	}
	return ""
}
