package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec/shapes.json
var shapesJSON []byte

// Shape is the recorded layout of a named type: fields in order, or a single
// unnamed entry for the underlying type.
type Shape [][2]string

func recordedShapes() map[string]map[string]Shape {
	m := map[string]map[string]Shape{}
	if err := json.Unmarshal(shapesJSON, &m); err != nil {
		panic(err)
	}
	return m
}

// typeStr prints a type with aliases resolved.
func typeStr(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Pointer:
		return "*" + typeStr(x.Elem())
	case *types.Slice:
		return "[]" + typeStr(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), typeStr(x.Elem()))
	case *types.Map:
		return "map[" + typeStr(x.Key()) + "]" + typeStr(x.Elem())
	case *types.Signature:
		var ps, rs []string
		for i := 0; i < x.Params().Len(); i++ {
			ps = append(ps, typeStr(x.Params().At(i).Type()))
		}
		for i := 0; i < x.Results().Len(); i++ {
			rs = append(rs, typeStr(x.Results().At(i).Type()))
		}
		return "func(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
	case *types.Basic:
		if x.Name() == "byte" {
			return "uint8"
		}
		if x.Name() == "rune" {
			return "int32"
		}
		return x.Name()
	case *types.Interface:
		var ms []string
		for i := 0; i < x.NumMethods(); i++ {
			ms = append(ms, x.Method(i).Name()+typeStr(x.Method(i).Type()))
		}
		sort.Strings(ms)
		return "interface{" + strings.Join(ms, ";") + "}"
	}
	return t.String()
}

func shapeOf(t types.Type) Shape {
	if s, ok := t.Underlying().(*types.Struct); ok {
		out := Shape{}
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, [2]string{s.Field(i).Name(), typeStr(s.Field(i).Type())})
		}
		return out
	}
	return Shape{{"", typeStr(t.Underlying())}}
}

func packageShapes(pkg *types.Package) map[string]Shape {
	m := map[string]Shape{}
	for _, n := range pkg.Scope().Names() {
		if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok && !strings.HasPrefix(n, "spec_") {
			if tn.IsAlias() {
				m[n] = Shape{{"=", typeStr(tn.Type())}}
			} else {
				m[n] = shapeOf(tn.Type())
			}
		}
	}
	return m
}

func (p *Program) printShapes() {
	m := map[string]map[string]Shape{"dawg": packageShapes(p.Dawg.Pkg)}
	if p.Main != nil {
		m["main"] = packageShapes(p.Main.Pkg)
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.Stdout.Write(append(b, '\n'))
}

// fieldRenames finds unexported fields that were renamed: a recorded field is
// gone, and exactly one new field of the same type took its place.
func fieldRenames(rec map[string]Shape, cur map[string]Shape) map[string]map[string]string {
	out := map[string]map[string]string{}
	for tn, sh := range rec {
		now, ok := cur[tn]
		if !ok {
			continue
		}
		have, known := map[string]bool{}, map[string]bool{}
		for _, f := range now {
			have[f[0]] = true
		}
		for _, f := range sh {
			known[f[0]] = true
		}
		for _, f := range sh {
			if have[f[0]] || f[0] == "" {
				continue
			}
			gone := 0
			for _, g := range sh {
				if !have[g[0]] && g[1] == f[1] {
					gone++
				}
			}
			var cand []string
			for _, g := range now {
				if !known[g[0]] && g[1] == f[1] {
					cand = append(cand, g[0])
				}
			}
			if gone != len(cand) {
				continue
			}
			// In order of declaration.
			i := 0
			for _, g := range sh {
				if g[0] == f[0] {
					break
				}
				if !have[g[0]] && g[1] == f[1] {
					i++
				}
			}
			if out[tn] == nil {
				out[tn] = map[string]string{}
			}
			out[tn][f[0]] = cand[i]
		}
	}
	return out
}

// shapes checks that the types the obligations work on still hold what the
// model assumes of them.
func (c *Checker) shapes() {
	rec := recordedShapes()
	seen := map[*ssa.Function]bool{}
	used := map[string]bool{}
	var note func(t types.Type, depth int)
	note = func(t types.Type, depth int) {
		if depth > 6 {
			return
		}
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			if x.Obj().Pkg() == c.P.Dawg.Pkg && !used[x.Obj().Name()] {
				used[x.Obj().Name()] = true
				if s, ok := x.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						note(s.Field(i).Type(), depth+1)
					}
				}
			}
		case *types.Pointer:
			note(x.Elem(), depth+1)
		case *types.Slice:
			note(x.Elem(), depth+1)
		}
	}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if seen[fn] || fn.Pkg != c.P.Dawg {
			return
		}
		seen[fn] = true
		for _, pa := range fn.Params {
			note(pa.Type(), 0)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					note(v.Type(), 0)
				}
			}
		}
		for _, g := range callees(fn) {
			walk(g)
		}
	}
	for _, en := range c.Prop.Entries {
		for _, n := range strings.Split(en, "|") {
			if u := c.V.Units[n]; u != nil {
				walk(u.Spec)
				break
			}
		}
	}
	if len(seen) == 0 {
		return
	}
	cur := packageShapes(c.P.Dawg.Pkg)
	ren := fieldRenames(rec["dawg"], cur)
	c.rules = append(c.rules, "the fields the model works on have the types the model assumes")
	var names []string
	for n := range rec["dawg"] {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sh := rec["dawg"][n]
		alias := len(sh) == 1 && sh[0][0] == "="
		if !used[n] && !alias {
			continue
		}
		now, ok := cur[n]
		if !ok {
			if alias {
				continue
			}
			c.fail("types", "-", "type %s is gone", n)
			continue
		}
		for _, f := range sh {
			name := f[0]
			if r := ren[n][name]; r != "" {
				name = r
			}
			c.counts["type facts checked"]++
			found := false
			for _, g := range now {
				if g[0] == name {
					found = true
					if g[1] != f[1] {
						c.fail("types", c.typePos(n), "%s.%s is a %s, the model assumes a %s", n, name, g[1], f[1])
					}
				}
			}
			if !found {
				c.fail("types", c.typePos(n), "%s has no %s (%s) any more", n, f[0], f[1])
			}
		}
	}
}

func (c *Checker) typePos(name string) string {
	if o := c.P.Dawg.Pkg.Scope().Lookup(name); o != nil {
		return c.P.Fset.Position(o.Pos()).String()
	}
	return "-"
}

// wire checks the layouts encoding/binary reads and writes.
func (c *Checker) wire() {
	c.rules = append(c.rules, "encoding/binary is only handed the recorded unit layouts, in little-endian order")
	ok := map[string]bool{"uint32": true, "struct{Child uint8;Sibling uint8}": true}
	var flat func(t types.Type) string
	flat = func(t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return flat(u.Elem())
		case *types.Slice:
			return flat(u.Elem())
		case *types.Struct:
			var fs []string
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i).Name()+" "+flat(u.Field(i).Type()))
			}
			return "struct{" + strings.Join(fs, ";") + "}"
		}
		return typeStr(t.Underlying())
	}
	for _, fn := range c.P.allFuncs(c.P.Dawg, false) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, is := in.(*ssa.Call)
				if !is || call.Call.StaticCallee() == nil {
					continue
				}
				n := call.Call.StaticCallee().String()
				if n != "encoding/binary.Read" && n != "encoding/binary.Write" {
					continue
				}
				c.counts["encoding calls checked"]++
				mi, is := call.Call.Args[2].(*ssa.MakeInterface)
				if !is {
					continue // a helper handing on data: compared with the model
				}
				if l := flat(mi.X.Type()); !ok[l] {
					c.fail("wire", c.P.Fset.Position(call.Pos()).String(), "%s handles %s, which is not a recorded unit layout", n, l)
				} else {
					c.sample("%s: %s of %s", c.P.Fset.Position(call.Pos()), n, l)
				}
			}
		}
	}
}

// consts checks exported constants users compare with.
func (c *Checker) consts() {
	var names []string
	for n := range c.Prop.Consts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		k, ok := c.P.Dawg.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			c.fail("constant", "-", "constant %s is gone", n)
			continue
		}
		c.counts["constants checked"]++
		if v := constant.ToInt(k.Val()).ExactString(); v != c.Prop.Consts[n] {
			c.fail("constant", c.P.Fset.Position(k.Pos()).String(), "%s is %s, documented as %s", n, v, c.Prop.Consts[n])
		}
	}
}
