package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// uncovered lists the functions of the repository that can run below a
// property's entries, through static calls, closures and methods of values
// turned into interfaces, but that no obligation of the property looked at.
func (c *Checker) uncovered() []string {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	given := map[*ssa.Function]bool{}
	for _, u := range c.V.Units {
		if u.res != nil && u.res.Given {
			given[u.Impl] = true
		}
	}
	walk = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || given[fn] || len(fn.Blocks) == 0 || isSpec(fn) {
			return
		}
		if fn.Pkg != nil && fn.Pkg != c.P.Dawg && fn.Pkg != c.P.Main {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						walk(f)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					ms := c.P.Dawg.Prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						walk(c.P.Dawg.Prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	for _, en := range c.Prop.Entries {
		for _, n := range splitBar(en) {
			if u := c.V.Units[n]; u != nil {
				walk(u.Impl)
				break
			}
		}
	}
	var out []string
	for fn := range seen {
		if !c.funcs[fn.String()] && (fn.Synthetic == "" || fn.Parent() != nil) {
			if _, ok := fn.Object().(*types.Func); ok || fn.Parent() != nil {
				out = append(out, fmt.Sprint(fn))
			}
		}
	}
	sort.Strings(out)
	return out
}
