package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A may-point-to and effect analysis. Memory is divided into origins: what a
// parameter reaches (told apart by the first field on the way), what a
// package-level variable reaches, and what an allocation site makes (told
// apart by field). It is insensitive to flow, and summaries are computed to a
// fixed point.

type origin struct {
	kind byte // 'p' parameter, 'g' global, 'a' allocation
	n    int
	path string // 'p': first field followed
	v    interface{}
}

// addr is an object, or a field of it.
type addr struct {
	o   origin
	fld string
}

type addrs map[addr]bool

func (o addrs) add(p addrs) bool {
	ch := false
	for x := range p {
		if !o[x] {
			o[x] = true
			ch = true
		}
	}
	return ch
}

type place struct {
	n    int
	path string
}

type flow struct {
	src place
	dst place
	fld string
}

// summary is what a function does to what its parameters reach.
type summary struct {
	mut     map[place]string       // memory written, and where
	globals map[*ssa.Global]string // package variables written
	flows   map[flow]string        // what is stored into what parameters reach
	keeps   map[place]string       // what is kept in package variables
	res     []map[origin]bool      // what results may point into
	resAt   string
	held    []map[string]map[origin]bool // what fields of objects made here hold
}

type effects struct {
	p     *Program
	sum   map[*ssa.Function]*summary
	fns   []*ssa.Function
	impls func(c *ssa.CallCommon) []*ssa.Function
}

func (p *Program) effectsOf(v *Verifier) *effects {
	ef := &effects{p: p, sum: map[*ssa.Function]*summary{}}
	e := v.engine()
	ef.impls = e.Implementations
	for _, fn := range p.allFuncs(p.Dawg, false) {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue // the package's own initialisation
		}
		ef.fns = append(ef.fns, fn)
		ef.sum[fn] = newSummary(fn)
	}
	for {
		ch := false
		for _, fn := range ef.fns {
			if ef.analyse(fn) {
				ch = true
			}
		}
		if !ch {
			return ef
		}
	}
}

func newSummary(fn *ssa.Function) *summary {
	s := &summary{mut: map[place]string{}, globals: map[*ssa.Global]string{}, flows: map[flow]string{}, keeps: map[place]string{}}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		s.res = append(s.res, map[origin]bool{})
		s.held = append(s.held, map[string]map[origin]bool{})
	}
	return s
}

// pointerLike tells whether values of the type can give access to memory.
func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Info()&types.IsString != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// unsafely tells whether a pointer to a string is one to something else.
func unsafely(v ssa.Value) bool {
	c, ok := v.(*ssa.Convert)
	return ok && c.X.Type().Underlying() == types.Typ[types.UnsafePointer]
}

// Library functions that write through none of their arguments.
var readOnlyPkgs = []string{"fmt.", "strings.", "strconv.", "errors.", "math.", "math/bits.", "unicode.", "unicode/utf8.", "bytes.", "cmp.", "log."}

func (ef *effects) analyse(fn *ssa.Function) bool {
	sum := ef.sum[fn]
	pts := map[ssa.Value]addrs{}
	contents := map[addr]addrs{}
	fields := map[origin]map[string]bool{}
	paramIdx := map[ssa.Value]int{}
	for i, pa := range fn.Params {
		paramIdx[pa] = i
	}
	for i, fv := range fn.FreeVars {
		paramIdx[fv] = len(fn.Params) + i
	}
	get := func(v ssa.Value) addrs {
		if o, ok := pts[v]; ok {
			return o
		}
		o := addrs{}
		pts[v] = o
		if i, ok := paramIdx[v]; ok && pointerLike(v.Type()) {
			o[addr{o: origin{kind: 'p', n: i}}] = true
		}
		if g, ok := v.(*ssa.Global); ok {
			o[addr{o: origin{kind: 'g', v: g}}] = true
		}
		return o
	}
	changed := false
	step := false
	pos := func(in ssa.Instruction) string { return ef.p.Fset.Position(in.Pos()).String() }
	write := func(os addrs, at string) {
		for a := range os {
			switch a.o.kind {
			case 'p':
				k := place{a.o.n, a.o.path}
				if _, ok := sum.mut[k]; !ok {
					sum.mut[k] = at
					changed = true
				}
			case 'g':
				g := a.o.v.(*ssa.Global)
				if _, ok := sum.globals[g]; !ok {
					sum.globals[g] = at
					changed = true
				}
			}
		}
	}
	store := func(dst, val addrs, at string) {
		for d := range dst {
			if contents[d] == nil {
				contents[d] = addrs{}
			}
			if contents[d].add(val) {
				step = true
			}
			if fields[d.o] == nil {
				fields[d.o] = map[string]bool{}
			}
			fields[d.o][d.fld] = true
			for v := range val {
				if v.o.kind != 'p' {
					continue
				}
				src := place{v.o.n, v.o.path}
				switch d.o.kind {
				case 'p':
					f := flow{src, place{d.o.n, d.o.path}, d.fld}
					if _, ok := sum.flows[f]; !ok && f.src.n != f.dst.n {
						sum.flows[f] = at
						changed = true
					}
				case 'g':
					if _, ok := sum.keeps[src]; !ok {
						sum.keeps[src] = at
						changed = true
					}
				}
			}
		}
	}
	// load is what the memory at these addresses may hold.
	load1 := func(a addr) addrs {
		out := addrs{}
		switch a.o.kind {
		case 'p':
			o := a.o
			if o.path == "" && a.fld != "" {
				o.path = a.fld
			}
			out[addr{o: o}] = true
		case 'g':
			out[addr{o: a.o}] = true
		}
		if a.fld == "" {
			for f := range fields[a.o] {
				out.add(contents[addr{a.o, f}])
			}
		} else {
			out.add(contents[a])
			out.add(contents[addr{o: a.o}])
		}
		return out
	}
	load := func(os addrs) addrs {
		out := addrs{}
		for a := range os {
			out.add(load1(a))
		}
		return out
	}
	field := func(os addrs, f string) addrs {
		out := addrs{}
		for a := range os {
			if a.fld == "" {
				a.fld = f
			}
			out[a] = true
		}
		return out
	}
	// loadT loads a value of a type: of a struct, all of its fields.
	loadT := func(os addrs, t types.Type) addrs {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return load(os)
		}
		out := addrs{}
		for i := 0; i < st.NumFields(); i++ {
			if pointerLike(st.Field(i).Type()) {
				out.add(load(field(os, st.Field(i).Name())))
			}
		}
		return out
	}
	set := func(v ssa.Value, os addrs) {
		if !pointerLike(v.Type()) {
			return
		}
		if get(v).add(os) {
			step = true
		}
	}
	alloc := func(in ssa.Value, k int) addrs { return addrs{addr{o: origin{kind: 'a', n: k, v: in}}: true} }

	apply := func(callee *ssa.Function, args []addrs, at string, site interface{}) []addrs {
		cs := ef.sum[callee]
		resolve := func(p place) addrs {
			if p.n >= len(args) {
				return addrs{}
			}
			if p.path == "" {
				return args[p.n]
			}
			return load(field(args[p.n], p.path))
		}
		for p := range cs.mut {
			write(resolve(p), at)
		}
		for g := range cs.globals {
			if _, ok := sum.globals[g]; !ok {
				sum.globals[g] = cs.globals[g]
				changed = true
			}
		}
		for f := range cs.flows {
			dst := resolve(f.dst)
			if f.fld != "" {
				dst = field(dst, f.fld)
			}
			store(dst, resolve(f.src), at)
		}
		for p := range cs.keeps {
			for a := range resolve(p) {
				if a.o.kind == 'p' {
					k := place{a.o.n, a.o.path}
					if _, ok := sum.keeps[k]; !ok {
						sum.keeps[k] = at
						changed = true
					}
				}
			}
		}
		var out []addrs
		for i, r := range cs.res {
			os := addrs{}
			made := false
			for o := range r {
				switch o.kind {
				case 'p':
					os.add(resolve(place{o.n, o.path}))
				case 'a':
					made = true
				default:
					os[addr{o: o}] = true
				}
			}
			if made {
				obj := addr{o: origin{kind: 'a', n: i + 1, v: site}}
				inner := addr{o: origin{kind: 'a', n: -(i + 1), v: site}}
				os[obj] = true
				for f, hs := range cs.held[i] {
					held := addrs{}
					for o := range hs {
						switch o.kind {
						case 'p':
							held.add(resolve(place{o.n, o.path}))
						case 'a':
							held[inner] = true
						default:
							held[addr{o: o}] = true
						}
					}
					store(addrs{addr{obj.o, f}: true}, held, at)
					if held[inner] {
						store(addrs{inner: true}, held, at)
					}
				}
			}
			out = append(out, os)
		}
		return out
	}
	call := func(in ssa.CallInstruction) {
		c := in.Common()
		at := ef.p.Fset.Position(in.Pos()).String()
		var args []addrs
		if c.IsInvoke() {
			args = append(args, get(c.Value))
		}
		for _, a := range c.Args {
			if pointerLike(a.Type()) {
				args = append(args, get(a))
			} else {
				args = append(args, addrs{})
			}
		}
		v, _ := in.(ssa.Value)
		results := func(rs []addrs) {
			if v == nil {
				return
			}
			if len(rs) == 1 {
				set(v, rs[0])
			} else if len(rs) > 1 {
				all := addrs{}
				for _, r := range rs {
					all.add(r)
				}
				set(v, all)
			}
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				write(args[0], at)
				os := addrs{}
				os.add(args[0])
				os.add(alloc(v, 0))
				if el, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && pointerLike(el.Elem()) && !isStr(el.Elem()) && len(args) > 1 {
					store(os, load(args[1]), at)
				}
				set(v, os)
			case "copy":
				write(args[0], at)
				if el, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && pointerLike(el.Elem()) && !isStr(el.Elem()) {
					store(args[0], load(args[1]), at)
				}
			case "delete", "clear":
				write(args[0], at)
			case "len", "cap", "print", "println", "min", "max", "panic", "recover":
			default:
				// unsafe and others: the result may be any argument's memory
				os := addrs{}
				for _, a := range args {
					os.add(a)
				}
				if v != nil {
					set(v, os)
				}
			}
			return
		}
		var targets []*ssa.Function
		if f := c.StaticCallee(); f != nil {
			if _, ok := ef.sum[f]; ok {
				if mc, ok := c.Value.(*ssa.MakeClosure); ok {
					for _, b := range mc.Bindings {
						args = append(args, get(b))
					}
				}
				targets = append(targets, f)
			} else {
				n := f.String()
				ro := false
				for _, p := range readOnlyPkgs {
					ro = ro || strings.HasPrefix(n, p) || strings.HasPrefix(n, "("+p) || strings.HasPrefix(n, "(*"+p)
				}
				switch {
				case n == "encoding/binary.Write":
					write(args[0], at)
				case n == "encoding/binary.Read":
					write(args[0], at)
					write(args[2], at)
				case strings.HasPrefix(n, "container/heap."):
					// calls back into the queue, which it also permutes
					write(args[0], at)
					for _, m := range ef.fns {
						if m.Signature.Recv() != nil && (m.Name() == "Push" || m.Name() == "Pop" || m.Name() == "Swap" || m.Name() == "Less" || m.Name() == "Len") {
							apply(m, append([]addrs{args[0]}, args[1:]...), at, in)
						}
					}
					results([]addrs{args[0]})
				case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices."):
					if strings.HasPrefix(n, "sort.S") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") {
						write(args[0], at)
					}
					results([]addrs{args[0]})
				case ro:
				default:
					for _, a := range args {
						write(a, at)
					}
					all := addrs{}
					for _, a := range args {
						all.add(a)
					}
					results([]addrs{all})
				}
				return
			}
		} else if c.IsInvoke() {
			targets = ef.impls(c)
			if len(targets) == 0 {
				// An object of the caller's: what it does with itself is its
				// own affair, but it may write into what it is handed.
				write(args[0], at)
				for i, a := range args[1:] {
					if !isStr(c.Args[i].Type()) {
						write(a, at)
					}
				}
				return
			}
		} else {
			// A function value: made here, or the caller's.
			for _, g := range ef.fns {
				if g.Parent() != nil && types.Identical(g.Signature, c.Value.Type().Underlying()) {
					targets = append(targets, g)
				}
			}
		}
		for _, t := range targets {
			results(apply(t, args, at, in))
		}
	}

	for {
		step = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					set(x, alloc(x, 0))
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
					set(x.(ssa.Value), alloc(x.(ssa.Value), 0))
				case *ssa.MakeClosure:
					os := alloc(x, 0)
					set(x, os)
					for _, bnd := range x.Bindings {
						store(os, get(bnd), pos(in))
						set(x, get(bnd))
					}
				case *ssa.MakeInterface:
					if pointerLike(x.X.Type()) {
						set(x, get(x.X))
					}
				case *ssa.FieldAddr:
					set(x, field(get(x.X), fieldName(x)))
				case *ssa.IndexAddr:
					set(x, get(x.X))
				case *ssa.Field:
					set(x, get(x.X))
				case *ssa.Index:
					set(x, get(x.X))
				case *ssa.Lookup:
					set(x, load(get(x.X)))
				case *ssa.Slice:
					set(x, get(x.X))
				case *ssa.Phi:
					for _, e := range x.Edges {
						set(x, get(e))
					}
				case *ssa.Extract:
					set(x, get(x.Tuple))
				case *ssa.TypeAssert:
					set(x, get(x.X))
				case *ssa.ChangeType:
					set(x, get(x.X))
				case *ssa.ChangeInterface:
					set(x, get(x.X))
				case *ssa.SliceToArrayPointer:
					set(x, get(x.X))
				case *ssa.Convert:
					switch {
					case isStr(x.Type()) != isStr(x.X.Type()):
						set(x, alloc(x, 0)) // copies
					default:
						set(x, get(x.X))
					}
				case *ssa.BinOp:
					if isStr(x.Type()) {
						set(x, alloc(x, 0))
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if isStr(x.Type()) && !unsafely(x.X) {
							set(x, alloc(x, 0)) // strings cannot be changed
						} else {
							set(x, loadT(get(x.X), x.Type()))
						}
					}
				case *ssa.Range:
					set(x, get(x.X))
				case *ssa.Next:
					set(x, load(get(x.Iter)))
				case *ssa.Store:
					write(get(x.Addr), pos(in))
					if pointerLike(x.Val.Type()) {
						store(get(x.Addr), get(x.Val), pos(in))
					}
				case *ssa.MapUpdate:
					write(get(x.Map), pos(in))
					store(get(x.Map), get(x.Value), pos(in))
				case *ssa.Send:
					write(get(x.Chan), pos(in))
				case *ssa.Return:
					for i, r := range x.Results {
						if !pointerLike(r.Type()) {
							continue
						}
						put := func(m map[origin]bool, o origin) {
							if o.kind == 'a' {
								o = origin{kind: 'a'}
							}
							if !m[o] {
								m[o] = true
								changed = true
								sum.resAt = pos(in)
							}
						}
						for a := range get(r) {
							put(sum.res[i], a.o)
							if a.o.kind != 'a' {
								continue
							}
							// and what an object made here holds
							for f := range fields[a.o] {
								if sum.held[i][f] == nil {
									sum.held[i][f] = map[origin]bool{}
								}
								seen := map[origin]bool{}
								var reach func(p addrs)
								reach = func(p addrs) {
									for b := range p {
										if seen[b.o] {
											continue
										}
										seen[b.o] = true
										put(sum.held[i][f], b.o)
										for g := range fields[b.o] {
											reach(contents[addr{b.o, g}])
										}
									}
								}
								reach(contents[addr{a.o, f}])
							}
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					call(ci)
				}
			}
		}
		if !step {
			break
		}
	}
	return changed
}

// writable are parameter types that exist to be written to.
func outParam(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	case *types.Interface:
		n, ok := types.Unalias(t).(*types.Named)
		return ok && (n.Obj().Name() == "Writer" || n.Obj().Name() == "UtfcFollower")
	}
	return false
}

var readOnly = cat(lookup,
	[]string{"Dictionary.Size", "Dictionary.TotalSize", "Dictionary.FileSize", "Dictionary.Write"},
	[]string{"Guide.Size", "Guide.TotalSize", "Guide.FileSize", "Guide.Root", "Guide.Child", "Guide.Sibling", "Guide.Write"},
	[]string{"RankedGuide.Size", "RankedGuide.TotalSize", "RankedGuide.FileSize", "RankedGuide.Root", "RankedGuide.Child", "RankedGuide.Sibling", "RankedGuide.Write"},
	[]string{"Index.Size", "Index.TotalSize", "Index.FileSize", "Index.Root", "Index.ChildCount", "Index.TotalCount", "Index.Write"},
	[]string{"Indexer.TotalCount", "Indexer.StringToIndex", "Indexer.IndexToString", "Indexer.BytesToIndex", "Indexer.IndexToBytes"},
	[]string{"Dawg.Root", "Dawg.Child", "Dawg.Sibling", "Dawg.Value", "Dawg.IsLeaf", "Dawg.Label", "Dawg.IsMerging", "Dawg.Size",
		"Dawg.NumOfStates", "Dawg.NumOfTransitions", "Dawg.NumOfMergedStates", "Dawg.NumOfMergedTransitions", "Dawg.NumOfMergingStates",
		"Dawg.Build", "Dawg.BuildWithUnused"},
	[]string{"BuildGuide", "BuildRankedGuide", "BuildRankedGuideCmp", "BuildIndex"},
	[]string{"Completer.Key", "Completer.Value", "Completer.Length", "RankedCompleter.Key", "RankedCompleter.Value", "RankedCompleter.Length"},
	[]string{"UtfcEncode", "UtfcDecode", "UtfcFollow"},
)

// effects decides that readers write nothing they share.
func (c *Checker) effects() {
	ef := c.P.effectsOf(c.V)
	c.rules = append(c.rules,
		"no function of the library stores to, appends to or updates memory reachable from a package-level variable",
		"no read-only operation writes memory reachable from its receiver or arguments, except through output parameters")
	for _, fn := range ef.fns {
		if fn.Name() == "init" {
			continue
		}
		c.counts["functions checked for package state"]++
		c.funcs[fn.String()] = true
		sum := ef.sum[fn]
		var gs []string
		at := map[string]string{}
		for g, p := range sum.globals {
			gs = append(gs, g.Name())
			at[g.Name()] = p
		}
		sort.Strings(gs)
		for _, g := range gs {
			c.fail("shared state", at[g], "%s writes to memory reachable from the package variable %s", fn, g)
		}
	}
	for _, n := range readOnly {
		fn := c.P.Func(c.P.Dawg, n)
		if fn == nil {
			c.fail("anchor", "-", "read-only operation %s not found", n)
			continue
		}
		c.counts["obligations"]++
		sum := ef.sum[fn]
		if sum == nil {
			c.fail("anchor", "-", "no body for %s", n)
			continue
		}
		ok := true
		for i, pa := range fn.Params {
			for k, at := range sum.mut {
				if k.n == i && !outParam(pa.Type()) {
					ok = false
					c.fail("effect", at, "%s writes memory reachable from %s%s, which concurrent readers share", n, pa.Name(), dot(k.path))
				}
			}
		}
		if ok {
			c.counts["discharged"]++
			c.sample("%s: writes through %d of %d parameters", n, len(sum.mut), len(fn.Params))
		}
	}
}

// independence decides that slices do not leak in or out.
func (c *Checker) independence() {
	ef := c.P.effectsOf(c.V)
	c.rules = append(c.rules,
		"no slice or string an exported function returns can point into memory reachable from its receiver, arguments or package variables",
		"no slice given to an exported function is written to, or stored where it is still reachable after the call")
	for _, fn := range ef.fns {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if r := fn.Signature.Recv(); r != nil {
			n := typeStr(r.Type())
			if !token.IsExported(strings.TrimPrefix(n, "*")) {
				continue
			}
		}
		sum := ef.sum[fn]
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if _, sl := t.Underlying().(*types.Slice); !sl && !isStr(t) {
				continue
			}
			c.counts["returned slices and strings checked"]++
			c.funcs[fn.String()] = true
			bad := ""
			for o := range sum.res[i] {
				switch o.kind {
				case 'p':
					if o.n < len(fn.Params) && isStr(fn.Params[o.n].Type()) {
						continue // strings cannot be changed
					}
					bad = "the parameter or receiver " + paramName(fn, o.n)
				case 'g':
					if isStr(t) {
						continue
					}
					bad = "the package variable " + o.v.(*ssa.Global).Name()
				}
			}
			if bad != "" {
				c.fail("returned slice", sum.resAt, "%s returns memory that may belong to %s", fn, bad)
			} else {
				c.sample("%s: result %d is made by the call", fn, i)
			}
		}
		for i, pa := range fn.Params {
			if _, sl := pa.Type().Underlying().(*types.Slice); !sl {
				continue
			}
			if fn.Signature.Recv() != nil && i == 0 {
				continue // a slice type's own method
			}
			c.counts["slice arguments checked"]++
			for k, at := range sum.mut {
				if k.n == i {
					c.fail("argument", at, "%s writes to its argument %s", fn, pa.Name())
				}
			}
			for k, at := range sum.keeps {
				if k.n == i {
					c.fail("argument", at, "%s keeps its argument %s in a package variable", fn, pa.Name())
				}
			}
			for f, at := range sum.flows {
				if f.src.n == i {
					c.fail("argument", at, "%s keeps its argument %s in %s%s", fn, pa.Name(), paramName(fn, f.dst.n), dot(f.fld))
				}
			}
			for k, r := range sum.res {
				if r[origin{kind: 'p', n: i}] {
					c.fail("argument", sum.resAt, "%s returns its argument %s in result %d", fn, pa.Name(), k)
				}
			}
		}
	}
	if c.counts["returned slices and strings checked"] == 0 || c.counts["slice arguments checked"] == 0 {
		c.fail("anchor", "-", "no exported function with slice arguments or results found")
	}
}

func paramName(fn *ssa.Function, i int) string {
	if i < len(fn.Params) {
		return fn.Params[i].Name()
	}
	return fmt.Sprintf("captured variable %d", i-len(fn.Params))
}

func dot(s string) string {
	if s == "" {
		return ""
	}
	return "." + s
}

func fieldName(x *ssa.FieldAddr) string {
	return x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
}
