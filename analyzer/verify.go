package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/absint"
)

// Unit is a function of the repository with its counterpart in the model.
type Unit struct {
	Name       string
	Pkg        *ssa.Package
	Impl, Spec *ssa.Function
	Cut        bool // treated as one step by its callers once shown equivalent
	Rec        bool // recursive
	Loop       bool
	scc        int
	res        *Result
	assumed    bool
}

// Result is the outcome of relating a unit to the model.
type Result struct {
	OK                    bool
	Given                 bool
	Viol                  []absint.Violation
	Pairs, Loops, Exits   int
	Attempts, Paths, Inst int
	Funcs                 []string
	Cuts                  []string
	Mode                  string
	sawMap, sawOps        bool
	Wall                  time.Duration
}

// Verifier relates units bottom-up.
type Verifier struct {
	P       *Program
	Mem     map[*ssa.Package]*absint.Mem
	Units   map[string]*Unit
	names   []string
	methods []*ssa.Function
	byFn    map[*ssa.Function]*Unit
	loops   map[*ssa.Function]bool
	Budget  time.Duration
	// Deadline is when the whole analysis has to end.
	Deadline  time.Time
	lib, grow map[string]*ssa.Function
	failTime  time.Duration // spent on attempts that failed
}

func funcName(fn *ssa.Function) string {
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "." + n
		}
	}
	return n
}

func specName(n string) string { return "spec_" + strings.ReplaceAll(n, ".", "_") }

// sameParams tells whether the model function takes what the function takes.
func sameParams(impl, spec *ssa.Function) bool {
	if len(impl.Params) != len(spec.Params) || impl.Signature.Results().Len() != spec.Signature.Results().Len() {
		return false
	}
	for i := range impl.Params {
		if !types.Identical(impl.Params[i].Type(), spec.Params[i].Type()) {
			return false
		}
	}
	for i := 0; i < impl.Signature.Results().Len(); i++ {
		if !types.Identical(impl.Signature.Results().At(i).Type(), spec.Signature.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func newVerifier(p *Program) *Verifier {
	v := &Verifier{P: p, Mem: map[*ssa.Package]*absint.Mem{}, Units: map[string]*Unit{}, byFn: map[*ssa.Function]*Unit{}, loops: map[*ssa.Function]bool{}, Budget: 40 * time.Second}
	v.lib = map[string]*ssa.Function{}
	for op, n := range libFuncs {
		if fn := p.Dawg.Func("spec_lib_" + n); fn != nil {
			v.lib[op] = fn
		}
	}
	v.grow = map[string]*ssa.Function{}
	for op, fn := range v.lib {
		v.grow[op] = fn
	}
	for op, n := range growFuncs {
		if fn := p.Dawg.Func("spec_lib_" + n); fn != nil {
			v.grow[op] = fn
		}
	}
	e := v.engine()
	for _, pkg := range []*ssa.Package{p.Dawg, p.Main} {
		if pkg == nil {
			continue
		}
		v.Mem[pkg] = p.initMem(e, pkg)
		used := map[*ssa.Function]bool{}
		var impls []*ssa.Function
		for _, fn := range p.allFuncs(pkg, false) {
			if fn.Parent() != nil || fn.Synthetic != "" {
				continue
			}
			impls = append(impls, fn)
			spec := pkg.Func(specName(funcName(fn)))
			if spec != nil && sameParams(fn, spec) {
				v.add(pkg, funcName(fn), fn, spec)
				used[fn], used[spec] = true, true
			}
		}
		// A renamed function keeps its receiver and signature.
		for _, spec := range p.allFuncs(pkg, true) {
			if spec.Parent() != nil || used[spec] {
				continue
			}
			var cand []*ssa.Function
			for _, fn := range impls {
				if !used[fn] && sameParams(fn, spec) && pkg.Func(specName(funcName(fn))) == nil {
					cand = append(cand, fn)
				}
			}
			if len(cand) == 1 {
				n := strings.TrimPrefix(spec.Name(), "spec_")
				n = strings.Replace(n, "_", ".", 1)
				v.add(pkg, n, cand[0], spec)
				used[cand[0]] = true
			}
		}
	}
	v.callGraph()
	return v
}

func (v *Verifier) add(pkg *ssa.Package, name string, impl, spec *ssa.Function) {
	key := name
	if pkg == v.P.Main {
		key = "main:" + name
	}
	u := &Unit{Name: key, Pkg: pkg, Impl: impl, Spec: spec}
	v.Units[key] = u
	v.names = append(v.names, key)
	v.byFn[impl], v.byFn[spec] = u, u
}

func (v *Verifier) engine() *absint.Engine {
	e := absint.NewEngine()
	e.Inline = func(fn *ssa.Function) bool {
		return fn.Pkg == v.P.Dawg || fn.Pkg == v.P.Main && v.P.Main != nil || fn.Pkg == nil
	}
	e.MaxPaths = 4000
	e.Fset = v.P.Fset
	if v.methods == nil {
		for _, pkg := range []*ssa.Package{v.P.Dawg, v.P.Main} {
			if pkg != nil {
				for _, fn := range v.P.allFuncs(pkg, false) {
					if fn.Signature.Recv() != nil {
						v.methods = append(v.methods, fn)
					}
				}
			}
		}
	}
	e.Methods = v.methods
	return e
}

func callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if hasLoop(a) {
			return true
		}
	}
	return false
}

func size(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	return n
}

// allocates tells whether a function grows or makes a slice.
func allocates(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeSlice:
				return true
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					return true
				}
			}
		}
	}
	return false
}

// packed tells whether a function decodes packed units, which has many cases.
func (v *Verifier) packed(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if seen[fn] || fn.Pkg != v.P.Dawg {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.SHL || x.Op == token.SHR) {
					if _, ok := x.Y.(*ssa.Const); !ok {
						return true
					}
				}
			}
		}
		for _, c := range callees(fn) {
			if walk(c) {
				return true
			}
		}
		return false
	}
	return walk(fn)
}

// node identifies a function together with its counterpart.
func (v *Verifier) node(fn *ssa.Function) interface{} {
	if u := v.byFn[fn]; u != nil {
		return u
	}
	return fn
}

// callGraph finds recursion and decides which units are single steps.
func (v *Verifier) callGraph() {
	succ := map[interface{}][]interface{}{}
	var nodes []interface{}
	seen := map[interface{}]bool{}
	for _, pkg := range []*ssa.Package{v.P.Dawg, v.P.Main} {
		if pkg == nil {
			continue
		}
		for _, spec := range []bool{false, true} {
			for _, fn := range v.P.allFuncs(pkg, spec) {
				n := v.node(fn)
				if !seen[n] {
					seen[n] = true
					nodes = append(nodes, n)
				}
				for _, c := range callees(fn) {
					succ[n] = append(succ[n], v.node(c))
				}
			}
		}
	}
	index, low, on := map[interface{}]int{}, map[interface{}]int{}, map[interface{}]bool{}
	var stack []interface{}
	n, comp := 0, 0
	var dfs func(x interface{})
	dfs = func(x interface{}) {
		n++
		index[x], low[x] = n, n
		stack = append(stack, x)
		on[x] = true
		self := false
		for _, y := range succ[x] {
			if y == x {
				self = true
			}
			if index[y] == 0 {
				dfs(y)
				low[x] = min(low[x], low[y])
			} else if on[y] {
				low[x] = min(low[x], index[y])
			}
		}
		if low[x] == index[x] {
			comp++
			var members []interface{}
			for {
				y := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[y] = false
				members = append(members, y)
				if y == x {
					break
				}
			}
			for _, y := range members {
				if u, ok := y.(*Unit); ok {
					u.scc = comp
					u.Rec = len(members) > 1 || self
				}
			}
		}
	}
	for _, x := range nodes {
		if index[x] == 0 {
			dfs(x)
		}
	}
	for _, u := range v.Units {
		u.Loop = hasLoop(u.Impl) || hasLoop(u.Spec)
		u.Cut = u.Rec || u.Loop || allocates(u.Impl) || allocates(u.Spec) || size(u.Spec) > 80
	}
}

// below lists the cut units a unit's two sides reach, itself excluded.
func (v *Verifier) below(u *Unit) []*Unit {
	seen := map[*ssa.Function]bool{}
	set := map[*Unit]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if seen[fn] || fn.Pkg != nil && fn.Pkg != u.Pkg {
			return
		}
		seen[fn] = true
		if x := v.byFn[fn]; x != nil && x != u && x.Cut {
			set[x] = true
		}
		for _, c := range callees(fn) {
			walk(c)
		}
	}
	walk(u.Impl)
	walk(u.Spec)
	var out []*Unit
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// Verify relates a unit to the model, after what it depends on.
func (v *Verifier) Verify(name string) *Result {
	u := v.Units[name]
	if u == nil {
		return &Result{Viol: []absint.Violation{{Rule: name, Pos: "-", Msg: "no such function: the anchor of this obligation cannot be resolved"}}}
	}
	if u.res != nil {
		return u.res
	}
	var group []*Unit
	for _, n := range v.names {
		x := v.Units[n]
		if x == u || x.Rec && x.scc == u.scc {
			group = append(group, x)
		}
	}
	for _, x := range group {
		x.assumed = true
	}
	for _, x := range group {
		for _, d := range v.below(x) {
			if d.res == nil && !d.assumed {
				v.Verify(d.Name)
			}
		}
	}
	// Members of a recursive group are shown equivalent assuming the others
	// are for the nested calls; a member that fails is not assumed any more.
	first := map[*Unit]*Result{}
	for {
		again := false
		for _, x := range group {
			x.res = nil
		}
		for _, x := range group {
			r := v.run(x)
			if os.Getenv("SHOW_GROUP") != "" {
				fmt.Println("group", x.Name, r)
				for _, w := range r.Viol {
					fmt.Printf("   %.3000s\n", w.Msg)
				}
			}
			if !r.OK && first[x] == nil {
				first[x] = r
			}
			x.res = r
		}
		for _, x := range group {
			if !x.res.OK && x.assumed && len(group) > 1 {
				x.assumed = false
				again = true
			}
		}
		if !again {
			break
		}
	}
	for _, x := range group {
		if !x.res.OK && first[x] != nil {
			x.res = first[x]
		}
	}
	for _, x := range group {
		x.assumed = false
	}
	return u.res
}

// How callees are treated: as steps where already shown equivalent, and
// inlined otherwise.
const (
	stepAll = iota
	stepLoops
	stepRecursive
)

var modeName = []string{"callees as steps", "callees with loops as steps", "callees inlined"}

func (v *Verifier) run(u *Unit) *Result {
	deps := v.below(u)
	var first *Result
	last := -1
	failed := false
	for _, d := range deps {
		failed = failed || d.res != nil && !d.res.OK
	}
	for mode := stepAll; mode <= stepRecursive; mode++ {
		if failed && mode > stepAll {
			// What differs is inlined already.
			break
		}
		n := 0
		for _, d := range deps {
			if v.isStep(d, mode) {
				n++
			}
		}
		if n == last {
			continue
		}
		last = n
		r := v.attempt(u, deps, mode, false, false, v.lib)
		if r.OK {
			return r
		}
		if r.sawMap {
			if r2 := v.attempt(u, deps, mode, true, false, v.lib); r2.OK {
				return r2
			}
		}
		if r.sawOps {
			for _, lib := range []map[string]*ssa.Function{v.lib, v.grow} {
				if r2 := v.attempt(u, deps, mode, false, true, lib); r2.OK {
					return r2
				} else if os.Getenv("SHOW_LOOPOPS") != "" {
					r = r2
				}
			}
		}
		if first == nil {
			first = r
		}
	}
	return first
}

func (v *Verifier) isStep(d *Unit, mode int) bool {
	if !(d.assumed || d.res != nil && d.res.OK) {
		return false
	}
	return d.Rec || mode == stepAll || mode == stepLoops && d.Loop
}

func (v *Verifier) attempt(u *Unit, deps []*Unit, mode int, forkMaps, loopOps bool, lib map[string]*ssa.Function) *Result {
	e := v.engine()
	e.ForkMaps, e.LoopOps, e.Lib = forkMaps, loopOps, lib
	budget := v.Budget
	if v.failTime > 3*v.Budget {
		budget /= 3
	}
	e.Deadline = time.Now().Add(budget)
	if !v.Deadline.IsZero() && e.Deadline.After(v.Deadline) {
		e.Deadline = v.Deadline
	}
	res := &Result{Mode: modeName[mode]}
	if u.Rec {
		deps = append(deps, u)
	}
	if u.Pkg == v.P.Main {
		// The tool is compared as a user of the library: both sides call the
		// same library functions.
		for _, fn := range v.P.allFuncs(v.P.Dawg, false) {
			x := v.byFn[fn]
			if fn.Parent() != nil || !(x != nil && x.Cut || hasLoop(fn) || v.packed(fn)) {
				continue
			}
			name := "dawg." + funcName(fn)
			e.Opaque[fn] = name
			for k := range e.ModSet(fn) {
				e.RecMods[name] = append(e.RecMods[name], k)
			}
			sort.Strings(e.RecMods[name])
			e.Refs["call "+name] = e.RefSet(fn)
			res.Cuts = append(res.Cuts, name)
		}
	}
	for _, d := range deps {
		if d.Pkg != u.Pkg || !v.isStep(d, mode) {
			continue
		}
		e.Opaque[d.Impl], e.Opaque[d.Spec] = d.Name, d.Name
		for k := range e.ModSet(d.Impl, d.Spec) {
			e.RecMods[d.Name] = append(e.RecMods[d.Name], k)
		}
		e.Refs["call "+d.Name] = e.RefSet(d.Impl, d.Spec)
		res.Cuts = append(res.Cuts, d.Name)
	}
	t0 := time.Now()
	q := &absint.Equiv{E: e, Fset: v.P.Fset, Name: u.Name}
	var args []absint.Value
	for _, pa := range u.Impl.Params {
		args = append(args, absint.SymValue(pa.Name(), pa.Type()))
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				q.Viol = append(q.Viol, absint.Violation{Rule: u.Name, Pos: "-", Msg: fmt.Sprintf("the function could not be analysed: %.300v", r)})
			}
		}()
		q.Check(u.Impl, u.Spec, args, absint.NewFacts(), v.Mem[u.Pkg])
	}()
	res.Viol, res.OK = q.Viol, len(q.Viol) == 0
	res.Pairs, res.Loops, res.Exits, res.Attempts = q.Pairs, q.Loops, q.Exits, q.Attempts
	res.Paths, res.Inst, res.Wall = e.Paths, e.Instrs, time.Since(t0)
	if !res.OK {
		v.failTime += res.Wall
	}
	for fn := range e.Funcs {
		if !isSpec(fn) {
			res.Funcs = append(res.Funcs, fn.String())
		}
	}
	sort.Strings(res.Funcs)
	res.sawMap, res.sawOps = e.SawMap, e.SawOps
	if res.OK && q.Exits == 0 {
		res.OK = false
		res.Viol = append(res.Viol, absint.Violation{Rule: u.Name, Pos: "-", Msg: "no path reaches an exit: nothing was compared"})
	}
	return res
}

func (r *Result) String() string {
	s := "ok"
	if !r.OK {
		s = fmt.Sprintf("FAIL(%d)", len(r.Viol))
	}
	return fmt.Sprintf("%-8s pairs=%d loops=%d attempts=%d exits=%d cuts=%d %s %v", s, r.Pairs, r.Loops, r.Attempts, r.Exits, len(r.Cuts), r.Mode, r.Wall.Round(time.Millisecond))
}
