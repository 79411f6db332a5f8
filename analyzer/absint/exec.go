package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("ABSINT_DEBUG") != ""

// Frame is one activation of an inlined function.
type Frame struct {
	Fn     *ssa.Function
	Blk    *ssa.BasicBlock
	PC     int
	Env    map[ssa.Value]Value
	Site   ssa.CallInstruction // in the caller
	Defers []deferred
	unroll map[int]*unrollRec
	iters  map[int]int
	// onReturn, when set, receives the results instead of the call site.
	onReturn func(st *State, res []Value)
}

type deferred struct {
	common *ssa.CallCommon
	fn     Value
	args   []Value
}

type unrollRec struct {
	snap  *State
	count int
	forks int
	depth int
	blk   int
	body  map[*ssa.BasicBlock]bool
}

const (
	maxUnroll      = 40
	maxUnrollForks = 60
)

// Event is an observable interaction with code that is not analysed.
type Event struct {
	Name string
	Args []Value
	Mem  *Mem // memory at the call, when the callee may read it
	Res  Value
	Ver  string // names the memory the callee left behind

	Cmp    Value // of a sort
	After  *Mem
	Stable bool

	Pos token.Pos
}

// State is one abstract path state.
type State struct {
	Frames []*Frame
	Mem    *Mem
	Facts  *Facts
	Events []Event
	Oracle []Event // events of the model path this path must reproduce
	HasOr  bool
	anc    []*unrollRec
	skip   bool
	steps  int
}

func (s *State) top() *Frame { return s.Frames[len(s.Frames)-1] }

func (s *State) Clone() *State {
	n := &State{Mem: s.Mem.Clone(), Facts: s.Facts.Clone(), HasOr: s.HasOr, skip: s.skip, steps: s.steps}
	n.Events = append([]Event(nil), s.Events...)
	n.Oracle = s.Oracle
	n.anc = append([]*unrollRec(nil), s.anc...)
	for _, f := range s.Frames {
		g := &Frame{Fn: f.Fn, Blk: f.Blk, PC: f.PC, Site: f.Site, onReturn: f.onReturn}
		g.Env = make(map[ssa.Value]Value, len(f.Env))
		for k, v := range f.Env {
			g.Env[k] = v
		}
		g.Defers = append([]deferred(nil), f.Defers...)
		if f.unroll != nil {
			g.unroll = map[int]*unrollRec{}
			for k, v := range f.unroll {
				g.unroll[k] = v
			}
		}
		if f.iters != nil {
			g.iters = map[int]int{}
			for k, v := range f.iters {
				g.iters[k] = v
			}
		}
		n.Frames = append(n.Frames, g)
	}
	return n
}

type OutKind uint8

const (
	OReturn OutKind = iota
	OFatal
	OPanic
	OCut
	OBack
	OMismatch
	OUnsupported
	OExit // left the loop under inference
	oNeedCut
)

func (k OutKind) String() string {
	return [...]string{"return", "fatal exit", "panic", "loop", "loop repetition", "mismatch", "unsupported", "loop exit", "needcut"}[k]
}

// Outcome is where a path stopped.
type Outcome struct {
	Kind OutKind
	St   *State
	Res  []Value
	Msg  string
	rec  *unrollRec
}

// loopLevel is a loop being abstracted on one side.
type loopLevel struct {
	depth int
	blk   *ssa.BasicBlock
	birth int
	mod   map[Key]types.Type
	order []Key
	dirty bool
	body  map[*ssa.BasicBlock]bool
	// bodyOnly stops paths that leave the loop.
	bodyOnly bool
}

// within tells whether a state is still inside the loop.
func (l *loopLevel) within(st *State) bool {
	return st == nil || l.depth < len(st.Frames) && l.body[st.Frames[l.depth].Blk]
}

func (l *loopLevel) addMod(k Key, t types.Type) {
	if _, ok := l.mod[k]; !ok {
		l.mod[k] = t
		l.order = append(l.order, k)
		l.dirty = true
	}
}

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

// Engine interprets functions of the analysed packages.
type Engine struct {
	Inline  func(*ssa.Function) bool
	Opaque  map[*ssa.Function]string   // recursive functions treated as events
	RecMods map[string][]string        // event name -> regions the event may change
	Refs    map[string]map[string]bool // event name -> fields the callee touches
	// ForkMaps splits lookups in constant tables by key.
	ForkMaps, SawMap bool
	// LoopOps replaces operations on whole slices and strings by the loops
	// they stand for (Lib); SawOps tells that there was one.
	LoopOps, SawOps bool
	Lib             map[string]*ssa.Function

	Methods  []*ssa.Function // candidates for interface calls
	Deadline time.Time
	TimedOut bool
	Globals  *Mem // memory after package initialisation
	ForkBits int
	MaxPaths int
	MaxSteps int

	active []*loopLevel
	cur    *State
	loops  map[*ssa.Function]*loopInfo

	Paths, Instrs int
	Funcs         map[*ssa.Function]bool

	// IgnoreKey excludes regions from comparison.
	IgnoreKey func(Key) bool
	Fset      *token.FileSet
	subs      int
}

func NewEngine() *Engine {
	return &Engine{Opaque: map[*ssa.Function]string{}, RecMods: map[string][]string{}, Refs: map[string]map[string]bool{}, ForkBits: 2, MaxPaths: 20000, MaxSteps: 400000, loops: map[*ssa.Function]*loopInfo{}, Funcs: map[*ssa.Function]bool{}}
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	li := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := li.body[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					li.body[s] = set
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if set[x] {
						continue
					}
					set[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loops[fn] = li
	return li
}

// NewState starts fn on the given arguments.
func (e *Engine) NewState(fn *ssa.Function, args []Value, facts *Facts, mem *Mem) *State {
	st := &State{Mem: mem, Facts: facts}
	e.push(st, fn, args, nil, nil)
	return st
}

func (e *Engine) push(st *State, fn *ssa.Function, args []Value, bind []Value, site ssa.CallInstruction) {
	f := &Frame{Fn: fn, Blk: fn.Blocks[0], Env: map[ssa.Value]Value{}, Site: site}
	for i, p := range fn.Params {
		f.Env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.Env[p] = bind[i]
	}
	st.Frames = append(st.Frames, f)
	e.Funcs[fn] = true
}

// Pos describes where a state is.
func (s *State) Pos(fset *token.FileSet) string {
	for i := len(s.Frames) - 1; i >= 0; i-- {
		f := s.Frames[i]
		for pc := f.PC; pc >= 0; pc-- {
			if pc < len(f.Blk.Instrs) {
				if p := f.Blk.Instrs[pc].Pos(); p.IsValid() {
					return fset.Position(p).String() + " (" + f.Fn.String() + ")"
				}
			}
		}
		if f.Fn.Pos().IsValid() {
			return fset.Position(f.Fn.Pos()).String() + " (" + f.Fn.String() + ")"
		}
	}
	return "?"
}

// Run explores st until every path has returned, stopped or reached a loop.
func (e *Engine) Run(st *State) []*Outcome {
	var outs []*Outcome
	work := []*State{st}
	dead := map[*unrollRec]bool{}
	cut := map[*unrollRec]bool{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		skip := false
		for _, r := range s.anc {
			if dead[r] {
				skip = true
			}
		}
		if skip {
			continue
		}
		o, forks := e.runPath(s)
		if len(forks) > 1 {
			cutNow := false
			for _, r := range s.anc {
				if r.body != nil && r.depth < len(s.Frames) && r.body[s.Frames[r.depth].Blk] && !dead[r] {
					if r.forks++; r.forks > maxUnrollForks {
						o, cutNow = &Outcome{Kind: oNeedCut, St: s, rec: r}, true
						break
					}
				}
			}
			if cutNow {
				forks = nil
			}
		}
		work = append(work, forks...)
		if o != nil {
			if o.Kind == oNeedCut {
				if !dead[o.rec] {
					dead[o.rec] = true
					if !cut[o.rec] {
						cut[o.rec] = true
						outs = append(outs, &Outcome{Kind: OCut, St: o.rec.snap})
					}
				}
			} else {
				outs = append(outs, o)
			}
			e.Paths++
			if len(outs) > e.MaxPaths {
				return append(outs, &Outcome{Kind: OUnsupported, St: s, Msg: "too many paths"})
			}
		}
	}
	// Drop what was explored past a loop that turned out to need abstraction.
	var res []*Outcome
	for _, o := range outs {
		bad := false
		for _, r := range o.St.anc {
			if dead[r] {
				bad = true
			}
		}
		if !bad {
			res = append(res, o)
		}
	}
	return res
}

// runPath runs until the path stops (outcome) or splits (forks).
func (e *Engine) runPath(st *State) (out *Outcome, forks []*State) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *forkReq:
				for _, v := range []bool{false, true} {
					n := st.Clone()
					if n.Facts.Assume(x.cond, v) {
						forks = append(forks, n)
					}
				}
				out = nil
			case *mismatch:
				if x.extra {
					// The model stopped at a loop here: so does this path.
					for i := len(st.anc) - 1; i >= 0; i-- {
						r := st.anc[i]
						if len(r.snap.Events) == len(st.Oracle) && r.depth < len(st.Frames) && r.body[st.Frames[r.depth].Blk] {
							out = &Outcome{Kind: oNeedCut, St: st, rec: r}
							return
						}
					}
				}
				out = &Outcome{Kind: OMismatch, St: st, Msg: x.msg}
			case unsupported:
				out = &Outcome{Kind: OUnsupported, St: st, Msg: x.Error()}
			default:
				panic(r)
			}
		}
	}()
	e.cur = st
	for {
		if st.Facts.Bot {
			return nil, nil
		}
		st.steps++
		e.Instrs++
		if e.Instrs&1023 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
			e.TimedOut = true
		}
		if e.TimedOut {
			return &Outcome{Kind: OUnsupported, St: st, Msg: "time budget used up"}, nil
		}
		if st.steps > e.MaxSteps {
			return &Outcome{Kind: OUnsupported, St: st, Msg: "too many steps"}, nil
		}
		f := st.top()
		in := f.Blk.Instrs[f.PC]
		o, fk := e.step(st, f, in)
		if o != nil || fk != nil {
			return o, fk
		}
	}
}

// enter moves the top frame to block b, evaluating its phis.
func (e *Engine) enter(st *State, b *ssa.BasicBlock) *Outcome {
	f := st.top()
	prev := f.Blk
	edge := -1
	for i, p := range b.Preds {
		if p == prev {
			edge = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	pc := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pc++
		phis = append(phis, phi)
		vals = append(vals, e.val(st, f, phi.Edges[edge]))
	}
	for i, phi := range phis {
		f.Env[phi] = vals[i]
	}
	f.Blk, f.PC = b, pc
	depth := len(st.Frames) - 1
	for _, l := range e.active {
		if l.bodyOnly && l.depth == depth && l.body[prev] && !l.body[b] {
			return &Outcome{Kind: OExit, St: st}
		}
	}
	body := e.loopsOf(f.Fn).body[b]
	if body == nil {
		return nil
	}
	if body[prev] {
		for _, l := range e.active {
			if l.depth == depth && l.blk == b {
				return &Outcome{Kind: OBack, St: st}
			}
		}
		if r := f.unroll[b.Index]; r != nil {
			f.iters[b.Index]++
			if f.iters[b.Index] > maxUnroll {
				return &Outcome{Kind: oNeedCut, St: st, rec: enclosing(st, r)}
			}
		}
		return nil
	}
	// Entering a loop.
	canUnroll := false
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		_ = iff
		if body[b.Succs[0]] != body[b.Succs[1]] {
			canUnroll = true
		}
	}
	if !canUnroll {
		if r := enclosing(st, nil); r != nil {
			return &Outcome{Kind: oNeedCut, St: st, rec: r}
		}
		return &Outcome{Kind: OCut, St: st}
	}
	rec := &unrollRec{snap: st.Clone(), depth: depth, blk: b.Index, body: body}
	if f.unroll == nil {
		f.unroll = map[int]*unrollRec{}
	}
	if f.iters == nil {
		f.iters = map[int]int{}
	}
	f.iters[b.Index] = 0
	f.unroll[b.Index] = rec
	st.anc = append(st.anc, rec)
	return nil
}

// enclosing is the outermost unrolled loop a state is in, r by default: a loop
// that contains one to be abstracted is abstracted as well.
func enclosing(st *State, r *unrollRec) *unrollRec {
	for _, a := range st.anc {
		if a.depth < len(st.Frames) && a.body[st.Frames[a.depth].Blk] && st.Frames[a.depth].unroll[a.blk] == a {
			return a
		}
	}
	return r
}

func (e *Engine) isActive(st *State, b *ssa.BasicBlock) bool {
	depth := len(st.Frames) - 1
	for _, l := range e.active {
		if l.depth == depth && l.blk == b {
			return true
		}
	}
	return false
}

func (e *Engine) onWrite(k Key, t types.Type) {
	b := birthOf(TermByID(k.Obj))
	for _, l := range e.active {
		if b < l.birth && l.within(e.cur) {
			l.addMod(k, t)
		}
	}
}

func (e *Engine) val(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return Ptr{Obj: Sym(SOpaque, "global:"+x.String())}
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Sym: Sym(SOpaque, "builtin:"+x.Name())}
	}
	r, ok := f.Env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s (%T) in %s", v.Name(), v, f.Fn)))
	}
	return r
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ZeroValue(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return constStr(constant.StringVal(c.Value))
	case constant.Int:
		so := sortOf(t)
		if so.W == 0 {
			return mk(OConst, SOpaque, 0, "num:"+c.Value.ExactString())
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return ConstI(so, i)
		}
		u, _ := constant.Uint64Val(c.Value)
		return Const(so, u)
	}
	return mk(OConst, SOpaque, 0, "num:"+c.Value.ExactString())
}

func (e *Engine) step(st *State, f *Frame, in ssa.Instruction) (*Outcome, []*State) {
	V := func(v ssa.Value) Value { return e.val(st, f, v) }
	T := func(v ssa.Value) *Term {
		t, ok := V(v).(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("scalar expected for %s in %s", v, f.Fn)))
		}
		return t
	}
	set := func(r ssa.Value, v Value) {
		f.Env[r] = v
		f.PC++
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.PC++
	case *ssa.Alloc:
		obj := NewObj(x.Comment)
		set(x, Ptr{Obj: obj})
	case *ssa.BinOp:
		if e.stringOrder(st, f, x) {
			return nil, nil
		}
		set(x, e.binop(st, x.Op, V(x.X), V(x.Y), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := V(x.X).(Ptr)
			if g, ok := x.X.(*ssa.Global); ok && e.Globals != nil {
				_ = g
			}
			set(x, st.Mem.Load(st.Facts, p, x.Type()))
		case token.NOT:
			set(x, Not(T(x.X)))
		case token.SUB:
			t := T(x.X)
			if t.W == 0 {
				set(x, App(SOpaque, "neg", t))
			} else {
				set(x, Sub(Const(t.Sort(), 0), t))
			}
		case token.XOR:
			t := T(x.X)
			set(x, Xor(t, Const(t.Sort(), mask(t.W))))
		default:
			panic(unsupported("unary " + x.Op.String()))
		}
	case *ssa.Store:
		p := V(x.Addr).(Ptr)
		st.Mem.Store(p, x.Val.Type(), V(x.Val), e.onWrite)
		f.PC++
	case *ssa.FieldAddr:
		p := V(x.X).(Ptr)
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(x, p.sub(Step{Field: s.Field(x.Field).Name()}))
	case *ssa.Field:
		set(x, V(x.X).(StructV).F[x.Field])
	case *ssa.IndexAddr:
		i := T(x.Index)
		i = Conv(i, SInt)
		switch b := V(x.X).(type) {
		case SliceV:
			if !e.inBounds(st, i, b.Len) {
				return &Outcome{Kind: OPanic, St: st, Msg: "index out of range"}, nil
			}
			set(x, b.at(Add(b.Off, i)))
		case Ptr:
			set(x, b.sub(Step{Idx: i}))
		default:
			panic(unsupported("indexed value"))
		}
	case *ssa.Index:
		i := Conv(T(x.Index), SInt)
		switch b := V(x.X).(type) {
		case StrV:
			if !e.inBounds(st, i, b.Len) {
				return &Outcome{Kind: OPanic, St: st, Msg: "index out of range"}, nil
			}
			set(x, byteAt(b, i))
		case StructV:
			if !i.IsConst() {
				panic(unsupported("array index"))
			}
			set(x, b.F[i.SVal()])
		default:
			panic(unsupported("index"))
		}
	case *ssa.Lookup:
		if s, ok := V(x.X).(StrV); ok {
			i := Conv(T(x.Index), SInt)
			if !e.inBounds(st, i, s.Len) {
				return &Outcome{Kind: OPanic, St: st, Msg: "index out of range"}, nil
			}
			set(x, byteAt(s, i))
			break
		}
		set(x, e.mapLookup(st, valTerm(V(x.X)), valTerm(V(x.Index)), x))
	case *ssa.MapUpdate:
		mt := valTerm(V(x.Map))
		p := Ptr{Obj: mt, Path: []Step{{Field: "map"}, {Idx: valTerm(V(x.Key))}}}
		st.Mem.Store(p, x.Value.Type(), V(x.Value), e.onWrite)
		f.PC++
	case *ssa.MakeMap:
		set(x, NewObj("map"))
	case *ssa.MakeSlice:
		n := Conv(T(x.Len), SInt)
		st.Facts.Assume(Lt(n, Int(0)), false)
		obj := NewObj("make")
		set(x, SliceV{Arr: obj, Off: Int(0), Len: n, Cap: Conv(T(x.Cap), SInt)})
	case *ssa.MakeClosure:
		fv := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.Bind = append(fv.Bind, V(b))
		}
		set(x, fv)
	case *ssa.MakeInterface:
		set(x, IfaceV{Dyn: x.X.Type(), Val: V(x.X)})
	case *ssa.ChangeInterface:
		set(x, V(x.X))
	case *ssa.ChangeType:
		set(x, V(x.X))
	case *ssa.Convert:
		set(x, e.convert(st, V(x.X), x.X.Type(), x.Type()))
	case *ssa.TypeAssert:
		set(x, e.typeAssert(st, V(x.X).(IfaceV), x))
	case *ssa.Extract:
		set(x, V(x.Tuple).(TupleV)[x.Index])
	case *ssa.Slice:
		set(x, e.slice(st, f, x))
	case *ssa.Range:
		it := NewObj("range")
		f.Env[x] = it
		st.Mem.Store(Ptr{Obj: it, Path: []Step{{Field: "pos"}}}, types.Typ[types.Int], Int(0), e.onWrite)
		f.PC++
	case *ssa.Next:
		set(x, e.next(st, f, x))
	case *ssa.Phi:
		f.PC++ // evaluated on entry
	case *ssa.Call:
		return e.call(st, f, x)
	case *ssa.Defer:
		d := deferred{common: &x.Call}
		if !x.Call.IsInvoke() {
			d.fn = V(x.Call.Value)
		} else {
			d.fn = V(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, V(a))
		}
		f.Defers = append(f.Defers, d)
		f.PC++
	case *ssa.RunDefers:
		if len(f.Defers) == 0 {
			f.PC++
			break
		}
		d := f.Defers[len(f.Defers)-1]
		f.Defers = f.Defers[:len(f.Defers)-1]
		name := "defer"
		var rt types.Type
		if c := d.common.StaticCallee(); c != nil {
			if len(c.Blocks) > 0 && e.Inline(c) {
				if _, ok := e.Opaque[c]; !ok && len(st.Frames) < 60 {
					var bind []Value
					if fv, ok := d.fn.(FuncV); ok {
						bind = fv.Bind
					}
					e.push(st, c, d.args, bind, nil)
					st.top().onReturn = func(*State, []Value) {} // then the next one
					return nil, nil
				}
			}
			// The same as a call made here.
			name = c.String()
			switch r := c.Signature.Results(); r.Len() {
			case 0:
				rt = types.NewTuple()
			case 1:
				rt = r.At(0).Type()
			default:
				rt = r
			}
		}
		e.event(st, name, d.args, rt, in.Pos())
	case *ssa.Jump:
		return e.enter(st, f.Blk.Succs[0]), nil
	case *ssa.If:
		c := T(x.Cond)
		v, ok := st.Facts.Decide(c)
		if ok {
			if v {
				return e.enter(st, f.Blk.Succs[0]), nil
			}
			return e.enter(st, f.Blk.Succs[1]), nil
		}
		if r := f.unroll[f.Blk.Index]; r != nil && !e.isActive(st, f.Blk) {
			if b := e.loopsOf(f.Fn).body[f.Blk]; b != nil && b[f.Blk.Succs[0]] != b[f.Blk.Succs[1]] {
				return &Outcome{Kind: oNeedCut, St: st, rec: enclosing(st, r)}, nil
			}
		}
		return nil, e.fork(st, c)
	case *ssa.Return:
		var res []Value
		for _, r := range x.Results {
			res = append(res, V(r))
		}
		if f.onReturn != nil {
			st.Frames = st.Frames[:len(st.Frames)-1]
			f.onReturn(st, res)
			return nil, nil
		}
		if len(st.Frames) == 1 {
			return &Outcome{Kind: OReturn, St: st, Res: res}, nil
		}
		st.Frames = st.Frames[:len(st.Frames)-1]
		c := st.top()
		var rv Value
		switch len(res) {
		case 0:
			rv = TupleV{}
		case 1:
			rv = res[0]
		default:
			rv = TupleV(res)
		}
		if sv, ok := f.Site.(*ssa.Call); ok {
			c.Env[sv] = rv
		}
		c.PC++
	case *ssa.Panic:
		return &Outcome{Kind: OPanic, St: st, Msg: "panic"}, nil
	default:
		panic(unsupported(fmt.Sprintf("%T in %s", in, f.Fn)))
	}
	return nil, nil
}

// fork splits on an undecided condition; the If is decided when re-executed.
func (e *Engine) fork(st *State, c *Term) []*State {
	var out []*State
	for _, v := range []bool{false, true} {
		n := st
		if !v {
			n = st.Clone()
		}
		if n.Facts.Assume(c, v) {
			out = append(out, n)
		}
	}
	if len(out) == 0 {
		return []*State{}
	}
	return out
}

// inBounds notes that a successful access is in range.
func (e *Engine) inBounds(st *State, i, n *Term) bool {
	if v, ok := st.Facts.Decide(Lt(i, Int(0))); ok && v {
		return false
	}
	if v, ok := st.Facts.Decide(Lt(i, n)); ok && !v {
		return false
	}
	st.Facts.Assume(Lt(i, Int(0)), false)
	st.Facts.Assume(Lt(i, n), true)
	return true
}

func (e *Engine) binop(st *State, op token.Token, a, b Value, at, rt types.Type) Value {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 && x.W > 0 && y.W > 0 {
		switch op {
		case token.ADD:
			return Add(x, y)
		case token.SUB:
			return Sub(x, y)
		case token.MUL:
			return Mul(x, y)
		case token.QUO:
			return e.div(st, x, y)
		case token.REM:
			return e.rem(st, x, y)
		case token.AND:
			return And(x, y)
		case token.OR:
			return Or(x, y)
		case token.XOR:
			return Xor(x, y)
		case token.AND_NOT:
			return AndNot(x, y)
		case token.SHL, token.SHR:
			y = e.shiftAmount(st, y)
			if op == token.SHL {
				return Shl(x, y)
			}
			h := Shr(x, y)
			if y.IsConst() {
				st.Facts.halves(x, h, int(y.SVal()))
			}
			return h
		case token.EQL:
			return Eq(x, y)
		case token.NEQ:
			return Not(Eq(x, y))
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Lt(y, x)
		case token.GEQ:
			return Le(y, x)
		}
	}
	switch op {
	case token.EQL:
		return e.eqVal(st, a, b)
	case token.NEQ:
		return Not(e.eqVal(st, a, b))
	}
	if sa, ok := a.(StrV); ok {
		sb := b.(StrV)
		switch op {
		case token.ADD:
			return catStr(sa, sb)
		case token.LSS:
			return App(SBool, "strlt", strTerm(sa), strTerm(sb))
		case token.GTR:
			return App(SBool, "strlt", strTerm(sb), strTerm(sa))
		case token.LEQ:
			return Not(App(SBool, "strlt", strTerm(sb), strTerm(sa)))
		case token.GEQ:
			return Not(App(SBool, "strlt", strTerm(sa), strTerm(sb)))
		}
	}
	so := sortOf(rt)
	return App(so, "op"+op.String(), valTerm(a), valTerm(b))
}

// stringOrder compares strings byte by byte.
func (e *Engine) stringOrder(st *State, f *Frame, x *ssa.BinOp) bool {
	if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return false
	}
	swap, neg := false, false
	switch x.Op {
	case token.LSS:
	case token.GTR:
		swap = true
	case token.LEQ:
		swap, neg = true, true
	case token.GEQ:
		neg = true
	default:
		return false
	}
	fn := e.lib("string.less")
	if fn == nil {
		return false
	}
	a, b := e.val(st, f, x.X), e.val(st, f, x.Y)
	if swap {
		a, b = b, a
	}
	e.push(st, fn, []Value{a, b}, nil, nil)
	st.top().onReturn = func(st *State, res []Value) {
		r := res[0].(*Term)
		if neg {
			r = Not(r)
		}
		c := st.top()
		c.Env[x] = r
		c.PC++
	}
	return true
}

// lib is the loop an operation stands for, when those are to be used.
func (e *Engine) lib(name string) *ssa.Function {
	fn := e.Lib[name]
	if fn == nil {
		return nil
	}
	e.SawOps = true
	if !e.LoopOps {
		return nil
	}
	return fn
}

// div and rem by powers of two of non-negative values are shifts and masks.
func (e *Engine) div(st *State, x, y *Term) *Term {
	if y.IsConst() && y.K != 0 && y.K&(y.K-1) == 0 && st.Facts.Rng(x).Lo >= 0 {
		h := Shr(x, Const(y.Sort(), uint64(log2(y.K))))
		st.Facts.halves(x, h, log2(y.K))
		return h
	}
	return Div(x, y)
}
func (e *Engine) rem(st *State, x, y *Term) *Term {
	if y.IsConst() && y.K != 0 && y.K&(y.K-1) == 0 && st.Facts.Rng(x).Lo >= 0 {
		return And(x, Const(x.Sort(), y.K-1))
	}
	if !y.IsConst() && st.Facts.Rng(y).Lo >= 0 && st.Facts.Rng(x).Lo >= 0 {
		if lt, ok := st.Facts.Decide(Lt(x, y)); ok && lt {
			return x
		}
		// The successor of something below the divisor wraps around.
		h := Sub(x, Const(x.Sort(), 1))
		if lt, ok := st.Facts.Decide(Lt(h, y)); ok && lt {
			if ask(st.Facts, Eq(x, y)) {
				return Const(x.Sort(), 0)
			}
			return x
		}
	}
	return Rem(x, y)
}
func log2(k uint64) int {
	n := 0
	for k > 1 {
		k >>= 1
		n++
	}
	return n
}

// shiftAmount splits a shift amount with few possible values.
func (e *Engine) shiftAmount(st *State, y *Term) *Term {
	if y.IsConst() {
		return y
	}
	r := st.Facts.Rng(y)
	if r.IsConst() {
		return ConstI(y.Sort(), r.Lo)
	}
	bs := st.Facts.bits(y)
	unk := []int{}
	for i, b := range bs {
		if !b.isConst() {
			unk = append(unk, i)
		}
	}
	if len(unk) <= e.ForkBits {
		bit := unk[0]
		panic(&forkReq{Eq(And(y, Const(y.Sort(), 1<<bit)), Const(y.Sort(), 0))})
	}
	return y
}

func catStr(a, b StrV) StrV {
	x, y := strTerm(a), strTerm(b)
	if s, ok := x.StrVal(); ok {
		if s == "" {
			return b
		}
		if t, ok := y.StrVal(); ok {
			return constStr(s + t)
		}
	}
	if s, ok := y.StrVal(); ok && s == "" {
		return a
	}
	if y.Op == OApp && y.S == "cat" {
		l := catStr(a, strOfTerm(y.Args[0]))
		return catStr(l, strOfTerm(y.Args[1]))
	}
	return StrV{Arr: App(SOpaque, "cat", x, y), Off: Int(0), Len: Add(a.Len, b.Len)}
}

func isNil(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.Obj == NilObj
	case SliceV:
		return x.Arr == NilObj
	case IfaceV:
		return x.Dyn == nil && x.Sym == NilObj
	case FuncV:
		return x.Fn == nil && x.Sym == NilObj
	case *Term:
		return x == NilObj
	}
	return false
}

func (e *Engine) eqVal(st *State, a, b Value) *Term {
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		if isNil(a) {
			return Bool(true)
		}
		switch x := a.(type) {
		case Ptr:
			if isFresh(x.Obj) || len(x.Path) > 0 || strings.HasPrefix(x.Obj.S, "global:") {
				return Bool(false)
			}
			return Eq(x.Obj, NilObj)
		case SliceV:
			if isFresh(x.Arr) {
				return Bool(false)
			}
			return Eq(x.Arr, NilObj)
		case IfaceV:
			if x.Dyn != nil {
				return Bool(false)
			}
			return Eq(x.Sym, NilObj)
		case FuncV:
			if x.Fn != nil {
				return Bool(false)
			}
			return Eq(x.Sym, NilObj)
		}
	}
	if sa, ok := a.(StructV); ok {
		sb := b.(StructV)
		r := Bool(true)
		for i := range sa.F {
			c := e.eqVal(st, sa.F[i], sb.F[i])
			if v, ok := st.Facts.Decide(c); ok {
				if !v {
					return Bool(false)
				}
				continue
			}
			if r.IsConst() {
				r = c
			} else {
				panic(&forkReq{c})
			}
		}
		return r
	}
	x, y := valTerm(a), valTerm(b)
	if pa, ok := a.(Ptr); ok {
		pb := b.(Ptr)
		if pa.Obj != pb.Obj && (isFresh(pa.Obj) || isFresh(pb.Obj)) {
			return Bool(false)
		}
	}
	return Eq(x, y)
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	ft, tt := from.Underlying(), to.Underlying()
	switch x := v.(type) {
	case *Term:
		so := sortOf(to)
		if x.W > 0 && so.W > 0 {
			return Conv(x, so)
		}
		if isString(to) && x.IsInt() {
			return strOfTerm(App(SOpaque, "runestr", Conv(x, Sort{32, true, false})))
		}
		return App(so, "conv:"+to.String(), x)
	case StrV:
		if isString(to) {
			return x
		}
		if sl, ok := tt.(*types.Slice); ok {
			if sortOf(sl.Elem()).W == 8 {
				obj := NewObj("bytes")
				o := objTab[obj.ID]
				o.defKind, o.defStr = 's', x
				return SliceV{Arr: obj, Off: Int(0), Len: x.Len, Cap: x.Len}
			}
			arr := App(SOpaque, "runes", strTerm(x))
			return SliceV{Arr: arr, Off: Int(0), Len: MarkNonNeg(App(SInt, "runecount", strTerm(x))), Cap: MarkNonNeg(App(SInt, "runecap", strTerm(x)))}
		}
	case SliceV:
		if isString(to) {
			sl := ft.(*types.Slice)
			return e.snapshot(st, x, sl.Elem())
		}
		return x
	}
	return v
}

// snapshot is the string made of a byte (or rune) slice's present content.
func (e *Engine) snapshot(st *State, s SliceV, elem types.Type) StrV {
	f := st.Facts
	s = s.flat()
	n := s.Len
	if r := f.Rng(n); r.IsConst() && r.Lo == 0 {
		return constStr("")
	}
	l := st.Mem.log(Key{s.Arr.ID, "[]"})
	if l.Kind == 's' && len(l.Ent) == 0 {
		return StrV{Arr: l.Str.Arr, Off: Add(l.Str.Off, s.Off), Len: n}
	}
	if l.Kind == 's' && sortOf(elem).W == 8 && f.Equal(s.Off, Int(0)) {
		// Strings added to a string.
		str, at, good := l.Str, l.Str.Len, true
		for _, en := range l.Ent {
			if en.Src == nil || en.Src.Kind != 's' || len(en.Src.Ent) > 0 || !f.Equal(en.Lo, at) {
				good = false
				break
			}
			d := Sub(en.Hi, en.Lo)
			off := Add(en.Src.Str.Off, Add(en.Lo, en.Delta))
			if f.Equal(off, en.Src.Str.Off) {
				off = en.Src.Str.Off
			}
			if f.Equal(d, en.Src.Str.Len) {
				d = en.Src.Str.Len
			}
			str = catStr(str, StrV{Arr: en.Src.Str.Arr, Off: off, Len: d})
			at = Add(at, d)
		}
		if good && f.Equal(n, at) {
			return str
		}
	}
	if l.Kind == 'i' && sortOf(elem).W == 32 && f.Equal(s.Off, Int(0)) {
		// Characters added to those of a string.
		if str, ok := vrunes[l.Obj]; ok {
			at := MarkNonNeg(App(SInt, "runecount", strTerm(str)))
			good := true
			for _, en := range l.Ent {
				if en.Src != nil || len(en.Idx) != 1 || !f.Equal(en.Idx[0], at) {
					good = false
					break
				}
				str = catStr(str, e.convert(st, en.Val, elem, types.Typ[types.String]).(StrV))
				at = Add(at, Int(1))
			}
			if good && f.Equal(n, at) {
				return str
			}
		}
	}
	args := []*Term{NilObj, s.Off, n}
	switch l.Kind {
	case 'i':
		args[0] = App(SOpaque, "content@"+l.Ver, l.Obj)
	case 's':
		args[0] = App(SOpaque, "content-str", l.Str.Arr, l.Str.Off)
	case 'z':
		args[0] = Sym(SOpaque, "content-zero")
	}
	if sortOf(elem).W != 8 {
		args = append(args, Sym(SOpaque, "runes"))
	}
	args = append(args, logTerms(f, l, s.Off, Add(s.Off, n))...)
	t := App(SOpaque, "snap", args...)
	if l.Kind == 'i' && len(l.Ent) == 0 && sortOf(elem).W == 8 {
		snapTab[t] = &snap{log: l, off: s.Off}
	}
	return StrV{Arr: t, Off: Int(0), Len: n}
}

// logTerms flattens the writes of a log that can lie in [lo, hi).
func logTerms(f *Facts, l *Log, lo, hi *Term) []*Term {
	var out []*Term
	for i, e := range l.Ent {
		if e.Src != nil {
			out = append(out, Sym(SOpaque, "range"), e.Lo, e.Hi, e.Delta)
			switch e.Src.Kind {
			case 'i':
				out = append(out, App(SOpaque, "content@"+e.Src.Ver, e.Src.Obj))
			case 's':
				out = append(out, App(SOpaque, "content-str", e.Src.Str.Arr, e.Src.Str.Off))
			default:
				out = append(out, Sym(SOpaque, "content-zero"))
			}
			out = append(out, logTerms(f, e.Src, lo, hi)...)
			continue
		}
		if lo != nil {
			if v, ok := f.Decide(Lt(e.Idx[0], hi)); ok && !v {
				continue
			}
			if v, ok := f.Decide(Lt(e.Idx[0], lo)); ok && v {
				continue
			}
		}
		// overwritten later?
		dead := false
		for _, g := range l.Ent[i+1:] {
			if g.Src == nil && len(g.Idx) == len(e.Idx) {
				all := true
				for j := range g.Idx {
					if !f.Equal(g.Idx[j], e.Idx[j]) {
						all = false
					}
				}
				if all {
					dead = true
				}
			}
		}
		if dead {
			continue
		}
		out = append(out, e.Idx...)
		out = append(out, valTerm(e.Val))
	}
	return out
}

func (e *Engine) typeAssert(st *State, v IfaceV, x *ssa.TypeAssert) Value {
	if v.Dyn != nil {
		ok := types.Identical(v.Dyn, x.AssertedType)
		_, isIface := x.AssertedType.Underlying().(*types.Interface)
		if isIface {
			ok = types.AssignableTo(v.Dyn, x.AssertedType)
		}
		var val Value = v.Val
		if isIface {
			val = v
		}
		if !ok {
			val = ZeroValue(x.AssertedType)
		}
		if x.CommaOk {
			return TupleV{val, Bool(ok)}
		}
		if !ok {
			panic(unsupported("failing type assertion"))
		}
		return val
	}
	val := SymValue("assert:"+x.AssertedType.String(), x.AssertedType, v.Sym)
	if x.CommaOk {
		return TupleV{val, App(SBool, "assertok:"+x.AssertedType.String(), v.Sym)}
	}
	return val
}

func (e *Engine) slice(st *State, f *Frame, x *ssa.Slice) Value {
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return Conv(e.val(st, f, v).(*Term), SInt)
	}
	switch b := e.val(st, f, x.X).(type) {
	case SliceV:
		lo := get(x.Low, Int(0))
		hi := get(x.High, b.Len)
		st.Facts.Assume(Lt(hi, lo), false)
		st.Facts.Assume(Lt(lo, Int(0)), false)
		if b.Arr == NilObj {
			return b
		}
		mx := get(x.Max, b.Cap)
		return SliceV{Arr: b.Arr, Pre: b.Pre, Off: Add(b.Off, lo), Len: Sub(hi, lo), Cap: Sub(mx, lo)}
	case StrV:
		lo := get(x.Low, Int(0))
		hi := get(x.High, b.Len)
		st.Facts.Assume(Lt(hi, lo), false)
		st.Facts.Assume(Lt(lo, Int(0)), false)
		st.Facts.Assume(Lt(b.Len, hi), false)
		return StrV{Arr: b.Arr, Off: Add(b.Off, lo), Len: Sub(hi, lo)}
	case Ptr:
		arr := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		lo := get(x.Low, Int(0))
		hi := get(x.High, Int(arr.Len()))
		if len(b.Path) != 0 {
			panic(unsupported("slice of an array inside a struct"))
		}
		return SliceV{Arr: b.Obj, Off: lo, Len: Sub(hi, lo), Cap: Sub(Int(arr.Len()), lo)}
	}
	panic(unsupported("slice expression"))
}

func (e *Engine) mapLookup(st *State, m, k *Term, x *ssa.Lookup) Value {
	mt := x.X.Type().Underlying().(*types.Map)
	key := Key{m.ID, ".map[]"}
	l := st.Mem.log(key)
	// A constant table: decide when every key is decided.
	var val Value
	var ok *Term
	if l.Kind == 'z' && len(l.Ent) <= 64 {
		allConst := true
		last := map[*Term]Value{}
		var keys []*Term
		for _, en := range l.Ent {
			kc := en.Idx[0]
			if !kc.IsConst() {
				allConst = false
				break
			}
			if _, dup := last[kc]; !dup {
				keys = append(keys, kc)
			}
			last[kc] = en.Val
		}
		if allConst {
			sort.Slice(keys, func(i, j int) bool {
				if keys[i].SVal() != keys[j].SVal() {
					return keys[i].SVal() < keys[j].SVal()
				}
				return keys[i].S < keys[j].S
			})
			if k.IsConst() || e.ForkMaps {
				val, ok = ZeroValue(mt.Elem()), Bool(false)
				for _, kc := range keys {
					if kc == k || !k.IsConst() && ask(st.Facts, Eq(k, kc)) {
						val, ok = last[kc], Bool(true)
						break
					}
				}
			} else {
				e.SawMap = true
				var args []*Term
				for _, kc := range keys {
					args = append(args, kc, valTerm(last[kc]))
				}
				tab := App(SOpaque, "table", args...)
				val = SymValue("maplookup", mt.Elem(), tab, k)
				ok = App(SBool, "mapok", tab, k)
				if !x.CommaOk {
					return SymValue("maplookup0", mt.Elem(), tab, k)
				}
			}
		}
	}
	if val == nil {
		// Uninterpreted in the key; the table is identified by its writes.
		args := append([]*Term{k, m}, logTerms(st.Facts, l, nil, nil)...)
		tab := App(SOpaque, "table", args[1:]...)
		val = SymValue("maplookup", mt.Elem(), tab, k)
		ok = App(SBool, "mapok", tab, k)
		if !x.CommaOk {
			return SymValue("maplookup0", mt.Elem(), tab, k)
		}
	}
	if x.CommaOk {
		return TupleV{val, ok}
	}
	return val
}

// positionUsed tells whether the position of a character matters.
func positionUsed(x *ssa.Next) bool {
	for _, r := range *x.Referrers() {
		if ex, ok := r.(*ssa.Extract); !ok || ex.Index == 1 && len(*ex.Referrers()) > 0 {
			return true
		}
	}
	return false
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) Value {
	it := f.Env[x.Iter].(*Term)
	rng := x.Iter.(*ssa.Range)
	p := Ptr{Obj: it, Path: []Step{{Field: "pos"}}}
	pos := st.Mem.Load(st.Facts, p, types.Typ[types.Int]).(*Term)
	if !x.IsString {
		m := valTerm(e.val(st, f, rng.X))
		mt := rng.X.Type().Underlying().(*types.Map)
		st.Mem.Store(p, types.Typ[types.Int], Add(pos, Int(1)), e.onWrite)
		return TupleV{App(SBool, "mapnext", m, pos), SymValue("mapkey", mt.Key(), m, pos), SymValue("mapval", mt.Elem(), m, pos)}
	}
	s := e.val(st, f, rng.X).(StrV)
	id := strTerm(s)
	if !positionUsed(x) {
		// The characters in turn, as of []rune(s).
		n := MarkNonNeg(App(SInt, "runecount", id))
		rt := types.Typ[types.Int32]
		r := st.Mem.Load(st.Facts, Ptr{Obj: App(SOpaque, "runes", id), Path: []Step{{Idx: pos}}}, rt)
		st.Mem.Store(p, types.Typ[types.Int], Add(pos, Int(1)), e.onWrite)
		return TupleV{Lt(pos, n), pos, r}
	}
	ok := Lt(pos, s.Len)
	r := App(Sort{32, true, false}, "rune", id, pos)
	st.Mem.Store(p, types.Typ[types.Int], App(SInt, "runenext", id, pos), e.onWrite)
	return TupleV{ok, pos, r}
}
