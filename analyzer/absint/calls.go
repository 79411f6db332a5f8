package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mismatch stops a path whose interaction with the outside differs from the
// model's.
type mismatch struct {
	msg   string
	extra bool // an event past the last of the model's
}

func calleeName(fn *ssa.Function) string { return fn.String() }

// Interface methods that are observers: same receiver and arguments, same
// result.
var pureInvoke = map[string]bool{
	"SomeGuide.Size": true, "SomeGuide.Root": true, "SomeGuide.Child": true, "SomeGuide.Sibling": true,
	"SomeGuide.TotalSize": true, "SomeGuide.FileSize": true, "error.Error": true,
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "bytes": true, "math": true, "math/bits": true, "unicode": true, "unicode/utf8": true, "errors": true, "slices": true, "cmp": true}

func (e *Engine) call(st *State, f *Frame, x *ssa.Call) (*Outcome, []*State) {
	c := &x.Call
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(st, f, a))
	}
	ret := func(v Value) (*Outcome, []*State) {
		f.Env[x] = v
		f.PC++
		return nil, nil
	}
	if c.IsInvoke() {
		recv := e.val(st, f, c.Value).(IfaceV)
		if recv.Dyn != nil {
			fn := f.Fn.Prog.LookupMethod(recv.Dyn, c.Method.Pkg(), c.Method.Name())
			if fn != nil && len(fn.Blocks) > 0 && e.Inline(fn) {
				return e.invokeFn(st, f, x, fn, append([]Value{recv.Val}, args...), nil)
			}
		}
		iname := "iface"
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
			iname = n.Obj().Name()
		}
		name := iname + "." + c.Method.Name()
		all := append([]Value{recv}, args...)
		if pureInvoke[name] {
			return ret(e.pure(st, name, all, x.Type()))
		}
		return ret(e.event(st, "invoke "+name, all, x.Type(), x.Pos()))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if fn := e.rangeOp(st, b.Name(), c, args); fn != nil {
			e.push(st, fn, args, nil, x)
			return nil, nil
		}
		return ret(e.builtin(st, f, b.Name(), args, c, x))
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			bind = e.val(st, f, mc).(FuncV).Bind
		}
		return e.invokeFn(st, f, x, fn, args, bind)
	}
	fv, ok := e.val(st, f, c.Value).(FuncV)
	if !ok {
		panic(unsupported("dynamic call"))
	}
	if fv.Fn != nil {
		return e.invokeFn(st, f, x, fv.Fn, args, fv.Bind)
	}
	// A function supplied by the caller: assumed to be a function of its
	// arguments.
	return ret(e.pure(st, "callback", append([]Value{fv}, args...), x.Type()))
}

// rangeOp is the loop a copy or an append of a whole slice stands for.
func (e *Engine) rangeOp(st *State, name string, c *ssa.CallCommon, args []Value) *ssa.Function {
	if name != "copy" && name != "append" {
		return nil
	}
	d, ok := args[0].(SliceV)
	if !ok {
		return nil
	}
	key := name + " " + types.TypeString(c.Args[0].Type().Underlying().(*types.Slice).Elem().Underlying(), nil)
	switch s := args[1].(type) {
	case StrV:
		if s.Len.IsConst() {
			return nil
		}
		key += " string"
	case SliceV:
		if s.Len.IsConst() {
			return nil
		}
		// A copy within one array is not the loop.
		if d.flat().Arr == s.flat().Arr && d.Arr != NilObj && !(name == "copy" && ask(st.Facts, Le(d.Off, s.Off))) {
			return nil
		}
	default:
		return nil
	}
	return e.lib(key)
}

func (e *Engine) invokeFn(st *State, f *Frame, x *ssa.Call, fn *ssa.Function, args, bind []Value) (*Outcome, []*State) {
	if name, ok := e.Opaque[fn]; ok {
		v := e.recEvent(st, name, fn, args, x.Type(), x.Pos())
		f.Env[x] = v
		f.PC++
		return nil, nil
	}
	if len(fn.Blocks) > 0 && e.Inline(fn) {
		for _, fr := range st.Frames {
			if fr.Fn == fn {
				panic(unsupported("recursive call of " + fn.String()))
			}
		}
		if len(st.Frames) > 60 {
			panic(unsupported("call depth"))
		}
		e.push(st, fn, args, bind, x)
		return nil, nil
	}
	if lf := e.lib(fn.String()); lf != nil {
		e.push(st, lf, args, nil, x)
		return nil, nil
	}
	v, out := e.model(st, fn, args, x)
	if out != nil {
		return out, nil
	}
	f.Env[x] = v
	f.PC++
	return nil, nil
}

// deep is a term for a value including the memory it refers to.
func (e *Engine) deep(st *State, v Value, t types.Type) *Term {
	switch x := v.(type) {
	case SliceV:
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return valTerm(v)
		}
		if sortOf(sl.Elem()).W == 8 {
			return strTerm(e.snapshot(st, x, sl.Elem()))
		}
		if x.Len.IsConst() && x.Len.SVal() <= 16 {
			var as []*Term
			for i := int64(0); i < x.Len.SVal(); i++ {
				el := st.Mem.Load(st.Facts, x.at(Add(x.Off, Int(i))), sl.Elem())
				as = append(as, e.deep(st, el, sl.Elem()))
			}
			return App(SOpaque, "list", as...)
		}
		if len(leaves(sl.Elem())) == 1 {
			return strTerm(e.snapshot(st, x, sl.Elem()))
		}
		return valTerm(v)
	case IfaceV:
		if x.Dyn != nil {
			return App(SOpaque, "iface:"+types.TypeString(x.Dyn, nil), e.deep(st, x.Val, x.Dyn))
		}
	}
	return valTerm(v)
}

func (e *Engine) pure(st *State, name string, args []Value, rt types.Type) Value {
	var ts []*Term
	for _, a := range args {
		switch x := a.(type) {
		case SliceV:
			// content of byte slices
			ts = append(ts, strTerm(e.snapshot(st, x, types.Typ[types.Uint8])))
		case IfaceV:
			if x.Dyn != nil {
				ts = append(ts, e.deep(st, x, x.Dyn))
			} else {
				ts = append(ts, x.Sym)
			}
		default:
			ts = append(ts, valTerm(a))
		}
	}
	return SymValue(name, rt, ts...)
}

func fmtType(t types.Type) *Term { return Sym(SOpaque, "type:"+types.TypeString(t.Underlying(), nil)) }

// event records an interaction with unanalysed code.
func (e *Engine) event(st *State, name string, args []Value, rt types.Type, pos token.Pos) Value {
	ev := e.match(st, name, args, false, rt, pos)
	return ev.Res
}

func (e *Engine) match(st *State, name string, args []Value, wholeMem bool, rt types.Type, pos token.Pos) Event {
	k := len(st.Events)
	ev := Event{Name: name, Args: args, Mem: st.Mem.Clone(), Pos: pos}
	if st.HasOr {
		if k >= len(st.Oracle) {
			panic(&mismatch{fmt.Sprintf("makes the call %s, which the model does not make here", showEvent(ev)), true})
		}
		o := st.Oracle[k]
		if o.Name != name || len(o.Args) != len(args) {
			panic(&mismatch{msg: fmt.Sprintf("makes the call %s where the model makes %s", showEvent(ev), showEvent(o))})
		}
		why := split(st.Facts, func(g *Facts) string {
			c := newCmp(e, g, st.Mem, o.Mem)
			for i := range args {
				if wholeMem && c.cells(args, o.Args, i) {
					continue
				}
				if why := c.val(args[i], o.Args[i], false); why != "" {
					return fmt.Sprintf("argument %d of %s differs: %s", i, name, why)
				}
			}
			if wholeMem {
				c.only = e.Refs[name]
				if why := c.shared(); why != "" {
					return fmt.Sprintf("memory differs at %s: %s", name, why)
				}
			}
			return ""
		})
		if why != "" {
			panic(&mismatch{msg: why})
		}
		ev.Ver, ev.Res = o.Ver, o.Res
	} else {
		ev.Ver = fmt.Sprintf("ev%d", nextID())
		if rt != nil {
			if tp, ok := rt.(*types.Tuple); !ok || tp.Len() > 0 {
				ev.Res = SymValue(ev.Ver+":"+name, rt)
			} else {
				ev.Res = TupleV{}
			}
		}
	}
	st.Events = append(st.Events, ev)
	return ev
}

func showEvent(ev Event) string {
	var as []string
	for _, a := range ev.Args {
		as = append(as, Show(a))
	}
	return clip(ev.Name + "(" + strings.Join(as, ", ") + ")")
}

// implementations are the analysed methods an interface call can reach.
func (e *Engine) Implementations(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() || e.Methods == nil {
		return nil
	}
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, m := range e.Methods {
		if m.Name() == c.Method.Name() && m.Signature.Recv() != nil {
			t := m.Signature.Recv().Type()
			if types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
				out = append(out, m)
			}
		}
	}
	return out
}

// RefSet lists the fields fn and its analysed callees touch.
func (e *Engine) RefSet(fns ...*ssa.Function) map[string]bool {
	refs := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var all func(t types.Type, depth int)
	all = func(t types.Type, depth int) {
		if s, ok := t.Underlying().(*types.Struct); ok && depth < 4 {
			for i := 0; i < s.NumFields(); i++ {
				refs[s.Field(i).Name()] = true
				all(s.Field(i).Type(), depth+1)
			}
		}
	}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if seen[fn] || len(fn.Blocks) == 0 || !e.Inline(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					refs[x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()] = true
				case *ssa.Store:
					all(x.Val.Type(), 0)
				case *ssa.UnOp:
					if x.Op == token.MUL {
						all(x.Type(), 0)
					}
				case *ssa.MakeInterface:
					// handed to unanalysed code, which may read all of it
					t := x.X.Type()
					for i := 0; i < 3; i++ {
						switch u := t.Underlying().(type) {
						case *types.Pointer:
							t = u.Elem()
						case *types.Slice:
							t = u.Elem()
						}
					}
					all(t, 0)
				case *ssa.MakeClosure:
					walk(x.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						walk(g)
					}
					for _, g := range e.Implementations(c.Common()) {
						walk(g)
					}
				}
			}
		}
	}
	for _, fn := range fns {
		walk(fn)
	}
	return refs
}

// ModSet lists the regions fn and its analysed callees may store to.
func (e *Engine) ModSet(fns ...*ssa.Function) map[string]bool {
	mods := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if seen[fn] || len(fn.Blocks) == 0 || !e.Inline(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					for _, d := range storeDesc(x.Addr, x.Val.Type()) {
						mods[d] = true
					}
				case *ssa.MakeClosure:
					walk(x.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					// Scalars whose address is handed on.
					for _, a := range c.Common().Args {
						pt, ok := a.Type().Underlying().(*types.Pointer)
						if !ok {
							continue
						}
						if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
							continue
						}
						switch a.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr:
							for _, d := range storeDesc(a, pt.Elem()) {
								mods[d] = true
							}
						}
					}
					for _, g := range e.Implementations(c.Common()) {
						walk(g)
					}
					if g := c.Common().StaticCallee(); g != nil {
						walk(g)
						n := g.String()
						if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "container/heap.") {
							for _, a := range c.Common().Args {
								for _, d := range argDesc(a) {
									mods[d] = true
								}
							}
						}
					}
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "copy" {
						for _, d := range argDesc(c.Common().Args[0]) {
							mods[d] = true
						}
					}
				}
			}
		}
	}
	for _, fn := range fns {
		walk(fn)
	}
	return mods
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

func storeDesc(addr ssa.Value, t types.Type) []string {
	if s, ok := t.Underlying().(*types.Struct); ok {
		var out []string
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, typeName(t)+"."+s.Field(i).Name())
		}
		return out
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		return []string{typeName(pt) + "." + pt.Underlying().(*types.Struct).Field(x.Field).Name()}
	case *ssa.IndexAddr:
		return contentDesc(x.X)
	case *ssa.Alloc:
		return nil // memory of this call
	}
	return []string{"*:" + typeName(t)}
}

func elemName(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return typeName(u.Elem())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return typeName(a.Elem())
		}
	case *types.Array:
		return typeName(u.Elem())
	}
	return ""
}

// contentDesc names the elements of the array behind a slice value.
func contentDesc(v ssa.Value) []string {
	switch y := v.(type) {
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
			return []string{"[]" + typeName(pt) + "." + pt.Underlying().(*types.Struct).Field(fa.Field).Name()}
		}
	case *ssa.Slice:
		return contentDesc(y.X)
	case *ssa.Alloc, *ssa.MakeSlice:
		return nil // memory of this call
	case *ssa.Const:
		return nil
	}
	return []string{"[]:" + elemName(v.Type())}
}

func argDesc(v ssa.Value) []string {
	switch y := v.(type) {
	case *ssa.MakeInterface:
		return argDesc(y.X)
	case *ssa.FieldAddr:
		return storeDesc(y, y.Type().Underlying().(*types.Pointer).Elem())
	}
	if sl, ok := v.Type().Underlying().(*types.Slice); ok {
		if s, ok := sl.Elem().Underlying().(*types.Struct); ok {
			var out []string
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, typeName(sl.Elem())+"."+s.Field(i).Name())
			}
			return out
		}
		return contentDesc(v)
	}
	return nil
}

// recEvent treats a call of a recursive function as an interaction: both
// sides must make it with equal arguments and memory, and then see equal
// effects.
func (e *Engine) recEvent(st *State, name string, fn *ssa.Function, args []Value, rt types.Type, pos token.Pos) Value {
	ev := e.match(st, "call "+name, args, true, rt, pos)
	mods := map[string]bool{}
	for _, m := range e.RecMods[name] {
		mods[m] = true
	}
	seen := map[int]bool{}
	for i, a := range args {
		e.havocReach(st, a, fn.Params[i].Type(), mods, fmt.Sprintf("%s/%d", ev.Ver, i), seen)
	}
	return ev.Res
}

func (e *Engine) havocReach(st *State, v Value, t types.Type, mods map[string]bool, ver string, seen map[int]bool) {
	switch x := v.(type) {
	case SliceV:
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || x.Arr == NilObj {
			return
		}
		for _, lf := range leaves(sl.Elem()) {
			if lf.shape == "" && mods["[]:"+typeName(sl.Elem())] || lf.shape != "" && mods[typeName(sl.Elem())+lf.shape] {
				k := Key{x.flat().Arr.ID, "[]" + lf.shape}
				e.onWrite(k, lf.typ)
				st.Mem.logs[k] = &Log{Kind: 'i', Obj: Sym(SOpaque, ver), Ver: ver}
			}
		}
		return
	case StructV:
		if x.T == nil {
			return
		}
		for i := range x.F {
			e.havocReach(st, x.F[i], x.T.Field(i).Type(), mods, ver+"."+x.T.Field(i).Name(), seen)
		}
		return
	case IfaceV:
		if x.Dyn != nil {
			e.havocReach(st, x.Val, x.Dyn, mods, ver, seen)
		}
		return
	}
	p, ok := v.(Ptr)
	if !ok || p.Obj == NilObj {
		return
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	el := pt.Elem()
	s, ok := el.Underlying().(*types.Struct)
	if !ok {
		if mods["*:"+typeName(el)] {
			st.Mem.Store(p, el, SymValue(ver, el), e.onWrite)
		}
		return
	}
	if seen[p.Obj.ID] && len(p.Path) == 0 {
		return
	}
	if len(p.Path) == 0 {
		seen[p.Obj.ID] = true
	}
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		fp := p.sub(Step{Field: fd.Name()})
		d := typeName(el) + "." + fd.Name()
		fver := ver + "." + fd.Name()
		if mods[d] {
			st.Mem.Store(fp, fd.Type(), SymValue(fver, fd.Type()), e.onWrite)
			continue
		}
		switch ft := fd.Type().Underlying().(type) {
		case *types.Pointer:
			e.havocReach(st, st.Mem.Load(st.Facts, fp, fd.Type()), fd.Type(), mods, fver, seen)
		case *types.Slice:
			sv := st.Mem.Load(st.Facts, fp, fd.Type()).(SliceV).flat()
			if sv.Arr == NilObj {
				continue
			}
			if in, ok := ft.Elem().Underlying().(*types.Slice); ok {
				hit := mods["[]"+d] || mods["[]:"+typeName(ft.Elem())] || mods["[]:"+typeName(in.Elem())]
				for _, lf := range leaves(in.Elem()) {
					hit = hit || mods[typeName(in.Elem())+lf.shape]
				}
				if hit {
					k := Key{sv.Arr.ID, "[]"}
					e.onWrite(k, ft.Elem())
					st.Mem.logs[k] = &Log{Kind: 'i', Obj: Sym(SOpaque, fver), Ver: ver}
				}
				continue
			}
			for _, lf := range leaves(ft.Elem()) {
				hit := (mods["[]"+d] || mods["[]:"+typeName(ft.Elem())]) && lf.shape == ""
				if lf.shape != "" && mods[typeName(ft.Elem())+lf.shape] {
					hit = true
				}
				if hit {
					k := Key{sv.Arr.ID, "[]" + lf.shape}
					e.onWrite(k, lf.typ)
					st.Mem.logs[k] = &Log{Kind: 'i', Obj: Sym(SOpaque, fver), Ver: ver}
				}
			}
		}
	}
}

func (e *Engine) builtin(st *State, f *Frame, name string, args []Value, c *ssa.CallCommon, x *ssa.Call) Value {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case SliceV:
			return v.Len
		case StrV:
			return v.Len
		case Ptr:
			return Int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *Term:
			return MarkNonNeg(App(SInt, "maplen", v))
		}
	case "cap":
		if v, ok := args[0].(SliceV); ok {
			return v.Cap
		}
	case "append":
		s := args[0].(SliceV)
		elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return e.append(st, s, args[1], elem)
	case "copy":
		d := args[0].(SliceV).flat()
		elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var n, srcOff *Term
		var src *Term
		switch s := args[1].(type) {
		case SliceV:
			n, src, srcOff = s.Len, s.flat().Arr, s.Off
		case StrV:
			src = NewObj("strbytes")
			o := objTab[src.ID]
			o.defKind, o.defStr = 's', s
			n, srcOff = s.Len, Int(0)
		}
		if d.Len != n && ask(st.Facts, Lt(d.Len, n)) {
			n = d.Len
		}
		if d.Arr == NilObj || src == NilObj {
			return Int(0)
		}
		if n.IsConst() && n.SVal() <= 8 {
			e.copyPoints(st, d, src, srcOff, n.SVal(), elem)
		} else {
			st.Mem.copyRange(d.Arr, d.Off, src, srcOff, n, elem, e.onWrite)
		}
		return n
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			lt := ask(st.Facts, Lt(t, r))
			if lt == (name == "min") {
				r = t
			}
		}
		return r
	case "clear":
		if d, ok := args[0].(SliceV); ok {
			d.flat()
			elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			st.Mem.copyRange(d.Arr, d.Off, NewObj("zero"), Int(0), d.Len, elem, e.onWrite)
			return TupleV{}
		}
	case "print", "println":
		return e.event(st, name, args, x.Type(), x.Pos())
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(unsupported("builtin " + name))
}

func (e *Engine) copyPoints(st *State, d SliceV, src, srcOff *Term, n int64, elem types.Type) {
	var vals []Value
	for i := int64(0); i < n; i++ {
		vals = append(vals, st.Mem.Load(st.Facts, Ptr{Obj: src, Path: []Step{{Idx: Add(srcOff, Int(i))}}}, elem))
	}
	for i := int64(0); i < n; i++ {
		st.Mem.Store(Ptr{Obj: d.Arr, Path: []Step{{Idx: Add(d.Off, Int(i))}}}, elem, vals[i], e.onWrite)
	}
}

// append yields a new array holding the old elements and the new ones: the
// caller's old slice keeps its content.
func (e *Engine) append(st *State, s SliceV, extra Value, elem types.Type) Value {
	s.flat()
	var src, srcOff, n *Term
	switch t := extra.(type) {
	case SliceV:
		src, srcOff, n = t.flat().Arr, t.Off, t.Len
	case StrV:
		src = NewObj("strbytes")
		o := objTab[src.ID]
		o.defKind, o.defStr = 's', t
		srcOff, n = Int(0), t.Len
	}
	if r := st.Facts.Rng(n); r.IsConst() {
		n = Int(r.Lo)
	}
	if n.IsConst() && n.K == 0 {
		return s
	}
	obj := NewObj("append")
	var vals []Value
	pts := n.IsConst() && n.SVal() <= 16
	if pts {
		for i := int64(0); i < n.SVal(); i++ {
			vals = append(vals, st.Mem.Load(st.Facts, Ptr{Obj: src, Path: []Step{{Idx: Add(srcOff, Int(i))}}}, elem))
		}
	}
	st.Mem.copyArray(obj, s.Arr)
	if s.Arr != NilObj {
		if r := st.Facts.Rng(s.Cap); !(r.IsConst() && r.Lo == 0) {
			objTab[obj.ID].parent = s.Arr
		}
	}
	r := SliceV{Arr: obj, Off: s.Off, Len: Add(s.Len, n), Cap: MarkNonNeg(Sym(SInt, fmt.Sprintf("cap%d", nextID())))}
	end := Add(s.Off, s.Len)
	if pts {
		for i := range vals {
			st.Mem.Store(Ptr{Obj: obj, Path: []Step{{Idx: Add(end, Int(int64(i)))}}}, elem, vals[i], e.onWrite)
		}
	} else {
		st.Mem.copyRange(obj, end, src, srcOff, n, elem, e.onWrite)
	}
	return r
}

// derefData resolves the data argument of encoding/binary.
func (e *Engine) derefData(st *State, v Value) (Value, types.Type, *Ptr) {
	iv, ok := v.(IfaceV)
	if !ok || iv.Dyn == nil {
		return v, nil, nil
	}
	t := iv.Dyn
	val := iv.Val
	var at *Ptr
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p := val.(Ptr)
		at = &p
		t = pt.Elem()
		val = st.Mem.Load(st.Facts, p, t)
	}
	return val, t, at
}

func (e *Engine) model(st *State, fn *ssa.Function, args []Value, x *ssa.Call) (Value, *Outcome) {
	name := fn.String()
	rt := x.Type()
	switch name {
	case "encoding/binary.Read":
		val, t, at := e.derefData(st, args[2])
		if t == nil {
			return e.event(st, name, args, rt, x.Pos()), nil
		}
		if sv, ok := val.(SliceV); ok {
			sv.flat()
			elem := t.Underlying().(*types.Slice).Elem()
			ev := e.match(st, name, []Value{args[0], args[1], fmtType(elem), sv.Len}, false, rt, x.Pos())
			if sv.Arr != NilObj {
				for _, lf := range leaves(elem) {
					k := Key{sv.Arr.ID, "[]" + lf.shape}
					e.onWrite(k, lf.typ)
					st.Mem.logs[k] = &Log{Kind: 'i', Obj: Sym(SOpaque, ev.Ver+":data"), Ver: ev.Ver}
				}
			}
			return ev.Res, nil
		}
		ev := e.match(st, name, []Value{args[0], args[1], fmtType(t), Sym(SOpaque, "scalar")}, false, rt, x.Pos())
		if at != nil {
			st.Mem.Store(*at, t, SymValue(ev.Ver+":data", t), e.onWrite)
		}
		return ev.Res, nil
	case "encoding/binary.Write":
		val, t, _ := e.derefData(st, args[2])
		if t == nil {
			return e.event(st, name, args, rt, x.Pos()), nil
		}
		if sv, ok := val.(SliceV); ok {
			return e.event(st, name, []Value{args[0], args[1], fmtType(t.Underlying().(*types.Slice).Elem()), sv}, rt, x.Pos()), nil
		}
		return e.event(st, name, []Value{args[0], args[1], fmtType(t), val}, rt, x.Pos()), nil
	case "container/heap.Push", "container/heap.Pop", "container/heap.Init", "container/heap.Fix", "container/heap.Remove":
		iv := args[0].(IfaceV)
		p, ok := iv.Val.(Ptr)
		if !ok {
			return e.event(st, name, args, rt, x.Pos()), nil
		}
		qt := iv.Dyn.Underlying().(*types.Pointer).Elem()
		cur := st.Mem.Load(st.Facts, p, qt)
		ev := e.match(st, name, append([]Value{p, cur}, args[1:]...), false, rt, x.Pos())
		st.Mem.Store(p, qt, SymValue(ev.Ver+":queue", qt), e.onWrite)
		return ev.Res, nil
	case "sort.Slice", "sort.SliceStable":
		iv := args[0].(IfaceV)
		sv := iv.Val.(SliceV).flat()
		k := len(st.Events)
		ev := e.match(st, "sort", []Value{sv}, false, rt, x.Pos())
		elem := iv.Dyn.Underlying().(*types.Slice).Elem()
		if sv.Arr != NilObj {
			for _, lf := range leaves(elem) {
				k := Key{sv.Arr.ID, "[]" + lf.shape}
				e.onWrite(k, lf.typ)
				st.Mem.logs[k] = st.Mem.log(k).add(Entry{Lo: sv.Off, Hi: Add(sv.Off, sv.Len), Src: &Log{Kind: 'i', Obj: Sym(SOpaque, ev.Ver+":sorted"), Ver: ev.Ver}, Delta: Int(0), T: lf.typ})
			}
		}
		// The order is compared on the elements in arbitrary positions.
		me := &st.Events[k]
		me.Cmp, me.After, me.Stable = args[1], st.Mem.Clone(), name == "sort.SliceStable"
		if st.HasOr {
			o := st.Oracle[k]
			if o.Stable && !me.Stable {
				panic(&mismatch{msg: "sorts without keeping the order of equal elements"})
			}
			why := split(st.Facts, func(g *Facts) string {
				c := newCmp(e, g, st.Mem, o.After)
				c.below = sv.Len
				return c.val(args[1], o.Cmp, false)
			})
			if why != "" {
				panic(&mismatch{msg: "sorts by a different order: " + why})
			}
		}
		return TupleV{}, nil
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		if out, ok := e.output(st, name, args); ok {
			return e.event(st, "print", out, rt, x.Pos()), nil
		}
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		if name != "os.Exit" {
			if out, ok := e.output(st, name, args); ok {
				e.event(st, "log.Fatal", out, rt, x.Pos())
				return nil, &Outcome{Kind: OFatal, St: st}
			}
		}
		e.event(st, name, args, rt, x.Pos())
		return nil, &Outcome{Kind: OFatal, St: st}
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintln":
		var ts []*Term
		for i, a := range args {
			ts = append(ts, e.deep(st, a, fn.Signature.Params().At(i).Type()))
		}
		return SymValue(name, rt, ts...), nil
	}
	if v, ok := e.cutModel(st, name, args, rt); ok {
		return v, nil
	}
	if v, ok := e.builderModel(st, name, args, rt); ok {
		return v, nil
	}
	if fn.Pkg != nil && purePkgs[fn.Pkg.Pkg.Path()] && fn.Signature.Recv() == nil {
		return e.pure(st, name, args, rt), nil
	}
	return e.event(st, name, args, rt, x.Pos()), nil
}

// output is the text a print function writes: a template and its operands.
func (e *Engine) output(st *State, name string, args []Value) ([]Value, bool) {
	va, ok := args[len(args)-1].(SliceV)
	if !ok {
		return nil, false
	}
	var ops []IfaceV
	if n := st.Facts.Rng(va.Len); !n.IsConst() {
		return nil, false
	} else if n.Lo > 0 {
		va = va.flat()
		for i := int64(0); i < int64(n.Lo); i++ {
			v, ok := st.Mem.Load(st.Facts, Ptr{Obj: va.Arr, Path: []Step{{Idx: Add(va.Off, Int(i))}}}, types.NewInterfaceType(nil, nil)).(IfaceV)
			if !ok {
				return nil, false
			}
			ops = append(ops, v)
		}
	}
	text := func(v Value) (string, bool) {
		s, ok := v.(StrV)
		if !ok || !s.Off.IsConst() || !s.Len.IsConst() {
			return "", false
		}
		if s.Len.SVal() == 0 {
			return "", true
		}
		c, ok := s.Arr.StrVal()
		if !ok {
			return "", false
		}
		lo := s.Off.SVal()
		return c[lo : lo+s.Len.SVal()], true
	}
	var tmpl strings.Builder
	var out []Value
	operand := func(verb string, v IfaceV) {
		if v.Dyn != nil {
			if b, ok := v.Dyn.Underlying().(*types.Basic); ok && types.NewMethodSet(v.Dyn).Len() == 0 {
				switch {
				case b.Info()&types.IsString != 0 && (verb == "%v" || verb == "%s"):
					if c, ok := text(v.Val); ok {
						tmpl.WriteString(strings.ReplaceAll(c, "%", "%%"))
						return
					}
					verb = "%s"
				case b.Info()&types.IsInteger != 0 && verb == "%v":
					verb = "%d"
				case b.Info()&types.IsBoolean != 0 && verb == "%t":
					verb = "%v"
				}
			}
		}
		tmpl.WriteString(verb)
		out = append(out, v)
	}
	isStr := func(v IfaceV) bool {
		if v.Dyn == nil {
			return false
		}
		b, ok := v.Dyn.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	switch name[strings.IndexByte(name, '.')+1:] {
	case "Printf", "Fatalf":
		f, ok := text(args[0])
		if !ok {
			return nil, false
		}
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				tmpl.WriteByte(f[i])
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
				j++
			}
			if j >= len(f) || f[j] == '*' || f[j] == '[' {
				return nil, false
			}
			if f[j] == '%' {
				tmpl.WriteString("%%")
			} else {
				if k >= len(ops) {
					return nil, false
				}
				operand(f[i:j+1], ops[k])
				k++
			}
			i = j
		}
		if k != len(ops) {
			return nil, false
		}
	case "Println", "Fatalln":
		for i, v := range ops {
			if i > 0 {
				tmpl.WriteByte(' ')
			}
			operand("%v", v)
		}
		tmpl.WriteByte('\n')
	default:
		for i, v := range ops {
			if i > 0 && !isStr(v) && !isStr(ops[i-1]) {
				if v.Dyn == nil || ops[i-1].Dyn == nil {
					return nil, false
				}
				tmpl.WriteByte(' ')
			}
			operand("%v", v)
		}
	}
	t := tmpl.String()
	if strings.HasPrefix(name, "log.") {
		// The logger ends a line that does not end itself.
		t = strings.TrimSuffix(t, "\n")
	}
	return append([]Value{constStr(t)}, out...), true
}

// splitTab holds the first part of what strings.Split returns.
var splitTab = map[*Term]StrV{}

// cutModel relates the functions that cut a string at the first occurrence of
// a separator.
func (e *Engine) cutModel(st *State, name string, args []Value, rt types.Type) (Value, bool) {
	if len(args) < 2 {
		return nil, false
	}
	s, ok := args[0].(StrV)
	if !ok {
		return nil, false
	}
	var sep string
	switch x := args[1].(type) {
	case StrV:
		arr, ok := x.Arr.StrVal()
		if !ok || !x.Off.IsConst() || !x.Len.IsConst() {
			return nil, false
		}
		lo := x.Off.SVal()
		hi := lo + x.Len.SVal()
		if lo < 0 || hi > int64(len(arr)) {
			return nil, false
		}
		sep = arr[lo:hi]
	case *Term:
		if !x.IsConst() || x.SVal() <= 0 || x.SVal() >= 0x80 {
			return nil, false
		}
		sep = string(rune(x.SVal()))
	default:
		return nil, false
	}
	if sep == "" {
		return nil, false
	}
	switch name {
	case "strings.Split", "strings.Cut", "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.Contains", "strings.ContainsRune":
	case "strings.SplitN":
		if k := args[2].(*Term); !k.IsConst() || k.SVal() != 2 {
			return nil, false
		}
	default:
		return nil, false
	}
	n := MarkNonNeg(App(SInt, "first", strTerm(s), strTerm(constStr(sep))))
	st.Facts.Assume(Le(n, s.Len), true)
	found := Lt(n, s.Len)
	head := StrV{Arr: s.Arr, Off: s.Off, Len: n}
	tail := func() StrV {
		if !ask(st.Facts, found) {
			return constStr("")
		}
		k := Add(n, Int(int64(len(sep))))
		st.Facts.Assume(Le(k, s.Len), true)
		return StrV{Arr: s.Arr, Off: Add(s.Off, k), Len: Sub(s.Len, k)}
	}
	switch name {
	case "strings.Contains", "strings.ContainsRune":
		return found, true
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		if ask(st.Facts, found) {
			return n, true
		}
		return Const(SInt, ^uint64(0)), true
	case "strings.Cut":
		t := tail()
		return TupleV{head, t, Bool(ask(st.Facts, found))}, true
	}
	v := e.pure(st, name, args[:2], rt).(SliceV)
	splitTab[v.Arr] = head
	if ask(st.Facts, found) {
		st.Facts.Assume(Lt(v.Len, Int(2)), false)
	} else {
		st.Facts.Assume(Eq(v.Len, Int(1)), true)
	}
	return v, true
}

// builderModel gives strings.Builder and bytes.Buffer their meaning as
// growing strings.
func (e *Engine) builderModel(st *State, name string, args []Value, rt types.Type) (Value, bool) {
	var m string
	switch {
	case strings.HasPrefix(name, "(*strings.Builder)."):
		m = strings.TrimPrefix(name, "(*strings.Builder).")
	case strings.HasPrefix(name, "(*bytes.Buffer)."):
		m = strings.TrimPrefix(name, "(*bytes.Buffer).")
	default:
		return nil, false
	}
	p := args[0].(Ptr).sub(Step{Field: "$text"})
	ts := types.Typ[types.String]
	cur := st.Mem.Load(st.Facts, p, ts).(StrV)
	put := func(s StrV) { st.Mem.Store(p, ts, catStr(cur, s), e.onWrite) }
	nilErr := IfaceV{Sym: NilObj}
	switch m {
	case "WriteRune":
		r := args[1].(*Term)
		s := strOfTerm(App(SOpaque, "runestr", r))
		put(s)
		return TupleV{s.Len, nilErr}, true
	case "WriteByte":
		put(StrV{Arr: App(SOpaque, "bytestr", args[1].(*Term)), Off: Int(0), Len: Int(1)})
		return nilErr, true
	case "WriteString":
		s := args[1].(StrV)
		put(s)
		return TupleV{s.Len, nilErr}, true
	case "Write":
		s := e.snapshot(st, args[1].(SliceV), types.Typ[types.Uint8])
		put(s)
		return TupleV{s.Len, nilErr}, true
	case "String":
		return cur, true
	case "Len":
		return cur.Len, true
	case "Grow":
		return TupleV{}, true
	case "Reset":
		st.Mem.Store(p, ts, constStr(""), e.onWrite)
		return TupleV{}, true
	case "Bytes":
		return e.convert(st, cur, ts, types.NewSlice(types.Typ[types.Uint8])), true
	}
	return nil, false
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
