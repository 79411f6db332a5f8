package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cmp compares values of the implementation (memory a) with values of the
// model (memory b). Results are "" or a description of the difference.
type cmp struct {
	e     *Engine
	f     *Facts
	a, b  *Mem
	pairs map[[2]int]bool
	only  map[string]bool // restricts shared to these fields
	priv  map[Key]bool    // regions shared leaves out
	below *Term           // bounds the arguments of compared function literals
	bad   *Key            // the region shared found different
}

// regionField is the field a region belongs to, "" when it has none.
func regionField(k Key) string {
	s := k.Shape
	for {
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			f := s[i+1:]
			if j := strings.IndexAny(f, "[@"); j >= 0 {
				f = f[:j]
			}
			return f
		}
		return termField(TermByID(k.Obj))
	}
}

func termField(t *Term) string {
	if t.Op == OApp && strings.HasPrefix(t.S, ".") || t.Op == OApp && strings.HasPrefix(t.S, "[]") {
		s := t.S
		if j := strings.IndexByte(s, '@'); j >= 0 {
			s = s[:j]
		}
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			s = s[i+1:]
			return strings.TrimRight(s, "[]")
		}
		if len(t.Args) > 0 {
			return termField(t.Args[0])
		}
	}
	return ""
}

func newCmp(e *Engine, f *Facts, a, b *Mem) *cmp {
	return &cmp{e: e, f: f, a: a, b: b, pairs: map[[2]int]bool{}}
}

func diff(a, b Value) string { return fmt.Sprintf("%s, expected %s", Show(a), Show(b)) }

func (c *cmp) val(a, b Value, strict bool) string {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return diff(a, b)
		}
		if c.f.Equal(x, y) {
			return ""
		}
		if x.Bool && y.Bool {
			// compare truth values
			vx := ask(c.f, x)
			vy := ask(c.f, y)
			if vx == vy {
				return ""
			}
		}
		return diff(a, b)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || len(x.Path) != len(y.Path) {
			return diff(a, b)
		}
		for i := range x.Path {
			if x.Path[i].Field != y.Path[i].Field {
				return diff(a, b)
			}
			if x.Path[i].Idx != nil && !c.f.Equal(x.Path[i].Idx, y.Path[i].Idx) {
				return diff(a, b)
			}
		}
		return c.obj(x.Obj, y.Obj, a, b)
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return diff(a, b)
		}
		if strict && (x.Arr == NilObj) != (y.Arr == NilObj) {
			return "nil slice against non-nil slice: " + diff(a, b)
		}
		if !c.f.Equal(x.Len, y.Len) {
			return "slice length " + diff(x.Len, y.Len)
		}
		if r := c.f.Rng(x.Len); r.IsConst() && r.Lo == 0 {
			return ""
		}
		if x.Arr == y.Arr && x.Arr == NilObj {
			return ""
		}
		if len(x.Pre) > 0 || len(y.Pre) > 0 {
			if len(x.Pre) != len(y.Pre) || !c.f.Equal(x.Arr, y.Arr) || !c.f.Equal(x.Off, y.Off) {
				return diff(a, b)
			}
			for i := range x.Pre {
				if !c.f.Equal(x.Pre[i].Idx, y.Pre[i].Idx) {
					return diff(a, b)
				}
			}
			return "" // the content is compared as shared memory
		}
		key := [2]int{x.Arr.ID, y.Arr.ID}
		if c.pairs[key] && c.f.Equal(x.Off, y.Off) {
			return ""
		}
		c.pairs[key] = true
		for _, sh := range c.shapes(x.Arr, y.Arr) {
			if why := c.logs(c.a.log(Key{x.Arr.ID, sh}), c.b.log(Key{y.Arr.ID, sh}), sh, x.Off, y.Off, x.Len); why != "" {
				return "slice element" + strings.TrimPrefix(sh, "[]") + ": " + why
			}
		}
		return ""
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			return diff(a, b)
		}
		if c.f.Equal(strTerm(x), strTerm(y)) {
			return ""
		}
		if !c.f.Equal(x.Len, y.Len) {
			return "string length: " + diff(a, b)
		}
		if r := c.f.Rng(x.Len); r.IsConst() && r.Lo == 0 {
			return ""
		}
		if c.f.Equal(x.Arr, y.Arr) && c.f.Equal(x.Off, y.Off) {
			return ""
		}
		return diff(a, b)
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return diff(a, b)
		}
		for i := range x.F {
			if why := c.val(x.F[i], y.F[i], strict); why != "" {
				return why
			}
		}
		return ""
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return diff(a, b)
		}
		for i := range x {
			if why := c.val(x[i], y[i], strict); why != "" {
				return why
			}
		}
		return ""
	case FuncV:
		y, ok := b.(FuncV)
		if !ok {
			return diff(a, b)
		}
		if x.Fn == nil || y.Fn == nil {
			if x.Fn == nil && y.Fn == nil && c.f.Equal(x.Sym, y.Sym) {
				return ""
			}
			return diff(a, b)
		}
		if x.Fn == y.Fn && len(x.Bind) == len(y.Bind) {
			same := true
			for i := range x.Bind {
				if c.val(x.Bind[i], y.Bind[i], strict) != "" {
					same = false
				}
			}
			if same {
				return ""
			}
		}
		return c.closures(x, y)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return diff(a, b)
		}
		if (x.Dyn == nil) != (y.Dyn == nil) {
			return diff(a, b)
		}
		if x.Dyn == nil {
			if c.f.Equal(x.Sym, y.Sym) {
				return ""
			}
			return diff(a, b)
		}
		if !types.Identical(x.Dyn, y.Dyn) {
			return diff(a, b)
		}
		return c.val(x.Val, y.Val, strict)
	case nil:
		if b == nil {
			return ""
		}
	}
	return diff(a, b)
}

func (c *cmp) shapes(a, b *Term) []string {
	set := map[string]bool{}
	for k := range c.a.logs {
		if k.Obj == a.ID {
			set[k.Shape] = true
		}
	}
	for k := range c.b.logs {
		if k.Obj == b.ID {
			set[k.Shape] = true
		}
	}
	if len(set) == 0 && a != b {
		// untouched arrays: compare their defaults
		set["[]"] = true
	}
	return sortedKeys(set)
}

func (c *cmp) obj(x, y *Term, a, b Value) string {
	if x == y || c.f.Equal(x, y) {
		return ""
	}
	if !isFresh(x) || !isFresh(y) {
		return diff(a, b)
	}
	key := [2]int{x.ID, y.ID}
	if c.pairs[key] {
		return ""
	}
	c.pairs[key] = true
	for _, sh := range c.shapes(x, y) {
		if sh == "[]" && c.a.logs[Key{x.ID, sh}] == nil && c.b.logs[Key{y.ID, sh}] == nil {
			continue
		}
		if why := c.logs(c.a.log(Key{x.ID, sh}), c.b.log(Key{y.ID, sh}), sh, Int(0), Int(0), nil); why != "" {
			return sh + ": " + why
		}
	}
	return ""
}

// cells reports whether argument i of a call of an analysed function points,
// on both sides, at a variable of a basic type which is local to the caller,
// which no other argument points into, and which holds equal values: the callee
// cannot tell a variable from a field of one.
func (c *cmp) cells(a, b []Value, i int) bool {
	load := func(m *Mem, args []Value) (Value, types.Type) {
		p, ok := args[i].(Ptr)
		if !ok || !isFresh(p.Obj) {
			return nil, nil
		}
		for j, v := range args {
			if j == i {
				continue
			}
			switch q := v.(type) {
			case Ptr:
				if q.Obj == p.Obj {
					return nil, nil
				}
			case SliceV:
				if q.Arr == p.Obj {
					return nil, nil
				}
			case *Term:
			default:
				if _, ok := v.(FuncV); !ok {
					return nil, nil
				}
			}
		}
		sh, idx := shapeOf(p)
		l := m.logs[Key{p.Obj.ID, sh}]
		if l == nil || len(idx) != 0 {
			return nil, nil
		}
		t := logType(l)
		if t == nil {
			return nil, nil
		}
		if _, ok := t.Underlying().(*types.Basic); !ok {
			return nil, nil
		}
		return m.Load(c.f, p, t), t
	}
	x, t := load(c.a, a)
	y, u := load(c.b, b)
	return x != nil && y != nil && types.Identical(t, u) && c.val(x, y, false) == ""
}

func logType(l *Log) types.Type {
	for _, e := range l.Ent {
		if e.T != nil {
			return e.T
		}
		if e.Src != nil {
			if t := logType(e.Src); t != nil {
				return t
			}
		}
	}
	return nil
}

func sameEntries(f *Facts, a, b *Log) bool {
	if len(a.Ent) != len(b.Ent) || !sameBase(f, a, b) {
		return false
	}
	for i := range a.Ent {
		x, y := a.Ent[i], b.Ent[i]
		if (x.Src == nil) != (y.Src == nil) || len(x.Idx) != len(y.Idx) {
			return false
		}
		if x.Src != nil {
			if !f.Equal(x.Lo, y.Lo) || !f.Equal(x.Hi, y.Hi) || !f.Equal(x.Delta, y.Delta) || (x.Src != y.Src && !sameEntries(f, x.Src, y.Src)) {
				return false
			}
			continue
		}
		for j := range x.Idx {
			if !f.Equal(x.Idx[j], y.Idx[j]) {
				return false
			}
		}
		tx, ok1 := x.Val.(*Term)
		ty, ok2 := y.Val.(*Term)
		if !ok1 || !ok2 || !f.Equal(tx, ty) {
			return false
		}
	}
	return true
}

// logs compares the content of two regions, index by index (relative to their
// offsets), for all indices below n (n nil: all indices).
func (c *cmp) logs(la, lb *Log, shape string, oa, ob *Term, n *Term) string {
	if la == lb && (oa == ob || c.f.Equal(oa, ob)) {
		return ""
	}
	if c.f.Equal(oa, ob) && sameEntries(c.f, la, lb) {
		return ""
	}
	t := logType(la)
	if t == nil {
		t = logType(lb)
	}
	if t == nil {
		if sameBase(c.f, la, lb) && (la.Kind == 'z' || c.f.Equal(oa, ob)) {
			return ""
		}
		if la.Kind == 'z' && lb.Kind == 'z' {
			return ""
		}
		return fmt.Sprintf("different content (%s against %s)", showBase(la), showBase(lb))
	}
	k := strings.Count(shape, "[]")
	if k == 0 {
		return c.val(la.read(c.f, shape, nil, t), lb.read(c.f, shape, nil, t), false)
	}
	// An arbitrary index.
	r := Sym(SInt, fmt.Sprintf("idx%d", idxNo(c.f)))
	c.f.Assume(Lt(r, Int(0)), false)
	if n != nil {
		if !c.f.Assume(Lt(r, n), true) {
			c.f.Bot = false // empty range
			return ""
		}
	}
	ia, ib := []*Term{Add(oa, r)}, []*Term{Add(ob, r)}
	for i := 1; i < k; i++ {
		x := Sym(SInt, fmt.Sprintf("idx%d", idxNo(c.f)))
		ia, ib = append(ia, x), append(ib, x)
	}
	va := la.read(c.f, shape, ia, t)
	vb := lb.read(c.f, shape, ib, t)
	if why := c.val(va, vb, false); why != "" {
		return fmt.Sprintf("at index %s: %s", c.f.resolve(r), why)
	}
	return ""
}

var idxCounter int

// idxNo must be stable when a comparison is restarted after a split, so it is
// derived from the facts of the path.
func idxNo(f *Facts) int {
	f.idx++
	return f.idx
}

func showBase(l *Log) string {
	switch l.Kind {
	case 'z':
		return "zeroes"
	case 's':
		return "bytes of " + l.Str.Arr.String()
	}
	return l.Obj.String() + "@" + l.Ver
}

// shared compares all memory that existed before the functions started.
func (c *cmp) shared() string {
	set := map[Key]bool{}
	for k := range c.a.logs {
		set[k] = true
	}
	for k := range c.b.logs {
		set[k] = true
	}
	var ks []Key
	for k := range set {
		if !isFresh(TermByID(k.Obj)) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Obj != ks[j].Obj {
			return ks[i].Obj < ks[j].Obj
		}
		return ks[i].Shape < ks[j].Shape
	})
	for _, k := range ks {
		if c.e.IgnoreKey != nil && c.e.IgnoreKey(k) {
			continue
		}
		if c.only != nil {
			if fd := regionField(k); fd != "" && !c.only[fd] {
				continue
			}
		}
		if c.priv[k] {
			continue
		}
		if why := c.logs(c.a.log(k), c.b.log(k), k.Shape, Int(0), Int(0), nil); why != "" {
			k := k
			c.bad = &k
			return keyName(k) + ": " + why
		}
	}
	return ""
}

// closures compares two function literals by analysing both on the same
// unknown arguments.
func (c *cmp) closures(x, y FuncV) string {
	n := x.Fn.Signature.Params().Len()
	if c.e.subs > 2 || n != y.Fn.Signature.Params().Len() || len(x.Fn.Blocks) == 0 || len(y.Fn.Blocks) == 0 {
		return fmt.Sprintf("function %s, expected %s", x.Fn, y.Fn)
	}
	id := nextID()
	var args []Value
	for i := 0; i < n; i++ {
		args = append(args, SymValue(fmt.Sprintf("L%d.arg%d", id, i), x.Fn.Signature.Params().At(i).Type()))
	}
	e := c.e
	act, cur := e.active, e.cur
	e.subs++
	defer func() { e.active, e.cur = act, cur; e.subs-- }()
	q := &Equiv{E: e, Fset: e.Fset, Name: x.Fn.String()}
	si, ss := &State{Mem: c.a.Clone(), Facts: c.f.Clone()}, &State{Mem: c.b.Clone(), Facts: c.f.Clone()}
	if c.below != nil {
		for _, a := range args {
			if t, ok := a.(*Term); ok && t.IsInt() {
				for _, st := range []*State{si, ss} {
					st.Facts.Assume(Lt(t, Int(0)), false)
					st.Facts.Assume(Lt(t, c.below), true)
				}
			}
		}
	}
	e.push(si, x.Fn, args, x.Bind, nil)
	e.push(ss, y.Fn, args, y.Bind, nil)
	q.relate(si, ss)
	if len(q.Viol) > 0 {
		return "function literal at " + q.Viol[0].Pos + ": " + q.Viol[0].Msg
	}
	if q.Exits == 0 {
		return "function literal could not be followed"
	}
	return ""
}

// split runs a comparison, splitting the path where it asks for it.
func split(f *Facts, run func(f *Facts) string) (why string) {
	type item struct{ f *Facts }
	work := []*Facts{f.Clone()}
	for n := 0; len(work) > 0; n++ {
		if n > 4000 {
			return "comparison needs too many cases"
		}
		g := work[len(work)-1]
		work = work[:len(work)-1]
		var req *forkReq
		var res string
		g0 := g.Clone()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if fr, ok := r.(*forkReq); ok {
						req = fr
						return
					}
					if u, ok := r.(unsupported); ok {
						res = u.Error()
						return
					}
					panic(r)
				}
			}()
			res = run(g)
		}()
		if req != nil {
			for _, v := range []bool{true, false} {
				h := g0.Clone()
				// redo the same assumptions up to here on the next run: index
				// symbols are numbered from the same start.
				if h.Assume(req.cond, v) {
					work = append(work, h)
				}
			}
			continue
		}
		if res != "" && !g.Bot {
			return res
		}
	}
	return ""
}

// Violation is one refuted or undecided obligation.
type Violation struct {
	Rule string
	Pos  string
	Msg  string
}

// Equiv relates an implementation to a model function.
type Equiv struct {
	E      *Engine
	Fset   *token.FileSet
	Name   string
	Viol   []Violation
	levels []*pairLevel

	Pairs, Loops, Attempts, Exits int
	Samples                       []string
	MaxAttempts, MaxLoops         int

	hints  map[string]*pairLevel
	gaveUp bool
}

type pairLevel struct {
	impl, spec *loopLevel
	banned     map[[3]interface{}]bool
	dropped    map[string]bool
	dirty      bool
	cur        *loopAttempt
	pos        string
	infer      bool
	pairs      map[[2]int]bool
	// priv are the fields one side keeps in a local variable during the loop.
	priv map[Key]bool
}

type lvar struct {
	id    interface{} // *ssa.Phi or Key
	name  string
	typ   types.Type
	entry Value // scalar
	log   *Log  // content
	cont  bool
	shape string
	sym   Value
	part  *lvar
	off   *Term // impl = partner + off, or off - partner
	neg   bool
	text  bool // a slice holding the bytes or characters of its partner
	mode  int
	der   *lvar // a function of der: its entry value with der's entry value replaced
}

// derived is the value of v when the variable it is computed from has value t.
func (v *lvar) derived(t *Term) *Term {
	return replace(v.entry.(*Term), v.der.entry.(*Term), t)
}

// replace rewrites the occurrences of x in t.
func replace(t, x, y *Term) *Term {
	if t == x {
		return y
	}
	var as []*Term
	same := true
	for _, a := range t.Args {
		b := replace(a, x, y)
		same = same && a == b
		as = append(as, b)
	}
	if same {
		return t
	}
	switch t.Op {
	case OAdd:
		return Add(as[0], as[1])
	case OSub:
		return Sub(as[0], as[1])
	case OMul:
		return Mul(as[0], as[1])
	case OAnd:
		return And(as[0], as[1])
	case OOr:
		return Or(as[0], as[1])
	case OShl:
		return Shl(as[0], as[1])
	case OShr:
		return Shr(as[0], as[1])
	case OConv:
		return Conv(as[0], t.Sort())
	}
	return mk(t.Op, t.Sort(), t.K, t.S, as...)
}

// derive looks for a variable that v, which starts with something loaded from
// memory, is computed from.
func (q *Equiv) derive(lv *pairLevel, vs []*lvar, v *lvar) bool {
	e, ok := v.entry.(*Term)
	if v.cont || !ok || !e.IsInt() || e.Op != OApp || len(e.Args) == 0 {
		return false
	}
	for _, consts := range []bool{false, true} {
		for _, w := range vs {
			x, ok := w.entry.(*Term)
			if w == v || w.cont || !ok || x.IsConst() != consts || !x.IsInt() || lv.banned[[3]interface{}{v.id, w.id, 3}] {
				continue
			}
			if replace(e, x, Sym(x.Sort(), "?")) != e {
				v.der = w
				return true
			}
		}
	}
	return false
}

type invariant struct {
	id   string
	chk  func(get func(*lvar) Value) *Term
	vars []*lvar
}

type loopAttempt struct {
	sv, iv []*lvar
	invs   []invariant
}

func (l *pairLevel) isDirty() bool { return l.dirty || l.impl.dirty || l.spec.dirty }

func (q *Equiv) violation(st *State, msg string) {
	if len(q.Viol) > 200 {
		return
	}
	pos := "?"
	if st != nil {
		pos = st.Pos(q.Fset)
	}
	q.Viol = append(q.Viol, Violation{Rule: q.Name, Pos: pos, Msg: msg})
}

func (q *Equiv) setActive(spec bool) {
	q.E.active = nil
	for _, l := range q.levels {
		if spec {
			q.E.active = append(q.E.active, l.spec)
		} else {
			q.E.active = append(q.E.active, l.impl)
		}
	}
}

func (q *Equiv) dirtyAbove() bool {
	for _, l := range q.levels {
		if l.isDirty() {
			return true
		}
	}
	return false
}

// Check relates impl to spec on equal arguments and memory.
func (q *Equiv) Check(impl, spec *ssa.Function, args []Value, facts *Facts, mem *Mem) {
	si := q.E.NewState(impl, args, facts.Clone(), mem.Clone())
	ss := q.E.NewState(spec, args, facts.Clone(), mem.Clone())
	q.relate(si, ss)
}

func (q *Equiv) relate(si, ss *State) {
	ss.HasOr, ss.Oracle, ss.Events = false, nil, nil
	q.setActive(true)
	outs := q.E.Run(ss)
	for _, so := range outs {
		if q.dirtyAbove() {
			return
		}
		if so.Kind == OUnsupported || so.Kind == OMismatch {
			q.violation(so.St, "the model cannot be analysed: "+so.Msg)
			continue
		}
		if so.Kind == OPanic {
			continue
		}
		n := si.Clone()
		n.Facts = so.St.Facts.Clone()
		n.Oracle, n.HasOr, n.Events = so.St.Events, true, nil
		q.setActive(false)
		for _, io := range q.E.Run(n) {
			if q.dirtyAbove() {
				return
			}
			q.match(io, so, 0)
		}
	}
}

func (q *Equiv) match(io, so *Outcome, depth int) {
	f := io.St.Facts
	if f.Bot {
		return
	}
	q.Pairs++
	switch io.Kind {
	case OMismatch, OUnsupported, OPanic:
		q.violation(io.St, io.Msg+context(io.St))
		return
	}
	if io.Kind != so.Kind {
		if depth < 6 {
			// A loop with its test at the other end: go on to that test.
			if io.Kind == OBack && (so.Kind == OExit || so.Kind == OReturn || so.Kind == OFatal || so.Kind == OCut) {
				n := io.St.Clone()
				n.Facts = f.Clone()
				q.setActive(false)
				for _, o := range q.E.Run(n) {
					q.match(o, so, depth+3)
				}
				return
			}
			if so.Kind == OBack && (io.Kind == OExit || io.Kind == OReturn || io.Kind == OFatal || io.Kind == OCut) {
				n := so.St.Clone()
				n.Facts = f.Clone()
				n.HasOr = false
				q.setActive(true)
				for _, o := range q.E.Run(n) {
					if o.Kind == OPanic {
						continue
					}
					o2 := *io
					o2.St = io.St.Clone()
					o2.St.Facts = o.St.Facts.Clone()
					q.match(&o2, o, depth+3)
				}
				return
			}
			if io.Kind == OCut {
				if outs, ok := q.advance(io.St, f, false); ok {
					for _, o := range outs {
						q.match(o, so, depth+1)
					}
					return
				}
			}
			if so.Kind == OCut {
				if outs, ok := q.advance(so.St, f, true); ok {
					for _, o := range outs {
						o2 := *io
						o2.St = io.St.Clone()
						o2.St.Facts = o.St.Facts.Clone()
						q.match(&o2, o, depth+1)
					}
					return
				}
			}
		}
		q.violation(io.St, fmt.Sprintf("ends in a %s where the model ends in a %s at %s%s", io.Kind, so.Kind, so.St.Pos(q.Fset), context(io.St)))
		return
	}
	if len(io.St.Events) < len(so.St.Events) {
		q.violation(io.St, fmt.Sprintf("does not make the call %s before a %s%s", showEvent(so.St.Events[len(io.St.Events)]), io.Kind, context(io.St)))
		return
	}
	if len(io.St.Events) > len(so.St.Events) {
		q.violation(io.St, fmt.Sprintf("makes the additional call %s", showEvent(io.St.Events[len(so.St.Events)])))
		return
	}
	switch io.Kind {
	case OExit:
	case OFatal:
		q.Exits++
	case OReturn:
		q.Exits++
		why := split(f, func(g *Facts) string {
			c := newCmp(q.E, g, io.St.Mem, so.St.Mem)
			for i := range io.Res {
				if w := c.val(io.Res[i], so.Res[i], true); w != "" {
					return fmt.Sprintf("result %d is %s", i, w)
				}
			}
			if w := c.shared(); w != "" {
				return "leaves " + w
			}
			if w := c.shares(io.Res, so.Res); w != "" {
				return "leaves " + w
			}
			return ""
		})
		if why != "" {
			q.violation(io.St, why+context(io.St))
		}
	case OBack:
		q.back(io, so)
	case OCut:
		q.loop(io, so)
	}
}

// context lists the branch facts of a path for a report.
func context(st *State) string {
	var ids []int
	for id := range st.Facts.bools {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var out []string
	for _, id := range ids {
		t := TermByID(id)
		s := t.String()
		if len(s) > 90 || strings.Contains(s, "idx") {
			continue
		}
		if !st.Facts.bools[id] {
			s = "!" + s
		}
		out = append(out, s)
	}
	if len(out) > 10 {
		out = out[len(out)-10:]
	}
	if len(out) == 0 {
		return ""
	}
	return " [when " + strings.Join(out, "; ") + "]"
}

// advance continues a path stopped at a loop whose next test is decided.
func (q *Equiv) advance(st *State, f *Facts, spec bool) ([]*Outcome, bool) {
	n := st.Clone()
	n.Facts = f.Clone()
	fr := n.top()
	b := fr.Blk
	body := q.E.loopsOf(fr.Fn).body[b]
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok || body[b.Succs[0]] == body[b.Succs[1]] {
		return nil, false
	}
	rec := &unrollRec{snap: n.Clone(), depth: len(n.Frames) - 1, blk: b.Index, body: body}
	fr.iters = map[int]int{}
	fr.unroll = map[int]*unrollRec{}
	fr.unroll[b.Index] = rec
	n.anc = []*unrollRec{rec}
	if spec {
		n.HasOr = false
	}
	q.setActive(spec)
	outs := q.E.Run(n)
	for _, o := range outs {
		if o.Kind == OCut && o.St == rec.snap {
			return nil, false
		}
	}
	return outs, true
}

func (q *Equiv) findLevel(st *State, spec bool) int {
	d := len(st.Frames) - 1
	for i := len(q.levels) - 1; i >= 0; i-- {
		l := q.levels[i].impl
		if spec {
			l = q.levels[i].spec
		}
		if l.depth == d && l.blk == st.top().Blk {
			return i
		}
	}
	return -1
}

func readVar(st *State, v *lvar) (Value, *Log) {
	switch id := v.id.(type) {
	case *ssa.Phi:
		return st.top().Env[id], nil
	case Key:
		l := st.Mem.log(id)
		if v.cont {
			return nil, l
		}
		return l.read(st.Facts, id.Shape, nil, v.typ), nil
	}
	return nil, nil
}

func (q *Equiv) back(io, so *Outcome) {
	li, ls := q.findLevel(io.St, false), q.findLevel(so.St, true)
	if li != ls || li < 0 {
		q.violation(io.St, "repeats a different loop than the model"+context(io.St))
		return
	}
	lv := q.levels[li]
	if !lv.infer {
		return // established already
	}
	at := lv.cur
	f := io.St.Facts
	cmpVar := func(v *lvar) string {
		return split(f, func(g *Facts) string {
			c := newCmp(q.E, g, io.St.Mem, so.St.Mem)
			return q.cmpVars(c, v, io.St, so.St)
		})
	}
	for _, v := range at.iv {
		if v.der != nil {
			x, _ := readVar(io.St, v)
			w, _ := readVar(io.St, v.der)
			t := v.derived(w.(*Term))
			if why := split(f, func(g *Facts) string { return newCmp(q.E, g, io.St.Mem, so.St.Mem).val(x, t, false) }); why != "" {
				if debug {
					fmt.Printf("  [%s] ban %s from %s: %s\n", q.Name, v.name, v.der.name, why)
				}
				lv.banned[[3]interface{}{v.id, v.der.id, 3}] = true
				lv.dirty = true
			}
			continue
		}
		if v.part == nil {
			continue
		}
		if why := cmpVar(v); why != "" {
			if debug {
				fmt.Printf("  [%s] ban %s ~ %s: %s\n", q.Name, v.name, v.part.name, why)
			}
			lv.banned[[3]interface{}{v.id, v.part.id, v.mode}] = true
			lv.dirty = true
		}
	}
	if lv.dirty {
		return
	}
	for _, inv := range at.invs {
		if lv.dropped[inv.id] {
			continue
		}
		get := func(v *lvar) Value {
			for _, s := range at.sv {
				if s == v {
					x, _ := readVar(so.St, v)
					return x
				}
			}
			x, _ := readVar(io.St, v)
			return x
		}
		t := inv.chk(get)
		if v, ok := f.Decide(t); !ok || !v {
			if debug {
				fmt.Printf("  [%s] drop %s: %s\n", q.Name, inv.id, t)
			}
			lv.dropped[inv.id] = true
			lv.dirty = true
		}
	}
	if lv.isDirty() {
		return
	}
	var bad *Key
	why := split(f, func(g *Facts) string {
		c := newCmp(q.E, g, io.St.Mem, so.St.Mem)
		c.priv = lv.priv
		w := c.shared()
		if w != "" {
			bad = c.bad
		}
		return w
	})
	if why != "" {
		if bad != nil && !strings.Contains(bad.Shape, "[]") && len(lv.priv) < 4 {
			lv.priv[*bad] = true
			lv.dirty = true
			return
		}
		q.violation(io.St, "after a loop iteration leaves "+why+context(io.St))
	}
}

// cmpVars checks that an implementation variable corresponds to its partner.
func (q *Equiv) cmpVars(c *cmp, v *lvar, si, ss *State) string {
	av, al := readVar(si, v)
	bv, bl := readVar(ss, v.part)
	if v.cont {
		return c.logs(al, bl, v.shape, Int(0), Int(0), nil)
	}
	if v.text {
		sv, ok := av.(SliceV)
		if !ok {
			return diff(av, bv)
		}
		return c.val(q.E.snapshot(si, sv, v.typ.Underlying().(*types.Slice).Elem()), bv, false)
	}
	if v.off != nil {
		return c.val(av, v.from(bv.(*Term)), false)
	}
	return c.val(av, bv, false)
}

// textElem tells whether t is a slice of bytes or characters.
func textElem(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

// textSlice is a slice with the content of a string that is known to be valid
// if it is split into characters.
func textSlice(s StrV, t types.Type) SliceV {
	if sortOf(t.Underlying().(*types.Slice).Elem()).W == 8 {
		obj := NewObj("text")
		o := objTab[obj.ID]
		o.defKind, o.defStr = 's', s
		return SliceV{Arr: obj, Off: Int(0), Len: s.Len, Cap: MarkNonNeg(Sym(SInt, fmt.Sprintf("cap%d", nextID())))}
	}
	arr := App(SOpaque, "vrunes", strTerm(s))
	vrunes[arr] = s
	return SliceV{Arr: arr, Off: Int(0), Len: MarkNonNeg(App(SInt, "runecount", strTerm(s))), Cap: MarkNonNeg(Sym(SInt, fmt.Sprintf("cap%d", nextID())))}
}

var vrunes = map[*Term]StrV{}

// from is the value of v when its partner is t.
func (v *lvar) from(t *Term) *Term {
	x := Conv(t, v.off.Sort())
	if v.neg {
		return Sub(v.off, x)
	}
	return Add(x, v.off)
}

func phis(st *State) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range st.top().Blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (q *Equiv) vars(st *State, lv *loopLevel, priv map[Key]bool) []*lvar {
	var out []*lvar
	for _, p := range phis(st) {
		out = append(out, &lvar{id: p, name: p.Comment, typ: p.Type(), entry: st.top().Env[p]})
	}
	for _, k := range lv.order {
		if !isFresh(TermByID(k.Obj)) && !priv[k] {
			continue
		}
		v := &lvar{id: k, name: TermByID(k.Obj).S, typ: lv.mod[k], shape: k.Shape}
		if i := strings.IndexByte(v.name, ':'); i >= 0 {
			v.name = v.name[i+1:]
		}
		if strings.Contains(k.Shape, "[]") {
			v.cont = true
			v.log = st.Mem.log(k)
		} else {
			v.entry = st.Mem.log(k).read(st.Facts, k.Shape, nil, v.typ)
		}
		out = append(out, v)
	}
	return out
}

func setVar(st *State, v *lvar, x Value, l *Log) {
	switch id := v.id.(type) {
	case *ssa.Phi:
		st.top().Env[id] = x
	case Key:
		if v.cont {
			st.Mem.logs[id] = l
		} else {
			old := st.Mem.log(id)
			st.Mem.logs[id] = &Log{Kind: old.Kind, Obj: old.Obj, Ver: old.Ver, Str: old.Str, Ent: []Entry{{Val: x, T: v.typ}}}
		}
	}
}

// loopCtx names a loop by its call stack.
func loopCtx(st *State) string {
	var sb strings.Builder
	for _, f := range st.Frames {
		fmt.Fprintf(&sb, "%p/", f.Site)
	}
	fmt.Fprintf(&sb, "%s#%d", st.top().Fn, st.top().Blk.Index)
	return sb.String()
}

// loop relates one loop of the implementation with one loop of the model.
func (q *Equiv) loop(io, so *Outcome) {
	pairs := map[[2]int]bool{}
	priv := map[Key]bool{}
	var why string
	for {
		var bad *Key
		why = split(io.St.Facts, func(g *Facts) string {
			c := newCmp(q.E, g, io.St.Mem, so.St.Mem)
			c.priv = priv
			w := c.shared()
			for k := range c.pairs {
				pairs[k] = true
			}
			if w != "" {
				bad = c.bad
			}
			return w
		})
		if why == "" || bad == nil || strings.Contains(bad.Shape, "[]") || len(priv) >= 12 {
			break
		}
		priv[*bad] = true
	}
	if why != "" {
		q.violation(io.St, "before a loop leaves "+why+context(io.St))
		return
	}
	q.Loops++
	if q.MaxLoops > 0 && q.Loops > q.MaxLoops || q.gaveUp || q.E.TimedOut {
		if !q.gaveUp {
			q.gaveUp = true
			q.violation(io.St, "too many loops to relate")
		}
		return
	}
	birth := nextID()
	ctx := loopCtx(io.St) + "|" + loopCtx(so.St)
	if q.hints == nil {
		q.hints = map[string]*pairLevel{}
	}
	mark := len(q.Viol)
	if h := q.hints[ctx]; h != nil {
		if q.loopWith(h, pairs, priv, birth, ctx, io, so) || q.dirtyAbove() {
			return
		}
		delete(q.hints, ctx)
		q.Viol = q.Viol[:mark]
	}
	q.loopWith(nil, pairs, priv, birth, ctx, io, so)
}

func (q *Equiv) loopWith(h *pairLevel, pairs map[[2]int]bool, priv map[Key]bool, birth int, ctx string, io, so *Outcome) bool {
	lv := &pairLevel{impl: q.newLevel(io.St, birth), spec: q.newLevel(so.St, birth), banned: map[[3]interface{}]bool{}, dropped: map[string]bool{}, pos: io.St.Pos(q.Fset), pairs: pairs, priv: map[Key]bool{}}
	for k := range priv {
		lv.priv[k] = true
	}
	if h != nil {
		for k := range h.priv {
			lv.priv[k] = true
		}
		for k := range h.banned {
			lv.banned[k] = true
		}
		for k := range h.dropped {
			lv.dropped[k] = true
		}
	}
	mark := len(q.Viol)
	max := q.MaxAttempts
	if max == 0 {
		max = 120
	}
	if h == nil {
		q.discover(lv.impl, io.St, false)
		q.discover(lv.spec, so.St, true)
		if q.dirtyAbove() {
			return true
		}
	}
	// First infer how the two loops correspond, looking at iterations only.
	for n := 0; ; n++ {
		if n > max || q.E.TimedOut {
			q.Viol = q.Viol[:mark]
			q.violation(io.St, "loop could not be related to the model's")
			return false
		}
		q.Attempts++
		q.Viol = q.Viol[:mark]
		lv.dirty, lv.impl.dirty, lv.spec.dirty = false, false, false
		q.spread(lv, pairs)
		q.attempt(lv, io, so, true)
		q.levels = q.levels[:len(q.levels)-1]
		if q.dirtyAbove() {
			return true
		}
		if !lv.isDirty() {
			break
		}
	}
	if len(q.Viol) > mark {
		return false
	}
	q.hints[ctx] = lv
	// Then follow the exits.
	q.attempt(lv, io, so, false)
	q.levels = q.levels[:len(q.levels)-1]
	if lv.isDirty() && !q.dirtyAbove() {
		q.violation(io.St, "loop exits change what the loop was taken to do")
	}
	return true
}

// discover finds what one side's loop changes, by following that side alone.
func (q *Equiv) discover(lv *loopLevel, st *State, spec bool) {
	var upper []*loopLevel
	for _, l := range q.levels {
		if spec {
			upper = append(upper, l.spec)
		} else {
			upper = append(upper, l.impl)
		}
	}
	budget := 400
	q.explore(lv, st, upper, &budget)
	lv.dirty = false
}

func (q *Equiv) explore(lv *loopLevel, st *State, upper []*loopLevel, budget *int) {
	for n := 0; n < 8; n++ {
		lv.dirty = false
		lv.bodyOnly = true
		q.follow(lv, st, upper, budget)
		if !lv.dirty || *budget <= 0 {
			return
		}
	}
}

// follow runs one arbitrary iteration of a loop (and, unless bodyOnly, what
// comes after it).
func (q *Equiv) follow(lv *loopLevel, st *State, upper []*loopLevel, budget *int) {
	s := st.Clone()
	s.HasOr, s.Oracle, s.anc = false, nil, nil
	for _, fr := range s.Frames {
		fr.unroll = nil
	}
	tag := fmt.Sprintf("L%d", nextID())
	for i, v := range q.vars(s, lv, nil) {
		nm := fmt.Sprintf("%s.%s%d", tag, v.name, i)
		if v.cont {
			setVar(s, v, nil, &Log{Kind: 'i', Obj: Sym(SOpaque, nm), Ver: tag})
		} else {
			setVar(s, v, SymValue(nm, v.typ), nil)
		}
	}
	for _, k := range lv.order {
		obj := TermByID(k.Obj)
		if isFresh(obj) {
			continue
		}
		if strings.Contains(k.Shape, "[]") {
			s.Mem.logs[k] = &Log{Kind: 'i', Obj: obj, Ver: tag}
		} else {
			s.Mem.logs[k] = &Log{Kind: 'i', Obj: obj, Ver: tag, Ent: []Entry{{Val: SymValue(k.Shape+"@"+tag, lv.mod[k], obj), T: lv.mod[k]}}}
		}
	}
	act := append(append([]*loopLevel(nil), upper...), lv)
	q.E.active = act
	mp := q.E.MaxPaths
	q.E.MaxPaths = *budget
	outs := q.E.Run(s)
	q.E.MaxPaths = mp
	*budget -= len(outs)
	for _, o := range outs {
		if *budget <= 0 {
			return
		}
		if o.Kind != OCut {
			continue
		}
		in := q.newLevel(o.St, nextID())
		q.explore(in, o.St, act, budget)
		in.bodyOnly = false
		q.follow(in, o.St, act, budget)
	}
}

func (q *Equiv) newLevel(st *State, birth int) *loopLevel {
	l := &loopLevel{depth: len(st.Frames) - 1, blk: st.top().Blk, birth: birth, mod: map[Key]types.Type{}}
	l.body = q.E.loopsOf(st.top().Fn).body[l.blk]
	return l
}

// spread assumes that corresponding objects are changed on both sides.
func (q *Equiv) spread(lv *pairLevel, pairs map[[2]int]bool) {
	var ps [][2]int
	for k := range pairs {
		if k[0] != k[1] {
			ps = append(ps, k)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] || ps[i][0] == ps[j][0] && ps[i][1] < ps[j][1] })
	for _, pr := range ps {
		for side := 0; side < 2; side++ {
			from, to := lv.impl, lv.spec
			if side == 1 {
				from, to = lv.spec, lv.impl
			}
			for _, k := range append([]Key(nil), from.order...) {
				if k.Obj == pr[side] {
					d := to.dirty
					to.addMod(Key{pr[1-side], k.Shape}, from.mod[k])
					to.dirty = d
				}
			}
		}
	}
}

func (q *Equiv) attempt(lv *pairLevel, io, so *Outcome, infer bool) {
	lv.impl.bodyOnly, lv.spec.bodyOnly = infer, infer
	lv.infer = infer
	si, ss := io.St.Clone(), so.St.Clone()
	facts := io.St.Facts.Clone()
	ss.Facts = facts.Clone()
	tag := fmt.Sprintf("L%d", nextID())
	at := &loopAttempt{sv: q.vars(ss, lv.spec, lv.priv), iv: q.vars(si, lv.impl, lv.priv)}
	lv.cur = at
	used := map[string]int{}
	fresh := func(v *lvar) (Value, *Log) {
		nm := v.name
		used[nm]++
		if used[nm] > 1 {
			nm = fmt.Sprintf("%s_%d", nm, used[nm])
		}
		if v.cont {
			return nil, &Log{Kind: 'i', Obj: Sym(SOpaque, tag+"."+nm), Ver: tag}
		}
		return SymValue(tag+"."+nm, v.typ), nil
	}
	type hv struct {
		v Value
		l *Log
	}
	vals := map[*lvar]hv{}
	for _, v := range at.sv {
		x, l := fresh(v)
		vals[v] = hv{x, l}
		v.sym = x
		setVar(ss, v, x, l)
	}
	for _, v := range at.iv {
		q.partner(lv, at, v, io, so)
		if v.der != nil {
			continue
		}
		if v.part != nil {
			h := vals[v.part]
			x, l := h.v, h.l
			if v.off != nil {
				x = v.from(x.(*Term))
			}
			if v.text {
				x = textSlice(x.(StrV), v.typ)
			}
			v.sym = x
			setVar(si, v, x, l)
		} else {
			x, l := fresh(v)
			v.sym = x
			setVar(si, v, x, l)
		}
	}
	for _, v := range at.iv {
		if v.der == nil {
			continue
		}
		var l *Log
		if w, ok := v.der.sym.(*Term); ok {
			v.sym = v.derived(w)
		} else {
			v.der = nil
			v.sym, l = fresh(v)
		}
		setVar(si, v, v.sym, l)
	}
	// Shared memory either side may change in the loop.
	shared := map[Key]types.Type{}
	for _, l := range []*loopLevel{lv.spec, lv.impl} {
		for _, k := range l.order {
			if !isFresh(TermByID(k.Obj)) && !lv.priv[k] {
				shared[k] = l.mod[k]
			}
		}
	}
	var ks []Key
	for k := range shared {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].Obj < ks[j].Obj || ks[i].Obj == ks[j].Obj && ks[i].Shape < ks[j].Shape
	})
	for _, k := range ks {
		obj := TermByID(k.Obj)
		var l *Log
		if strings.Contains(k.Shape, "[]") {
			l = &Log{Kind: 'i', Obj: obj, Ver: tag}
		} else {
			l = &Log{Kind: 'i', Obj: obj, Ver: tag, Ent: []Entry{{Val: SymValue(k.Shape+"@"+tag, shared[k], obj), T: shared[k]}}}
		}
		si.Mem.logs[k] = l
		ss.Mem.logs[k] = l
	}
	// Candidate invariants on the unknown values.
	var ints []*lvar
	for _, v := range at.sv {
		if _, ok := v.sym.(*Term); ok && !v.cont && v.sym.(*Term).IsInt() {
			ints = append(ints, v)
		}
	}
	for _, v := range at.iv {
		if v.part == nil && v.der == nil && !v.cont {
			if t, ok := v.sym.(*Term); ok && t.IsInt() {
				ints = append(ints, v)
			}
		}
	}
	add := func(id string, chk func(get func(*lvar) Value) *Term) {
		if lv.dropped[id] {
			return
		}
		t := chk(func(v *lvar) Value { return v.sym })
		if _, ok := facts.Decide(t); ok {
			return
		}
		at.invs = append(at.invs, invariant{id: id, chk: chk})
		facts.Assume(t, true)
	}
	// A condition that stays what it is to begin with.
	for i, v := range append(append([]*lvar(nil), at.sv...), at.iv...) {
		v := v
		t, ok := v.sym.(*Term)
		if !ok || v.cont || !t.Bool || i >= len(at.sv) && (v.part != nil || v.der != nil) {
			continue
		}
		en, ok := v.entry.(*Term)
		if !ok {
			continue
		}
		if d, ok := io.St.Facts.Decide(en); ok {
			add(fmt.Sprintf("%v stays", v.id), func(get func(*lvar) Value) *Term {
				if t := get(v).(*Term); d {
					return t
				} else {
					return Not(t)
				}
			})
		}
	}
	for _, v := range ints {
		v := v
		en := v.entry.(*Term)
		add(fmt.Sprintf("%v>=", v.id), func(get func(*lvar) Value) *Term { return Le(en, get(v).(*Term)) })
		if d, ok := io.St.Facts.Decide(Eq(en, Const(en.Sort(), 0))); ok && !d {
			add(fmt.Sprintf("%v!=0", v.id), func(get func(*lvar) Value) *Term {
				t := get(v).(*Term)
				return Not(Eq(t, Const(t.Sort(), 0)))
			})
		}
		add(fmt.Sprintf("%v<=", v.id), func(get func(*lvar) Value) *Term { return Le(get(v).(*Term), en) })
	}
	for _, side := range []struct {
		l  *loopLevel
		st *State
	}{{lv.spec, so.St}, {lv.impl, io.St}} {
		for _, b := range q.bounds(side.l, side.st) {
			for _, v := range ints {
				v, b, en := v, b.t, v.entry.(*Term)
				if en.Sort() != b.Sort() {
					continue
				}
				id := fmt.Sprintf("%v<%s", v.id, b)
				if d, ok := io.St.Facts.Decide(Lt(en, b)); ok && d && !lv.dropped[id] {
					add(id, func(get func(*lvar) Value) *Term { return Lt(get(v).(*Term), b) })
				} else if d, ok := io.St.Facts.Decide(Le(en, b)); ok && d {
					add("="+id, func(get func(*lvar) Value) *Term { return Le(get(v).(*Term), b) })
				}
			}
		}
	}
	for i, v := range ints {
		for _, w := range ints[:i] {
			v, w := v, w
			x, y := v.entry.(*Term), w.entry.(*Term)
			if x.Sort() != y.Sort() {
				continue
			}
			d := facts.norm(facts.lin(x).addTo(facts.lin(y), -1))
			if !d.isConst() {
				continue
			}
			off := ConstI(x.Sort(), d.C)
			add(fmt.Sprintf("%v=%v", v.id, w.id), func(get func(*lvar) Value) *Term {
				return Eq(get(v).(*Term), Add(get(w).(*Term), off))
			})
		}
	}
	if facts.Bot {
		facts.Bot = false
	}
	for _, s := range []*State{si, ss} {
		s.Facts = facts.Clone()
		s.anc = nil
		for _, fr := range s.Frames {
			fr.unroll = nil
		}
	}
	q.levels = append(q.levels, lv)
	q.relate(si, ss)
}

type bound struct{ t *Term }

// bounds lists the values from outside a loop that something is compared with
// in it.
func (q *Equiv) bounds(l *loopLevel, st *State) []bound {
	if l.depth >= len(st.Frames) {
		return nil
	}
	f := st.Frames[l.depth]
	var out []bound
	seen := map[*Term]bool{}
	for _, b := range f.Fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM:
			default:
				continue
			}
			for _, o := range []ssa.Value{x.X, x.Y} {
				var t *Term
				if c, ok := o.(*ssa.Const); ok {
					if c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() != 0 {
						t, _ = q.E.constVal(c).(*Term)
					}
				} else if v := q.entryValue(l, st, f, o, 0); v != nil {
					t, _ = v.(*Term)
				}
				if t != nil && t.IsInt() && !seen[t] {
					seen[t] = true
					out = append(out, bound{t})
				}
			}
		}
	}
	return out
}

// entryValue evaluates an operand of a loop that is computed from values of
// outside only, in the state in which the loop is entered.
func (q *Equiv) entryValue(l *loopLevel, st *State, f *Frame, o ssa.Value, depth int) (v Value) {
	in, ok := o.(ssa.Instruction)
	if !ok || !l.body[in.Block()] {
		switch o.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return q.E.val(st, f, o)
		}
		return f.Env[o]
	}
	if depth > 6 {
		return nil
	}
	switch x := o.(type) {
	case *ssa.FieldAddr, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp, *ssa.Field:
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return nil
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" && b.Name() != "cap" {
			return nil
		}
	default:
		return nil
	}
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	c := st.Clone()
	g := c.Frames[l.depth]
	c.Frames = c.Frames[:l.depth+1]
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		if _, ok := (*op).(*ssa.Builtin); ok {
			continue
		}
		w := q.entryValue(l, st, f, *op, depth+1)
		if w == nil {
			return nil
		}
		g.Env[*op] = w
	}
	if out, forks := q.E.step(c, g, in); out != nil || forks != nil {
		return nil
	}
	return g.Env[o]
}

// partner picks the model variable an implementation variable corresponds to.
func (q *Equiv) partner(lv *pairLevel, at *loopAttempt, v *lvar, io, so *Outcome) {
	f := io.St.Facts
	mode := 0
	try := func(p *lvar) bool {
		if p.cont != v.cont || lv.banned[[3]interface{}{v.id, p.id, mode}] {
			return false
		}
		if mode > 0 {
			// at a distance fixed by what the loop starts with
			x, ok1 := v.entry.(*Term)
			y, ok2 := p.entry.(*Term)
			if v.cont || !ok1 || !ok2 || !x.IsInt() || x.Sort() != y.Sort() {
				return false
			}
			v.part, v.mode, v.neg = p, mode, mode == 2
			if v.neg {
				v.off = Add(x, y)
			} else {
				v.off = Sub(x, y)
			}
			return true
		}
		if v.cont {
			if p.shape != v.shape {
				return false
			}
			if split(f, func(g *Facts) string {
				return newCmp(q.E, g, io.St.Mem, so.St.Mem).logs(v.log, p.log, v.shape, Int(0), Int(0), nil)
			}) != "" {
				return false
			}
			v.part = p
			return true
		}
		x, ok1 := v.entry.(*Term)
		y, ok2 := p.entry.(*Term)
		if ok1 != ok2 {
			return false
		}
		if ok1 && x.IsInt() && y.IsInt() {
			if x.Sort() == y.Sort() && f.Equal(x, y) {
				v.part = p
				return true
			}
			d := f.norm(f.lin(x).addTo(f.lin(y), -1))
			if !d.isConst() {
				return false
			}
			v.part, v.off = p, ConstI(x.Sort(), d.C)
			return true
		}
		if !v.cont && isString(p.typ) && textElem(v.typ) {
			sv, ok := v.entry.(SliceV)
			if !ok {
				return false
			}
			if split(f, func(g *Facts) string {
				t := io.St.Clone()
				t.Facts = g
				elem := v.typ.Underlying().(*types.Slice).Elem()
				return newCmp(q.E, g, io.St.Mem, so.St.Mem).val(q.E.snapshot(t, sv, elem), p.entry, false)
			}) != "" {
				return false
			}
			// A string split into characters has to be a valid one to begin with.
			if c, ok := p.entry.(StrV); !ok || !f.Equal(c.Len, Int(0)) && sortOf(v.typ.Underlying().(*types.Slice).Elem()).W != 8 {
				return false
			}
			v.part, v.text = p, true
			return true
		}
		if !types.Identical(v.typ.Underlying(), p.typ.Underlying()) {
			return false
		}
		if split(f, func(g *Facts) string {
			return newCmp(q.E, g, io.St.Mem, so.St.Mem).val(v.entry, p.entry, false)
		}) != "" {
			return false
		}
		v.part = p
		return true
	}
	rank := func(p *lvar) int {
		a, ok1 := v.id.(Key)
		b, ok2 := p.id.(Key)
		if ok1 && ok2 && lv.pairs[[2]int{a.Obj, b.Obj}] && a.Shape == b.Shape {
			return 0
		}
		if p.name == v.name && ok1 == ok2 {
			return 1
		}
		return 2
	}
	for mode = 0; mode < 3; mode++ {
		if mode == 1 && q.derive(lv, at.iv, v) {
			return
		}
		for pass := 0; pass < 3; pass++ {
			for _, p := range at.sv {
				if rank(p) == pass && try(p) {
					return
				}
			}
		}
	}
}

// CallArgs interprets fn alone, on all paths, and hands every outside call
// made on a path to see, with the facts of the whole path. It reports whether
// all paths could be followed to the end.
func CallArgs(e *Engine, fn *ssa.Function, args []Value, mem *Mem, see func(ev Event, f *Facts)) (paths int, why string) {
	e.active = nil
	for _, o := range e.Run(e.NewState(fn, args, NewFacts(), mem.Clone())) {
		switch o.Kind {
		case OReturn, OPanic:
			paths++
		default:
			why = "a path cannot be followed to the end: " + o.Msg
		}
		for _, ev := range o.St.Events {
			see(ev, o.St.Facts)
		}
	}
	return
}
