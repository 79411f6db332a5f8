package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Key names a memory region: all cells of one object with the same path shape
// (indices abstracted to "[]").
type Key struct {
	Obj   int
	Shape string
}

// Entry is one write: either to the cell at Idx, or to the index range
// [Lo, Hi), whose cells take the value of Src at index+Delta.
type Entry struct {
	Idx    []*Term
	Val    Value
	T      types.Type
	Lo, Hi *Term
	Src    *Log
	Delta  *Term
}

// Log is the content of a region: a default and the writes on top of it.
// Logs are immutable.
type Log struct {
	Kind byte // 'i' symbolic, 'z' zero, 's' bytes of a string
	Obj  *Term
	Ver  string
	Str  StrV
	Ent  []Entry
}

type Mem struct {
	logs map[Key]*Log
}

func NewMem() *Mem { return &Mem{logs: map[Key]*Log{}} }

func (m *Mem) Clone() *Mem {
	n := &Mem{logs: make(map[Key]*Log, len(m.logs))}
	for k, v := range m.logs {
		n.logs[k] = v
	}
	return n
}

func (m *Mem) keys() []Key {
	ks := make([]Key, 0, len(m.logs))
	for k := range m.logs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Obj != ks[j].Obj {
			return ks[i].Obj < ks[j].Obj
		}
		return ks[i].Shape < ks[j].Shape
	})
	return ks
}

func (m *Mem) log(k Key) *Log {
	if l, ok := m.logs[k]; ok {
		return l
	}
	return defaultLog(TermByID(k.Obj))
}

func defaultLog(obj *Term) *Log {
	o := objOf(obj)
	return &Log{Kind: o.defKind, Obj: o.defObj, Ver: o.defVer, Str: o.defStr}
}

func sameBase(f *Facts, a, b *Log) bool {
	if a == b {
		return true
	}
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case 'i':
		return a.Ver == b.Ver && (a.Obj == b.Obj || f.Equal(a.Obj, b.Obj))
	case 's':
		return f.Equal(a.Str.Arr, b.Str.Arr) && f.Equal(a.Str.Off, b.Str.Off)
	}
	return true
}

func (l *Log) add(e Entry) *Log {
	n := *l
	n.Ent = append(append(make([]Entry, 0, len(l.Ent)+1), l.Ent...), e)
	return &n
}

// forkReq asks the interpreter to split the path on a condition.
type forkReq struct{ cond *Term }

func ask(f *Facts, c *Term) bool {
	if v, ok := f.Decide(c); ok {
		return v
	}
	panic(&forkReq{c})
}

func shapeOf(p Ptr) (string, []*Term) {
	var sb strings.Builder
	var idx []*Term
	for _, s := range p.Path {
		if s.Idx != nil {
			sb.WriteString("[]")
			idx = append(idx, s.Idx)
		} else {
			sb.WriteString("." + s.Field)
		}
	}
	return sb.String(), idx
}

func (l *Log) base(shape string, idx []*Term, t types.Type) Value {
	switch l.Kind {
	case 'z':
		return ZeroValue(t)
	case 's':
		return byteAt(StrV{Arr: l.Str.Arr, Off: l.Str.Off, Len: l.Str.Len}, idx[0])
	}
	if sp, ok := splitTab[l.Obj]; ok && len(idx) == 1 && idx[0].IsConst() && idx[0].SVal() == 0 {
		return sp
	}
	args := append([]*Term{l.Obj}, idx...)
	v := SymValue(shape+"@"+l.Ver, t, args...)
	return v
}

// read is the content of a region at idx; it may request a path split.
func (l *Log) read(f *Facts, shape string, idx []*Term, t types.Type) Value {
	for n := len(l.Ent) - 1; n >= 0; n-- {
		e := l.Ent[n]
		if e.Src != nil {
			if ask(f, Lt(idx[0], e.Lo)) || !ask(f, Lt(idx[0], e.Hi)) {
				continue
			}
			ni := append([]*Term{Add(idx[0], e.Delta)}, idx[1:]...)
			return e.Src.read(f, shape, ni, t)
		}
		hit := true
		var unk *Term
		for i := range idx {
			c := Eq(e.Idx[i], idx[i])
			v, ok := f.Decide(c)
			if ok && !v {
				hit = false
				unk = nil
				break
			}
			if !ok && unk == nil {
				unk = c
			}
		}
		if !hit {
			continue
		}
		if unk != nil {
			panic(&forkReq{unk})
		}
		return e.Val
	}
	return l.base(shape, idx, t)
}

// leaf describes one scalar component of a type.
type leaf struct {
	shape string
	typ   types.Type
	path  []Step
}

func leaves(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.shape, l.typ, append([]Step{{Field: u.Field(i).Name()}}, l.path...)})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leaves(u.Elem()) {
					out = append(out, leaf{"[]" + l.shape, l.typ, append([]Step{{Idx: Int(i)}}, l.path...)})
				}
			}
			return out
		}
		return nil
	}
	return []leaf{{"", t, nil}}
}

func (p Ptr) sub(s ...Step) Ptr {
	return Ptr{Obj: p.Obj, Path: append(append([]Step(nil), p.Path...), s...)}
}

// Load reads a value of type t.
func (m *Mem) Load(f *Facts, p Ptr, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := StructV{T: u}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, m.Load(f, p.sub(Step{Field: u.Field(i).Name()}), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			panic(unsupported("load of a large array"))
		}
		s := StructV{}
		for i := int64(0); i < u.Len(); i++ {
			s.F = append(s.F, m.Load(f, p.sub(Step{Idx: Int(i)}), u.Elem()))
		}
		return s
	}
	sh, idx := shapeOf(p)
	return m.log(Key{p.Obj.ID, sh}).read(f, sh, idx, t)
}

// Store writes v of type t. onWrite is told each region written.
func (m *Mem) Store(p Ptr, t types.Type, v Value, onWrite func(Key, types.Type)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			m.Store(p.sub(Step{Field: u.Field(i).Name()}), u.Field(i).Type(), s.F[i], onWrite)
		}
		return
	case *types.Array:
		s, ok := v.(StructV)
		if !ok {
			panic(unsupported("store of a large array"))
		}
		for i := range s.F {
			m.Store(p.sub(Step{Idx: Int(int64(i))}), u.Elem(), s.F[i], onWrite)
		}
		return
	}
	sh, idx := shapeOf(p)
	k := Key{p.Obj.ID, sh}
	if onWrite != nil {
		onWrite(k, t)
	}
	if len(idx) == 0 {
		// A scalar cell: the new value replaces everything.
		l := m.log(k)
		m.logs[k] = &Log{Kind: l.Kind, Obj: l.Obj, Ver: l.Ver, Str: l.Str, Ent: []Entry{{Val: v, T: t}}}
		return
	}
	l := m.log(k)
	// Drop an older write that is overwritten for certain.
	if n := len(l.Ent); n > 0 {
		last := l.Ent[n-1]
		if last.Src == nil && sameTerms(last.Idx, idx) {
			c := *l
			c.Ent = append(append([]Entry(nil), l.Ent[:n-1]...), Entry{Idx: idx, Val: v, T: t})
			m.logs[k] = &c
			return
		}
	}
	m.logs[k] = l.add(Entry{Idx: idx, Val: v, T: t})
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// copyArray makes obj dst start with the present content of src.
func (m *Mem) copyArray(dst, src *Term) {
	if src == NilObj {
		return
	}
	so, do := objOf(src), objOf(dst)
	do.defKind, do.defObj, do.defVer, do.defStr = so.defKind, so.defObj, so.defVer, so.defStr
	for _, k := range m.keys() {
		if k.Obj == src.ID {
			m.logs[Key{dst.ID, k.Shape}] = m.logs[k]
		}
	}
}

// copyRange writes src[so..so+n) over dst[do..do+n), for every leaf of elem.
func (m *Mem) copyRange(dst *Term, do *Term, src *Term, so *Term, n *Term, elem types.Type, onWrite func(Key, types.Type)) {
	type upd struct {
		k Key
		l *Log
		t types.Type
	}
	var ups []upd
	for _, lf := range leaves(elem) {
		sh := "[]" + lf.shape
		sl := m.log(Key{src.ID, sh})
		dk := Key{dst.ID, sh}
		ups = append(ups, upd{dk, m.log(dk).add(Entry{Lo: do, Hi: Add(do, n), Src: sl, Delta: Sub(so, do), T: lf.typ}), lf.typ})
	}
	for _, u := range ups {
		if onWrite != nil {
			onWrite(u.k, u.t)
		}
		m.logs[u.k] = u.l
	}
}

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

func keyName(k Key) string {
	return fmt.Sprintf("%s%s", TermByID(k.Obj), k.Shape)
}

// GlobalObj is the object of a package-level variable.
func GlobalObj(g *ssa.Global) *Term { return Sym(SOpaque, "global:"+g.String()) }

// Forget drops what is known about an object.
func (m *Mem) Forget(obj *Term) {
	for k := range m.logs {
		if k.Obj == obj.ID {
			delete(m.logs, k)
		}
	}
}
