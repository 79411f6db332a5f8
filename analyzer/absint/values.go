package absint

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term, Ptr, SliceV, StrV, StructV, TupleV, FuncV, IfaceV.
type Value interface{}

// Step is one selector of an address: a field or an index.
type Step struct {
	Field string
	Idx   *Term
}

// Ptr is an address: an abstract object and a path into it.
type Ptr struct {
	Obj  *Term
	Path []Step
}

// SliceV is a slice header over the array object Arr. Pre is non-empty for an element of a slice of slices: Arr then
// names the whole family of arrays and Pre selects one.
type SliceV struct {
	Arr           *Term
	Pre           []Step
	Off, Len, Cap *Term
}

// StrV is a string: bytes [Off, Off+Len) of the immutable byte sequence Arr.
type StrV struct {
	Arr      *Term
	Off, Len *Term
}

type StructV struct {
	T *types.Struct
	F []Value
}
type TupleV []Value

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Sym  *Term
}

type IfaceV struct {
	Dyn types.Type // nil when unknown
	Val Value
	Sym *Term // identity when Dyn is unknown; NilObj for nil
}

var NilObj = mk(OConst, SOpaque, 0, "nil")

type objInfo struct {
	birth   int
	fresh   bool
	defKind byte  // default content: 'i' symbolic, 'z' zero, 's' bytes of a string
	defObj  *Term // object naming the symbolic content
	defVer  string
	defStr  StrV
	defNote string
	parent  *Term // array whose memory this one may still be in
}

var (
	objTab  = map[int]*objInfo{}
	counter int
)

func nextID() int { counter++; return counter }

func objOf(t *Term) *objInfo {
	if o, ok := objTab[t.ID]; ok {
		return o
	}
	o := &objInfo{defKind: 'i', defObj: t, defVer: "0"}
	objTab[t.ID] = o
	return o
}

// NewObj allocates a fresh zeroed abstract object.
func NewObj(hint string) *Term {
	n := nextID()
	t := Sym(SOpaque, fmt.Sprintf("new%d:%s", n, hint))
	objTab[t.ID] = &objInfo{birth: n, fresh: true, defKind: 'z'}
	return t
}

func isFresh(t *Term) bool { o, ok := objTab[t.ID]; return ok && o.fresh }
func birthOf(t *Term) int {
	if o, ok := objTab[t.ID]; ok && o.birth > 0 {
		return o.birth
	}
	b := nameBirth(t.S)
	for _, a := range t.Args {
		if x := birthOf(a); x > b {
			b = x
		}
	}
	return b
}

func sortOf(t types.Type) Sort {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return SOpaque
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.Int, types.Int64, types.UntypedInt:
		return SInt
	case types.Int8:
		return Sort{8, true, false}
	case types.Int16:
		return Sort{16, true, false}
	case types.Int32, types.UntypedRune:
		return Sort{32, true, false}
	case types.Uint, types.Uint64, types.Uintptr:
		return Sort{64, false, false}
	case types.Uint8:
		return SU8
	case types.Uint16:
		return Sort{16, false, false}
	case types.Uint32:
		return SU32
	}
	return SOpaque
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func appOrSym(so Sort, name string, args []*Term) *Term {
	if len(args) == 0 {
		return Sym(so, name)
	}
	return App(so, name, args...)
}

// SymValue is an unknown value of type t named by (name, args).
func SymValue(name string, t types.Type, args ...*Term) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			return symStr(name, args)
		}
		return appOrSym(sortOf(t), name, args)
	case *types.Slice:
		var fam []*Term
		var pre []Step
		for _, a := range args {
			if a.IsInt() && strings.HasPrefix(name, "[]") {
				pre = append(pre, Step{Idx: a})
			} else {
				fam = append(fam, a)
			}
		}
		return SliceV{
			Arr: appOrSym(SOpaque, name, fam),
			Pre: pre,
			Off: Int(0),
			Len: MarkNonNeg(appOrSym(SInt, "len:"+name, args)),
			Cap: MarkNonNeg(appOrSym(SInt, "cap:"+name, args)),
		}
	case *types.Pointer:
		return Ptr{Obj: appOrSym(SOpaque, name, args)}
	case *types.Struct:
		s := StructV{T: u}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, SymValue(name+"."+u.Field(i).Name(), u.Field(i).Type(), args...))
		}
		return s
	case *types.Interface:
		return IfaceV{Sym: appOrSym(SOpaque, name, args)}
	case *types.Signature:
		return FuncV{Sym: appOrSym(SOpaque, name, args)}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, SymValue(fmt.Sprintf("%s#%d", name, i), u.At(i).Type(), args...))
		}
		return tv
	}
	return appOrSym(SOpaque, name, args)
}

func symStr(name string, args []*Term) StrV {
	return StrV{Arr: appOrSym(SOpaque, name, args), Off: Int(0), Len: MarkNonNeg(appOrSym(SInt, "len:"+name, args))}
}

func constStr(s string) StrV {
	return StrV{Arr: StrConst(s), Off: Int(0), Len: Int(int64(len(s)))}
}

// ZeroValue is the zero value of t.
func ZeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			return constStr("")
		}
		if so := sortOf(t); so.W > 0 {
			return Const(so, 0)
		}
		return mk(OConst, SOpaque, 0, "zero:"+t.String())
	case *types.Slice:
		return SliceV{Arr: NilObj, Off: Int(0), Len: Int(0), Cap: Int(0)}
	case *types.Pointer:
		return Ptr{Obj: NilObj}
	case *types.Struct:
		s := StructV{T: u}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, ZeroValue(u.Field(i).Type()))
		}
		return s
	case *types.Interface:
		return IfaceV{Sym: NilObj}
	case *types.Signature:
		return FuncV{Sym: NilObj}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ZeroValue(u.At(i).Type()))
		}
		return tv
	case *types.Array:
		if u.Len() <= 64 {
			s := StructV{}
			for i := int64(0); i < u.Len(); i++ {
				s.F = append(s.F, ZeroValue(u.Elem()))
			}
			return s
		}
	}
	return NilObj
}

func strTerm(s StrV) *Term {
	if s.Len.IsConst() && s.Len.K == 0 {
		return StrConst("")
	}
	if c, ok := s.Arr.StrVal(); ok {
		if s.Off.IsConst() && s.Len.IsConst() {
			lo, n := s.Off.SVal(), s.Len.SVal()
			if lo >= 0 && n >= 0 && lo+n <= int64(len(c)) {
				return StrConst(c[lo : lo+n])
			}
		}
	}
	if s.Off.IsConst() && s.Off.K == 0 && s.Len == strLen(s.Arr) {
		return s.Arr
	}
	return App(SOpaque, "substr", s.Arr, s.Off, s.Len)
}

// strLen is the length of the whole byte sequence named by a term.
func strLen(a *Term) *Term {
	if c, ok := a.StrVal(); ok {
		return Int(int64(len(c)))
	}
	switch {
	case a.Op == OSym:
		return MarkNonNeg(Sym(SInt, "len:"+a.S))
	case a.Op == OApp && a.S == "cat":
		return Add(strLen(a.Args[0]), strLen(a.Args[1]))
	case a.Op == OApp && (a.S == "substr" || a.S == "snap"):
		return a.Args[2]
	case a.Op == OApp:
		return MarkNonNeg(App(SInt, "len:"+a.S, a.Args...))
	}
	return MarkNonNeg(App(SInt, "strlen", a))
}

func strOfTerm(t *Term) StrV { return StrV{Arr: t, Off: Int(0), Len: strLen(t)} }

func byteAt(s StrV, i *Term) *Term {
	p := Add(s.Off, i)
	if c, ok := s.Arr.StrVal(); ok && p.IsConst() {
		if v := p.SVal(); v >= 0 && v < int64(len(c)) {
			return Const(SU8, uint64(c[v]))
		}
	}
	if sn := snapTab[s.Arr]; sn != nil {
		if t, ok := sn.log.base("[]", []*Term{Add(sn.off, p)}, types.Typ[types.Uint8]).(*Term); ok {
			return t
		}
	}
	return App(SU8, "byte", s.Arr, p)
}

// snap is the memory a string was taken from.
type snap struct {
	log *Log
	off *Term
}

var snapTab = map[*Term]*snap{}

// valTerm is a scalar standing for the identity of a value.
func valTerm(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Ptr:
		t := x.Obj
		for _, s := range x.Path {
			if s.Idx != nil {
				t = App(SOpaque, "&[]", t, s.Idx)
			} else {
				t = App(SOpaque, "&."+s.Field, t)
			}
		}
		return t
	case SliceV:
		return App(SOpaque, "slice", valTerm(Ptr{Obj: x.Arr, Path: x.Pre}), x.Off, x.Len)
	case StrV:
		return strTerm(x)
	case StructV:
		var as []*Term
		for _, f := range x.F {
			as = append(as, valTerm(f))
		}
		return App(SOpaque, "struct", as...)
	case TupleV:
		var as []*Term
		for _, f := range x {
			as = append(as, valTerm(f))
		}
		return App(SOpaque, "tuple", as...)
	case FuncV:
		if x.Fn != nil {
			var as []*Term
			for _, f := range x.Bind {
				as = append(as, valTerm(f))
			}
			return App(SOpaque, "fn:"+x.Fn.String(), as...)
		}
		return x.Sym
	case IfaceV:
		if x.Dyn != nil {
			return App(SOpaque, "iface:"+types.TypeString(x.Dyn, nil), valTerm(x.Val))
		}
		return x.Sym
	}
	return Sym(SOpaque, "?")
}

// Show renders a value for reports.
func Show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return clip(x.String())
	case Ptr:
		s := "&" + x.Obj.String()
		for _, p := range x.Path {
			if p.Idx != nil {
				s += "[" + p.Idx.String() + "]"
			} else {
				s += "." + p.Field
			}
		}
		return clip(s)
	case SliceV:
		return clip(fmt.Sprintf("slice(%s, off %s, len %s)", Show(Ptr{Obj: x.Arr, Path: x.Pre}), x.Off, x.Len))
	case StrV:
		return clip("string " + strTerm(x).String())
	case StructV:
		var p []string
		for _, f := range x.F {
			p = append(p, Show(f))
		}
		return clip("{" + strings.Join(p, ", ") + "}")
	case TupleV:
		var p []string
		for _, f := range x {
			p = append(p, Show(f))
		}
		return clip("(" + strings.Join(p, ", ") + ")")
	case FuncV:
		if x.Fn != nil {
			return x.Fn.String()
		}
		return x.Sym.String()
	case IfaceV:
		if x.Dyn != nil {
			return clip(fmt.Sprintf("%s(%s)", x.Dyn, Show(x.Val)))
		}
		return x.Sym.String()
	}
	return fmt.Sprintf("%T", v)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// nameBirth extracts the creation number from names such as "ev12:data",
// "L7.x" or ".units@L7".
func nameBirth(s string) int {
	b := 0
	try := func(x string) {
		for _, p := range []string{"ev", "L", "new"} {
			if strings.HasPrefix(x, p) {
				n, d := 0, 0
				for _, c := range x[len(p):] {
					if c < '0' || c > '9' {
						break
					}
					n, d = n*10+int(c-'0'), d+1
				}
				if d > 0 && n > b {
					b = n
				}
			}
		}
	}
	s = strings.TrimPrefix(strings.TrimPrefix(s, "len:"), "cap:")
	try(s)
	if i := strings.LastIndexByte(s, '@'); i >= 0 {
		try(s[i+1:])
	}
	return b
}

// at is the address of element i (from the start of the array).
func (s SliceV) at(i *Term) Ptr {
	return Ptr{Obj: s.Arr, Path: append(append([]Step(nil), s.Pre...), Step{Idx: i})}
}

// arr is the array object of a slice that is not an element of a slice.
func (s SliceV) flat() SliceV {
	if len(s.Pre) > 0 {
		panic(unsupported("whole-array operation on an inner slice"))
	}
	return s
}
