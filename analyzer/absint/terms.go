// Package absint is a path-sensitive abstract interpreter over go/ssa.
//
// It never executes the analysed code: values are hash-consed terms (global
// value numbering), refined per path by a product of abstract domains
// (intervals, GF(2)-affine bit provenance, linear forms, disequalities).
// Calls are inlined, loops are either unrolled (when a loop exit is decided by
// the domains) or abstracted by havoc plus inductively checked candidate
// invariants.
package absint

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OSym
	OAdd
	OSub
	OMul
	OAnd
	OOr
	OXor
	OAndNot
	OShl
	OShr
	OConv
	ODiv
	ORem
	OEq
	OLt
	OLe
	OLNot
	OApp
	OBit
)

var opNames = map[Op]string{OAdd: "+", OSub: "-", OMul: "*", OAnd: "&", OOr: "|", OXor: "^", OAndNot: "&^", OShl: "<<", OShr: ">>", ODiv: "/", ORem: "%", OEq: "==", OLt: "<", OLe: "<="}

// Term is a hash-consed abstract scalar. W is the width in bits of an integer,
// 1 for a boolean (Bool set) and 0 for anything else.
type Term struct {
	ID   int
	Op   Op
	Args []*Term
	K    uint64
	S    string
	W    uint8
	Sg   bool
	Bool bool
}

type Sort struct {
	W    uint8
	Sg   bool
	Bool bool
}

var (
	SBool   = Sort{1, false, true}
	SInt    = Sort{64, true, false}
	SU8     = Sort{8, false, false}
	SU32    = Sort{32, false, false}
	SOpaque = Sort{}
)

func (t *Term) Sort() Sort  { return Sort{t.W, t.Sg, t.Bool} }
func (t *Term) IsInt() bool { return t.W > 0 && !t.Bool }

type termKey struct {
	op   Op
	k    uint64
	s    string
	w    uint8
	sg   bool
	b    bool
	args string
}

var (
	termTab  = map[termKey]*Term{}
	termList []*Term
)

func mk(op Op, so Sort, k uint64, s string, args ...*Term) *Term {
	var sb strings.Builder
	for _, a := range args {
		fmt.Fprintf(&sb, "%d,", a.ID)
	}
	key := termKey{op, k, s, so.W, so.Sg, so.Bool, sb.String()}
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{ID: len(termList), Op: op, Args: args, K: k, S: s, W: so.W, Sg: so.Sg, Bool: so.Bool}
	termTab[key] = t
	termList = append(termList, t)
	return t
}

func TermByID(id int) *Term { return termList[id] }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func Const(so Sort, k uint64) *Term {
	if so.W > 0 {
		k &= mask(so.W)
	}
	return mk(OConst, so, k, "")
}
func ConstI(so Sort, k int64) *Term { return Const(so, uint64(k)) }
func Int(k int64) *Term             { return ConstI(SInt, k) }
func Bool(b bool) *Term {
	if b {
		return Const(SBool, 1)
	}
	return Const(SBool, 0)
}
func Sym(so Sort, name string) *Term { return mk(OSym, so, 0, name) }
func App(so Sort, f string, args ...*Term) *Term {
	return mk(OApp, so, 0, f, args...)
}
func StrConst(s string) *Term { return mk(OConst, SOpaque, 0, "\""+s) }

func (t *Term) IsConst() bool { return t.Op == OConst }

// StrVal returns the value of a string constant.
func (t *Term) StrVal() (string, bool) {
	if t.Op == OConst && t.W == 0 && strings.HasPrefix(t.S, "\"") {
		return t.S[1:], true
	}
	return "", false
}

// SVal is the mathematical value of an integer constant (saturated for uint64).
func (t *Term) SVal() int64 {
	if t.Sg {
		return signExt(t.K, t.W)
	}
	if t.K > 1<<63-1 {
		return PosInf
	}
	return int64(t.K)
}

func signExt(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	if k>>(w-1)&1 == 1 {
		return int64(k | ^mask(w))
	}
	return int64(k)
}

func Not(t *Term) *Term {
	if t.Op == OConst {
		return Bool(t.K == 0)
	}
	if t.Op == OLNot {
		return t.Args[0]
	}
	return mk(OLNot, SBool, 0, "", t)
}

func Add(a, b *Term) *Term {
	so := a.Sort()
	if a.IsConst() && b.IsConst() {
		return Const(so, a.K+b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if a.Op == OAdd && a.Args[1].IsConst() {
			return Add(a.Args[0], Const(so, a.Args[1].K+b.K))
		}
		return mk(OAdd, so, 0, "", a, b)
	}
	// Float constants outwards.
	if a.Op == OAdd && a.Args[1].IsConst() {
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == OAdd && b.Args[1].IsConst() {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OAdd, so, 0, "", a, b)
}

func Sub(a, b *Term) *Term {
	so := a.Sort()
	if a == b {
		return Const(so, 0)
	}
	if b.IsConst() {
		return Add(a, Const(so, -b.K))
	}
	if a.Op == OAdd {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
		if a.Args[1].IsConst() {
			return Add(Sub(a.Args[0], b), a.Args[1])
		}
	}
	if b.Op == OAdd && b.Args[1].IsConst() {
		return Add(Sub(a, b.Args[0]), Const(so, -b.Args[1].K))
	}
	return mk(OSub, so, 0, "", a, b)
}

func Mul(a, b *Term) *Term {
	so := a.Sort()
	if a.IsConst() && b.IsConst() {
		return Const(so, a.K*b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return b
		}
		if b.K == 1 {
			return a
		}
		if b.K&(b.K-1) == 0 && so.W > 0 {
			return Shl(a, Const(Sort{64, false, false}, uint64(bits.TrailingZeros64(b.K))))
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OMul, so, 0, "", a, b)
}

// flat builds a|b or a&b in a form that does not depend on the order and the
// grouping of the operands.
func flat(op Op, a, b *Term) *Term {
	so := a.Sort()
	unit := uint64(0)
	if op == OAnd {
		unit = mask(so.W)
	}
	var ops []*Term
	c := unit
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.Op == op:
			walk(t.Args[0])
			walk(t.Args[1])
		case t.IsConst() && op == OAnd:
			c &= t.K
		case t.IsConst():
			c |= t.K
		default:
			ops = append(ops, t)
		}
	}
	walk(a)
	walk(b)
	if op == OAnd && c == 0 || op == OOr && c == mask(so.W) {
		return Const(so, c)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].ID < ops[j].ID })
	var out *Term
	for i, t := range ops {
		switch {
		case i > 0 && ops[i-1] == t:
		case out == nil:
			out = t
		default:
			out = mk(op, so, 0, "", out, t)
		}
	}
	if out == nil {
		return Const(so, c)
	}
	if c != unit {
		out = mk(op, so, 0, "", out, Const(so, c))
	}
	return out
}

func And(a, b *Term) *Term { return flat(OAnd, a, b) }
func Or(a, b *Term) *Term  { return flat(OOr, a, b) }

func Xor(a, b *Term) *Term {
	so := a.Sort()
	if a.IsConst() && b.IsConst() {
		return Const(so, a.K^b.K)
	}
	// Flatten, sort and cancel.
	var ops []*Term
	var c uint64
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == OXor {
			for _, x := range t.Args {
				walk(x)
			}
		} else if t.IsConst() {
			c ^= t.K
		} else {
			ops = append(ops, t)
		}
	}
	walk(a)
	walk(b)
	sort.Slice(ops, func(i, j int) bool { return ops[i].ID < ops[j].ID })
	var out []*Term
	for i := 0; i < len(ops); i++ {
		if i+1 < len(ops) && ops[i] == ops[i+1] {
			i++
			continue
		}
		out = append(out, ops[i])
	}
	if c &= mask(so.W); c != 0 {
		out = append(out, Const(so, c))
	}
	switch len(out) {
	case 0:
		return Const(so, 0)
	case 1:
		return out[0]
	}
	return mk(OXor, so, 0, "", out...)
}

func AndNot(a, b *Term) *Term {
	so := a.Sort()
	if b.IsConst() {
		return And(a, Const(so, ^b.K))
	}
	if a.IsConst() && a.K == 0 || a == b {
		return Const(so, 0)
	}
	return And(a, Xor(b, Const(so, mask(so.W))))
}

// shiftCount drops conversions that do not change a shift count.
func shiftCount(b *Term) *Term {
	for b.Op == OConv && b.Args[0].IsInt() {
		in := b.Args[0]
		if !in.Sg && in.W <= b.W || in.Op == OAnd && in.Args[1].IsConst() && in.Args[1].K <= mask(b.W)>>1 {
			b = in
			continue
		}
		break
	}
	return b
}

func Shl(a, b *Term) *Term {
	b = shiftCount(b)
	so := a.Sort()
	if b.IsConst() {
		b = Const(Sort{64, false, false}, b.K)
		if b.K == 0 {
			return a
		}
		if b.K >= uint64(so.W) {
			return Const(so, 0)
		}
		if a.IsConst() {
			return Const(so, a.K<<b.K)
		}
	}
	return mk(OShl, so, 0, "", a, b)
}

func Shr(a, b *Term) *Term {
	b = shiftCount(b)
	so := a.Sort()
	if b.IsConst() {
		b = Const(Sort{64, false, false}, b.K)
		if b.K == 0 {
			return a
		}
		if a.IsConst() {
			if so.Sg {
				sh := b.K
				if sh > 63 {
					sh = 63
				}
				return ConstI(so, signExt(a.K, so.W)>>sh)
			}
			if b.K >= 64 {
				return Const(so, 0)
			}
			return Const(so, a.K>>b.K)
		}
		if !so.Sg && b.K >= uint64(so.W) {
			return Const(so, 0)
		}
	}
	return mk(OShr, so, 0, "", a, b)
}

func Conv(a *Term, so Sort) *Term {
	if a.Sort() == so {
		return a
	}
	if a.IsConst() {
		if a.Sg {
			return ConstI(so, signExt(a.K, a.W))
		}
		return Const(so, a.K)
	}
	// A narrowing of a widening is a conversion of the original.
	if a.Op == OConv {
		in := a.Args[0]
		if in.IsInt() && a.W >= in.W && so.W <= a.W && (so.W <= in.W || a.W > in.W && !in.Sg) {
			return Conv(in, so)
		}
	}
	return mk(OConv, so, 0, "", a)
}

func Div(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.K != 0 {
		if a.Sg {
			return ConstI(a.Sort(), a.SVal()/b.SVal())
		}
		return Const(a.Sort(), a.K/b.K)
	}
	return mk(ODiv, a.Sort(), 0, "", a, b)
}

func Rem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.K != 0 {
		if a.Sg {
			return ConstI(a.Sort(), a.SVal()%b.SVal())
		}
		return Const(a.Sort(), a.K%b.K)
	}
	return mk(ORem, a.Sort(), 0, "", a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.K == b.K && a.S == b.S)
	}
	if a.Bool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.K == 1 {
				return a
			}
			return Not(a)
		}
	}
	if a.IsConst() || (!b.IsConst() && a.ID > b.ID) {
		a, b = b, a
	}
	if b.IsConst() && a.Op == OAnd && a.IsInt() {
		// The test of a single bit: (x>>k)&1 against 0.
		if c := a.Args[1]; c.IsConst() && c.K == b.K && c.K&(c.K-1) == 0 && c.K != 0 {
			return Not(Eq(a, Const(a.Sort(), 0)))
		}
		if b.K == 0 && !a.Sg {
			for i, y := range a.Args {
				if y.Op == OShl && y.Args[0].IsConst() && y.Args[0].K == 1 && !y.Args[1].IsConst() {
					return Eq(And(Shr(a.Args[1-i], y.Args[1]), Const(a.Sort(), 1)), b)
				}
			}
		}
	}
	return mk(OEq, SBool, 0, "", a, b)
}

func Lt(a, b *Term) *Term {
	if a == b {
		return Bool(false)
	}
	if a.IsConst() && b.IsConst() && a.IsInt() {
		if a.Sg {
			return Bool(a.SVal() < b.SVal())
		}
		return Bool(a.K < b.K)
	}
	return mk(OLt, SBool, 0, "", a, b)
}

func Le(a, b *Term) *Term { return Not(Lt(b, a)) }

// String renders a term, shortened when it is large.
func (t *Term) String() string {
	var sb strings.Builder
	t.show(&sb, 400)
	return sb.String()
}

func (t *Term) show(sb *strings.Builder, max int) {
	if sb.Len() > max {
		sb.WriteString("..")
		return
	}
	list := func(sep string) {
		for i, a := range t.Args {
			if i > 0 {
				if sb.Len() > max {
					sb.WriteString("..")
					return
				}
				sb.WriteString(sep)
			}
			a.show(sb, max)
		}
	}
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if s, ok := t.StrVal(); ok {
				fmt.Fprintf(sb, "%q", s)
				return
			}
			sb.WriteString(t.S)
			return
		}
		if t.Bool {
			fmt.Fprint(sb, t.K == 1)
			return
		}
		v := t.SVal()
		if v > 255 {
			fmt.Fprintf(sb, "%#x", v)
			return
		}
		fmt.Fprint(sb, v)
	case OSym:
		sb.WriteString(t.S)
	case OLNot:
		sb.WriteString("!(")
		t.Args[0].show(sb, max)
		sb.WriteString(")")
	case OConv:
		p := "u"
		if t.Sg {
			p = "i"
		}
		fmt.Fprintf(sb, "%s%d(", p, t.W)
		t.Args[0].show(sb, max)
		sb.WriteString(")")
	case OApp:
		sb.WriteString(t.S + "(")
		list(", ")
		sb.WriteString(")")
	case OBit:
		t.Args[0].show(sb, max)
		fmt.Fprintf(sb, "[%d]", t.K)
	default:
		sb.WriteString("(")
		list(" " + opNames[t.Op] + " ")
		sb.WriteString(")")
	}
}
