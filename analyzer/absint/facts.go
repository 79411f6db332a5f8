package absint

import (
	"math"
	"math/bits"
	"sort"
)

const (
	PosInf = math.MaxInt64
	NegInf = math.MinInt64
)

type Ival struct{ Lo, Hi int64 }

func (v Ival) Empty() bool   { return v.Lo > v.Hi }
func (v Ival) IsConst() bool { return v.Lo == v.Hi && v.Lo != PosInf && v.Lo != NegInf }

func (v Ival) meet(o Ival) Ival {
	if o.Lo > v.Lo {
		v.Lo = o.Lo
	}
	if o.Hi < v.Hi {
		v.Hi = o.Hi
	}
	return v
}

func satAdd(a, b int64) int64 {
	if a == PosInf || b == PosInf {
		if a == NegInf || b == NegInf {
			return 0
		}
		return PosInf
	}
	if a == NegInf || b == NegInf {
		return NegInf
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return PosInf
	}
	if a < 0 && b < 0 && s >= 0 {
		return NegInf
	}
	return s
}
func satNeg(a int64) int64 {
	switch a {
	case PosInf:
		return NegInf
	case NegInf:
		return PosInf
	}
	return -a
}
func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	inf := func() int64 {
		if neg {
			return NegInf
		}
		return PosInf
	}
	if a == PosInf || a == NegInf || b == PosInf || b == NegInf {
		return inf()
	}
	p := a * b
	if p/b != a {
		return inf()
	}
	return p
}

func typeRange(so Sort) Ival {
	if so.Bool {
		return Ival{0, 1}
	}
	if so.Sg {
		if so.W == 64 {
			return Ival{NegInf, PosInf}
		}
		return Ival{-(1 << (so.W - 1)), 1<<(so.W-1) - 1}
	}
	if so.W == 64 {
		return Ival{0, PosInf}
	}
	return Ival{0, 1<<so.W - 1}
}

// Bit is an affine combination over GF(2) of term bits.
type bitAtom struct {
	t int
	i uint8
}
type Bit struct {
	C  bool
	At []bitAtom
}

func (b Bit) isConst() bool { return len(b.At) == 0 }
func bxor(a, b Bit) Bit {
	r := Bit{C: a.C != b.C}
	i, j := 0, 0
	for i < len(a.At) || j < len(b.At) {
		switch {
		case i == len(a.At):
			r.At = append(r.At, b.At[j])
			j++
		case j == len(b.At):
			r.At = append(r.At, a.At[i])
			i++
		case a.At[i] == b.At[j]:
			i++
			j++
		case a.At[i].t < b.At[j].t || a.At[i].t == b.At[j].t && a.At[i].i < b.At[j].i:
			r.At = append(r.At, a.At[i])
			i++
		default:
			r.At = append(r.At, b.At[j])
			j++
		}
	}
	return r
}
func beq(a, b Bit) bool {
	if a.C != b.C || len(a.At) != len(b.At) {
		return false
	}
	for i := range a.At {
		if a.At[i] != b.At[i] {
			return false
		}
	}
	return true
}

// Lin is a linear form C + sum M[id]*term(id).
type Lin struct {
	C int64
	M map[int]int64
}

func linC(c int64) Lin { return Lin{C: c} }
func (l Lin) clone() Lin {
	r := Lin{C: l.C, M: make(map[int]int64, len(l.M))}
	for k, v := range l.M {
		r.M[k] = v
	}
	return r
}
func (l Lin) addTo(o Lin, f int64) Lin {
	r := l.clone()
	r.C += o.C * f
	for k, v := range o.M {
		r.M[k] += v * f
		if r.M[k] == 0 {
			delete(r.M, k)
		}
	}
	return r
}
func (l Lin) isConst() bool { return len(l.M) == 0 }
func (l Lin) keys() []int {
	ks := make([]int, 0, len(l.M))
	for k := range l.M {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}
func linEq(a, b Lin) bool {
	if a.C != b.C || len(a.M) != len(b.M) {
		return false
	}
	for k, v := range a.M {
		if b.M[k] != v {
			return false
		}
	}
	return true
}

type KB struct{ Mask, Val uint64 }

// Facts is what one path knows about terms.
type Facts struct {
	halved bool // there are facts about halves
	bools  map[int]bool
	iv     map[int]Ival
	kb     map[int]KB
	sub    map[int]*Term
	ne     []Lin
	lf     []Lin // each <= 0
	Bot    bool
	idx    int
	depth  int

	busy, linBusy, bitBusy map[int]bool

	rc map[int]Ival
	bc map[int][]Bit
	lc map[int]Lin
	ec map[[2]int]bool
}

func NewFacts() *Facts {
	f := &Facts{bools: map[int]bool{}, iv: map[int]Ival{}, kb: map[int]KB{}, sub: map[int]*Term{}}
	f.flush()
	return f
}

func (f *Facts) flush() {
	f.rc = map[int]Ival{}
	f.busy, f.linBusy, f.bitBusy = map[int]bool{}, map[int]bool{}, map[int]bool{}
	f.bc = map[int][]Bit{}
	f.lc = map[int]Lin{}
	f.ec = map[[2]int]bool{}
}

func (f *Facts) Clone() *Facts {
	g := &Facts{bools: make(map[int]bool, len(f.bools)), iv: make(map[int]Ival, len(f.iv)), kb: make(map[int]KB, len(f.kb)), sub: make(map[int]*Term, len(f.sub)), Bot: f.Bot, idx: f.idx, halved: f.halved}
	for k, v := range f.bools {
		g.bools[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.kb {
		g.kb[k] = v
	}
	for k, v := range f.sub {
		g.sub[k] = v
	}
	g.ne = append([]Lin(nil), f.ne...)
	g.lf = append([]Lin(nil), f.lf...)
	g.flush()
	return g
}

// Bools lists the boolean facts of the path (for reports and checks).
func (f *Facts) Bools() map[int]bool { return f.bools }

var nonNeg = map[int]bool{}

func MarkNonNeg(t *Term) *Term { nonNeg[t.ID] = true; return t }

func (f *Facts) resolve(t *Term) *Term {
	for n := 0; n < 50; n++ {
		s, ok := f.sub[t.ID]
		if !ok {
			return t
		}
		t = s
	}
	return t
}

func (f *Facts) rng0(t *Term) Ival {
	tr := typeRange(t.Sort())
	if nonNeg[t.ID] {
		tr = tr.meet(Ival{0, PosInf})
	}
	r := tr
	fit := func(lo, hi int64) {
		if lo >= tr.Lo && hi <= tr.Hi {
			r = Ival{lo, hi}
		}
	}
	switch t.Op {
	case OConst:
		v := t.SVal()
		r = Ival{v, v}
		return r
	case OBit:
		r = Ival{0, 1}
	case OAdd:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		if t.Args[1].IsConst() && !t.Sg && t.Args[1].K > mask(t.W)>>1 {
			// adding a negative constant to an unsigned value
			d := signExt(t.Args[1].K, t.W)
			fit(satAdd(a.Lo, d), satAdd(a.Hi, d))
		} else {
			fit(satAdd(a.Lo, b.Lo), satAdd(a.Hi, b.Hi))
		}
	case OSub:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		fit(satAdd(a.Lo, satNeg(b.Hi)), satAdd(a.Hi, satNeg(b.Lo)))
	case OMul:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		c := []int64{satMul(a.Lo, b.Lo), satMul(a.Lo, b.Hi), satMul(a.Hi, b.Lo), satMul(a.Hi, b.Hi)}
		lo, hi := c[0], c[0]
		for _, x := range c {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		fit(lo, hi)
	case OAnd:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		if a.Lo >= 0 && b.Lo >= 0 {
			hi := a.Hi
			if b.Hi < hi {
				hi = b.Hi
			}
			r = Ival{0, hi}
		} else if a.Lo >= 0 {
			r = Ival{0, a.Hi}
		} else if b.Lo >= 0 {
			r = Ival{0, b.Hi}
		}
	case OAndNot:
		a := f.Rng(t.Args[0])
		if a.Lo >= 0 {
			r = Ival{0, a.Hi}
		}
	case OOr, OXor:
		hi, lo, ok := int64(0), int64(0), true
		for _, x := range t.Args {
			a := f.Rng(x)
			if a.Lo < 0 || a.Hi == PosInf {
				ok = false
				break
			}
			if a.Hi > hi {
				hi = a.Hi
			}
			if a.Lo > lo {
				lo = a.Lo
			}
		}
		if ok {
			n := bits.Len64(uint64(hi))
			if t.Op == OXor {
				lo = 0
			}
			r = Ival{lo, 1<<n - 1}
		}
	case OShl:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		if b.IsConst() && b.Lo >= 0 && b.Lo < 62 {
			fit(satMul(a.Lo, 1<<b.Lo), satMul(a.Hi, 1<<b.Lo))
		} else if a.Lo >= 0 && b.Lo >= 0 && b.Hi < 63 {
			fit(satMul(a.Lo, 1<<b.Lo), satMul(a.Hi, 1<<b.Hi))
		}
	case OShr:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		if a.Lo >= 0 {
			sl, sh := b.Lo, b.Hi
			if sl < 0 {
				sl = 0
			}
			if sl > 63 {
				sl = 63
			}
			if sh > 63 {
				sh = 63
			}
			hi := a.Hi
			if hi != PosInf || sl > 0 {
				hi = a.Hi >> sl
			}
			r = Ival{a.Lo >> sh, hi}
		}
	case OConv:
		if t.Args[0].IsInt() {
			a := f.Rng(t.Args[0])
			fit(a.Lo, a.Hi)
		}
	case ODiv:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		if a.Lo >= 0 && b.Lo > 0 {
			hi := a.Hi
			if hi != PosInf {
				hi = a.Hi / b.Lo
			}
			lo := int64(0)
			if b.Hi != PosInf {
				lo = a.Lo / b.Hi
			}
			r = Ival{lo, hi}
		}
	case ORem:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		if a.Lo >= 0 && b.Lo > 0 {
			hi := a.Hi
			if b.Hi != PosInf && b.Hi-1 < hi {
				hi = b.Hi - 1
			}
			r = Ival{0, hi}
		}
	}
	if v, ok := f.iv[t.ID]; ok {
		r = r.meet(v)
	}
	if (t.Op == OSub || t.Op == OAdd) && len(f.lf) > 0 && t.W == 64 {
		l := f.lin(t)
		if len(l.M) >= 2 {
			hi := f.boundHi(l, 2)
			lo := satNeg(f.boundHi(linC(0).addTo(l, -1), 2))
			r = r.meet(Ival{lo, hi})
		}
	}
	return r
}

// Rng is the interval of an integer term on this path.
func (f *Facts) Rng(t *Term) Ival {
	if t.Op == OConst {
		v := t.SVal()
		return Ival{v, v}
	}
	if r, ok := f.rc[t.ID]; ok {
		return r
	}
	if f.busy[t.ID] { // cut cycles
		r := typeRange(t.Sort())
		if nonNeg[t.ID] {
			r = r.meet(Ival{0, PosInf})
		}
		if v, ok := f.iv[t.ID]; ok {
			r = r.meet(v)
		}
		return r
	}
	f.busy[t.ID] = true
	defer delete(f.busy, t.ID)
	if s, ok := f.sub[t.ID]; ok {
		r := f.Rng(s)
		if v, ok := f.iv[t.ID]; ok {
			r = r.meet(v)
		}
		f.rc[t.ID] = r
		return r
	}
	r := f.rng0(t)
	if t.IsInt() && r.Lo >= 0 && !r.Empty() {
		bs := f.bits(t)
		var m, v uint64
		for i, b := range bs {
			if b.isConst() {
				m |= 1 << i
				if b.C {
					v |= 1 << i
				}
			}
		}
		r = tighten(r, m, v, t.W)
	}
	f.rc[t.ID] = r
	return r
}

// tighten shrinks an unsigned interval to values agreeing with known bits.
func tighten(r Ival, m, v uint64, w uint8) Ival {
	if r.Hi == PosInf {
		full := mask(w)
		mx := v | (full &^ m)
		if mx <= 1<<63-1 {
			r.Hi = int64(mx)
		}
	}
	lo := uint64(r.Lo)
	// smallest x >= lo with x&m == v
	if x, ok := nextMatch(lo, m, v, w); ok {
		if x > 1<<63-1 {
			return r
		}
		r.Lo = int64(x)
	} else {
		return Ival{1, 0}
	}
	if r.Hi != PosInf {
		if x, ok := prevMatch(uint64(r.Hi), m, v, w); ok {
			r.Hi = int64(x)
		} else {
			return Ival{1, 0}
		}
	}
	return r
}

func nextMatch(lo, m, v uint64, w uint8) (uint64, bool) {
	// Try keeping a prefix of lo and bumping one bit.
	if lo&m == v {
		return lo, true
	}
	best, found := uint64(0), false
	for i := 0; i < int(w); i++ {
		// common prefix above bit i, bit i becomes 1 where lo has 0
		if lo>>i&1 == 1 {
			continue
		}
		pre := lo &^ (uint64(1)<<(i+1) - 1)
		if i == 63 {
			pre = 0
		}
		x := pre | 1<<i
		hm := ^(uint64(1)<<i - 1)
		if (x&m)&hm != v&hm {
			continue
		}
		x |= v &^ hm
		if !found || x < best {
			best, found = x, true
		}
	}
	return best, found
}

func prevMatch(hi, m, v uint64, w uint8) (uint64, bool) {
	full := mask(w)
	if hi > full {
		hi = full
	}
	if hi&m == v {
		return hi, true
	}
	best, found := uint64(0), false
	for i := 0; i < int(w); i++ {
		if hi>>i&1 == 0 {
			continue
		}
		pre := hi &^ (uint64(1)<<(i+1) - 1)
		if i == 63 {
			pre = 0
		}
		x := pre
		hm := ^(uint64(1)<<i - 1)
		if (x&m)&hm != v&hm {
			continue
		}
		low := uint64(1)<<i - 1
		x |= (v & low) | (low &^ m)
		if !found || x > best {
			best, found = x, true
		}
	}
	return best, found
}

func (f *Facts) ownBits(t *Term) []Bit {
	bs := make([]Bit, t.W)
	kb := f.kb[t.ID]
	for i := range bs {
		if kb.Mask>>i&1 == 1 {
			bs[i] = Bit{C: kb.Val>>i&1 == 1}
		} else {
			bs[i] = Bit{At: []bitAtom{{t.ID, uint8(i)}}}
		}
	}
	return bs
}

// bits is the bit-provenance vector of an integer term.
func (f *Facts) bits(t *Term) []Bit {
	if b, ok := f.bc[t.ID]; ok {
		return b
	}
	if f.bitBusy[t.ID] { // cut cycles
		return f.ownBits(t)
	}
	f.bitBusy[t.ID] = true
	defer delete(f.bitBusy, t.ID)
	var bs []Bit
	if s, ok := f.sub[t.ID]; ok {
		bs = append([]Bit(nil), f.bits(s)...)
		kb := f.kb[t.ID]
		for i := range bs {
			if kb.Mask>>i&1 == 1 {
				bs[i] = Bit{C: kb.Val>>i&1 == 1}
			}
		}
		f.bc[t.ID] = bs
		return bs
	}
	switch t.Op {
	case OConst:
		bs = make([]Bit, t.W)
		for i := range bs {
			bs[i] = Bit{C: t.K>>i&1 == 1}
		}
	case OAnd, OOr, OAndNot:
		a, b := f.bits(t.Args[0]), f.bits(t.Args[1])
		bs = f.ownBits(t)
		for i := range bs {
			x, y := a[i], b[i]
			if t.Op == OAndNot {
				y = Bit{C: !y.C, At: y.At}
			}
			and := t.Op != OOr
			switch {
			case x.isConst():
				if x.C == and {
					bs[i] = y
				} else {
					bs[i] = Bit{C: !and}
				}
			case y.isConst():
				if y.C == and {
					bs[i] = x
				} else {
					bs[i] = Bit{C: !and}
				}
			case beq(x, y):
				bs[i] = x
			case beq(x, Bit{C: !y.C, At: y.At}):
				bs[i] = Bit{C: !and}
			}
		}
	case OXor:
		bs = append([]Bit(nil), f.bits(t.Args[0])...)
		for _, x := range t.Args[1:] {
			b := f.bits(x)
			for i := range bs {
				bs[i] = bxor(bs[i], b[i])
			}
		}
	case OShl, OShr:
		r := f.Rng(t.Args[1])
		if r.IsConst() && (t.Op == OShl || !t.Sg || f.Rng(t.Args[0]).Lo >= 0) {
			a := f.bits(t.Args[0])
			bs = make([]Bit, t.W)
			for i := range bs {
				j := i - int(r.Lo)
				if t.Op == OShr {
					j = i + int(r.Lo)
				}
				if j >= 0 && j < int(t.W) {
					bs[i] = a[j]
				}
			}
		} else {
			bs = f.ownBits(t)
		}
	case OConv:
		in := t.Args[0]
		if !in.IsInt() {
			bs = f.ownBits(t)
			break
		}
		a := f.bits(in)
		bs = make([]Bit, t.W)
		for i := range bs {
			if i < len(a) {
				bs[i] = a[i]
			} else if in.Sg {
				bs[i] = a[len(a)-1]
			}
		}
	case OAdd:
		a, b := f.bits(t.Args[0]), f.bits(t.Args[1])
		bs = f.ownBits(t)
		for i := range bs { // no carry while one side is zero
			if a[i].isConst() && !a[i].C {
				bs[i] = b[i]
			} else if b[i].isConst() && !b[i].C {
				bs[i] = a[i]
			} else {
				// sum of constants in a carry-free position may still carry
				if i < len(bs) {
					bs[i] = bxor(a[i], b[i])
				}
				break
			}
		}
	case OSub:
		a, b := f.bits(t.Args[0]), f.bits(t.Args[1])
		bs = f.ownBits(t)
		for i := range bs {
			if b[i].isConst() && !b[i].C {
				bs[i] = a[i]
			} else {
				bs[i] = bxor(a[i], b[i])
				break
			}
		}
	default:
		bs = f.ownBits(t)
	}
	// Common prefix of the interval.
	if r := f.rng0(t); r.Lo >= 0 && !r.Empty() {
		if r.Hi != PosInf || !t.Sg && false {
			m, v := uint64(0), uint64(0)
			for i := range bs {
				if bs[i].isConst() {
					m |= 1 << i
					if bs[i].C {
						v |= 1 << i
					}
				}
			}
			r = tighten(r, m, v, t.W)
			if !r.Empty() && r.Hi != PosInf {
				d := uint64(r.Lo) ^ uint64(r.Hi)
				n := bits.Len64(d)
				out := append([]Bit(nil), bs...)
				for i := n; i < int(t.W); i++ {
					out[i] = Bit{C: uint64(r.Lo)>>i&1 == 1}
				}
				bs = out
			}
		} else if t.Sg {
			out := append([]Bit(nil), bs...)
			out[t.W-1] = Bit{}
			bs = out
		}
	}
	f.bc[t.ID] = bs
	return bs
}

func (f *Facts) linFromBits(t *Term) (Lin, bool) {
	bs := f.bits(t)
	l := Lin{M: map[int]int64{}}
	for i, b := range bs {
		if b.isConst() {
			if b.C {
				if i >= 62 {
					return l, false
				}
				l.C += 1 << i
			}
			continue
		}
		if len(b.At) != 1 || i >= 62 {
			return l, false
		}
		bt := mk(OBit, SInt, uint64(b.At[0].i), "", TermByID(b.At[0].t))
		if b.C {
			l.C += 1 << i
			l.M[bt.ID] -= 1 << i
		} else {
			l.M[bt.ID] += 1 << i
		}
		if l.M[bt.ID] == 0 {
			delete(l.M, bt.ID)
		}
	}
	return l, true
}

func (f *Facts) fits(t *Term, lo, hi int64) bool {
	tr := typeRange(t.Sort())
	if t.W == 64 {
		return true
	}
	return lo >= tr.Lo && hi <= tr.Hi
}

// lin is the exact mathematical value of t as a linear form.
func (f *Facts) lin(t *Term) Lin {
	if l, ok := f.lc[t.ID]; ok {
		return l
	}
	if f.linBusy[t.ID] {
		return atom(t)
	}
	f.linBusy[t.ID] = true
	defer delete(f.linBusy, t.ID)
	l := f.lin0(t)
	f.lc[t.ID] = l
	return l
}

func atom(t *Term) Lin { return Lin{M: map[int]int64{t.ID: 1}} }

func (f *Facts) lin0(t *Term) Lin {
	if t.Op == OConst {
		if t.SVal() == PosInf {
			return atom(t)
		}
		return linC(t.SVal())
	}
	if s, ok := f.sub[t.ID]; ok {
		return f.lin(s)
	}
	if v, ok := f.iv[t.ID]; ok && v.IsConst() {
		return linC(v.Lo)
	}
	switch t.Op {
	case OAdd:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		if t.Args[1].IsConst() {
			d := signExt(t.Args[1].K, t.W)
			if t.Args[1].SVal() != PosInf && f.fits(t, satAdd(a.Lo, t.Args[1].SVal()), satAdd(a.Hi, t.Args[1].SVal())) {
				return f.lin(t.Args[0]).addTo(linC(t.Args[1].SVal()), 1)
			}
			if f.fits(t, satAdd(a.Lo, d), satAdd(a.Hi, d)) {
				return f.lin(t.Args[0]).addTo(linC(d), 1)
			}
		} else if f.fits(t, satAdd(a.Lo, b.Lo), satAdd(a.Hi, b.Hi)) {
			return f.lin(t.Args[0]).addTo(f.lin(t.Args[1]), 1)
		}
		return atom(t)
	case OSub:
		a, b := f.Rng(t.Args[0]), f.Rng(t.Args[1])
		if f.fits(t, satAdd(a.Lo, satNeg(b.Hi)), satAdd(a.Hi, satNeg(b.Lo))) {
			return f.lin(t.Args[0]).addTo(f.lin(t.Args[1]), -1)
		}
		return atom(t)
	case OMul:
		if t.Args[1].IsConst() {
			a, c := f.Rng(t.Args[0]), t.Args[1].SVal()
			x, y := satMul(a.Lo, c), satMul(a.Hi, c)
			if x > y {
				x, y = y, x
			}
			if c < 1<<31 && c > -(1<<31) && f.fits(t, x, y) {
				return linC(0).addTo(f.lin(t.Args[0]), c)
			}
		}
		return atom(t)
	case OShl:
		r := f.Rng(t.Args[1])
		if r.IsConst() && r.Lo < 31 && r.Lo >= 0 {
			a := f.Rng(t.Args[0])
			if f.fits(t, satMul(a.Lo, 1<<r.Lo), satMul(a.Hi, 1<<r.Lo)) {
				return linC(0).addTo(f.lin(t.Args[0]), 1<<r.Lo)
			}
		}
	case OConv:
		if t.Args[0].IsInt() {
			a := f.Rng(t.Args[0])
			tr := typeRange(t.Sort())
			if a.Lo >= tr.Lo && a.Hi <= tr.Hi {
				return f.lin(t.Args[0])
			}
		}
	}
	switch t.Op {
	case OAnd, OOr, OXor, OAndNot, OShl, OShr, OConv:
		if r := f.Rng(t); r.IsConst() {
			return linC(r.Lo)
		}
		if t.IsInt() && (t.Op != OConv || t.Args[0].IsInt()) {
			if r := f.Rng(t); r.Lo >= 0 {
				if l, ok := f.linFromBits(t); ok {
					return f.norm(l)
				}
			}
		}
	}
	return atom(t)
}

// norm folds complete sets of bits back into their term.
func (f *Facts) norm(l Lin) Lin { return f.normW(l, 0) }

// normW is norm, modulo 2^w unless w is zero.
func (f *Facts) normW(l Lin, w uint8) Lin {
	for n := 0; n < 8; n++ {
		bases := map[int]bool{}
		for k := range l.M {
			if t := TermByID(k); t.Op == OBit {
				bases[t.Args[0].ID] = true
			}
		}
		if len(bases) == 0 {
			return l
		}
		// Bits that have become known since.
		for _, k := range l.keys() {
			if t := TermByID(k); t.Op == OBit {
				if x := f.bits(t.Args[0])[t.K]; x.isConst() {
					co := l.M[k]
					l = l.clone()
					delete(l.M, k)
					if x.C {
						l.C += co
					}
				}
			}
		}
		ids := make([]int, 0, len(bases))
		for b := range bases {
			ids = append(ids, b)
		}
		sort.Ints(ids)
		changed := false
		for _, b := range ids {
			bt := TermByID(b)
			// Read as an unsigned number, the bits are the term itself only
			// if it is not negative, or modulo its own width.
			if (w == 0 || w > bt.W) && bt.Sg && f.Rng(bt).Lo < 0 {
				continue
			}
			own := f.bits(bt)
			var c int64
			ok, first := true, true
			var ones int64
			for i, x := range own {
				if x.isConst() {
					if x.C {
						if i >= 62 {
							ok = false
							break
						}
						ones += 1 << i
					}
					continue
				}
				if len(x.At) != 1 || x.C || x.At[0].t != b || i >= 62 {
					ok = false
					break
				}
				co := l.M[mk(OBit, SInt, uint64(i), "", bt).ID]
				if co%(1<<i) != 0 {
					ok = false
					break
				}
				q := co / (1 << i)
				if first {
					c, first = q, false
				} else if q != c {
					ok = false
					break
				}
			}
			if !ok || first || c == 0 {
				continue
			}
			r := l.clone()
			for i := range own {
				delete(r.M, mk(OBit, SInt, uint64(i), "", bt).ID)
			}
			r.C -= c * ones
			bl := f.lin(bt)
			r = r.addTo(bl, c)
			l = r
			changed = true
			break
		}
		if !changed {
			// Expand whole terms whose bits also occur.
			for _, b := range ids {
				co, ok := l.M[b]
				if !ok {
					continue
				}
				bt := TermByID(b)
				if r := f.Rng(bt); (w == 0 || w > bt.W) && bt.Sg && r.Lo < 0 {
					continue
				}
				e, ok := f.linFromBits(bt)
				if !ok {
					continue
				}
				r := l.clone()
				delete(r.M, b)
				l = r.addTo(e, co)
				changed = true
				break
			}
			if !changed {
				return l
			}
		}
	}
	return l
}

// linm is the value of t modulo 2^w.
func (f *Facts) linm(t *Term, w uint8) Lin {
	red := func(l Lin) Lin {
		if w >= 64 {
			return l
		}
		m := int64(1) << w
		r := Lin{C: ((l.C % m) + m) % m, M: map[int]int64{}}
		for k, v := range l.M {
			if x := ((v % m) + m) % m; x != 0 {
				r.M[k] = x
			}
		}
		return r
	}
	if _, ok := f.sub[t.ID]; ok {
		return f.linm(f.resolve(t), w)
	}
	switch t.Op {
	case OAdd:
		if t.W >= w {
			return red(f.linm(t.Args[0], w).addTo(f.linm(t.Args[1], w), 1))
		}
	case OSub:
		if t.W >= w {
			return red(f.linm(t.Args[0], w).addTo(f.linm(t.Args[1], w), -1))
		}
	case OConv:
		if t.Args[0].IsInt() && t.Args[0].W >= w && t.W >= w {
			return f.linm(t.Args[0], w)
		}
	case OMul:
		if t.W >= w && t.Args[1].IsConst() {
			return red(linC(0).addTo(f.linm(t.Args[0], w), int64(t.Args[1].K)))
		}
	case OShl:
		if t.W >= w && t.Args[1].IsConst() {
			return red(linC(0).addTo(f.linm(t.Args[0], w), int64(1)<<t.Args[1].K))
		}
	case OXor:
		// the complement of x is -x-1
		if c := t.Args[len(t.Args)-1]; t.W >= w && c.IsConst() && c.K == mask(t.W) {
			return red(linC(-1).addTo(f.linm(Xor(t, c), w), -1))
		}
	}
	return red(f.lin(t))
}

func (f *Facts) normMod(l Lin, w uint8) Lin {
	l = f.normW(l, w)
	if w < 64 {
		m := int64(1) << w
		r := Lin{C: ((l.C % m) + m) % m, M: map[int]int64{}}
		for k, v := range l.M {
			if x := ((v % m) + m) % m; x != 0 {
				r.M[k] = x
			}
		}
		return r
	}
	return l
}

func (f *Facts) naiveHi(l Lin) int64 {
	s := l.C
	for _, k := range l.keys() {
		v := l.M[k]
		t := TermByID(k)
		var r Ival
		if x, ok := f.rc[k]; ok {
			r = x
		} else if t.Op == OAdd || t.Op == OSub {
			r = typeRange(t.Sort())
			if x, ok := f.iv[k]; ok {
				r = r.meet(x)
			}
		} else {
			r = f.Rng(t)
		}
		if v > 0 {
			s = satAdd(s, satMul(v, r.Hi))
		} else {
			s = satAdd(s, satMul(v, r.Lo))
		}
	}
	return s
}

func (f *Facts) boundHi(l Lin, depth int) int64 {
	best := f.naiveHi(l)
	if depth == 0 || best == NegInf {
		return best
	}
	for _, x := range f.lf {
		share := false
		for k, v := range x.M {
			if c := l.M[k]; c != 0 && (c > 0) == (v > 0) {
				share = true
				break
			}
		}
		if !share {
			continue
		}
		if h := f.boundHi(f.norm(l.addTo(x, -1)), depth-1); h < best {
			best = h
		}
	}
	return best
}

// Equal reports whether a and b are provably the same value on this path.
func (f *Facts) Equal(a, b *Term) bool {
	if a == b {
		return true
	}
	k := [2]int{a.ID, b.ID}
	if a.ID > b.ID {
		k = [2]int{b.ID, a.ID}
	}
	if v, ok := f.ec[k]; ok {
		return v
	}
	v := f.equal(a, b)
	f.ec[k] = v
	return v
}

func (f *Facts) equal(a, b *Term) bool {
	a0, b0 := a, b
	a, b = f.resolve(a), f.resolve(b)
	if a == b {
		return true
	}
	if a.W != b.W || a.Bool != b.Bool {
		return false
	}
	if a.IsInt() {
		ra, rb := f.Rng(a0), f.Rng(b0)
		if ra.IsConst() && ra == rb {
			return true
		}
		l := f.normMod(f.linm(a, a.W).addTo(f.linm(b, a.W), -1), a.W)
		if l.isConst() && l.C == 0 {
			return true
		}
		if f.cancels(l, a.W, a, b) {
			return true
		}
		x, y := f.bits(a), f.bits(b)
		same := true
		for i := range x {
			if !beq(x[i], y[i]) {
				same = false
				break
			}
		}
		if same {
			return true
		}
	}
	if a.Op == b.Op && a.S == b.S && a.K == b.K && len(a.Args) == len(b.Args) && len(a.Args) > 0 && a.Op != OBit {
		same := sameSigns(a, b)
		for i := range a.Args {
			if !same || !f.Equal(a.Args[i], b.Args[i]) {
				same = false
				break
			}
		}
		if same {
			return true
		}
		switch a.Op {
		case OXor, OAdd, OAnd, OOr, OMul, OEq:
			// the operands in another order
			if f.depth > 40 || len(a.Args) > 6 {
				return false
			}
			f.depth++
			defer func() { f.depth-- }()
			used := make([]bool, len(b.Args))
			for _, x := range a.Args {
				found := false
				for j, y := range b.Args {
					if !used[j] && f.Equal(x, y) {
						used[j], found = true, true
						break
					}
				}
				if !found {
					return false
				}
			}
			return true
		}
		return false
	}
	if a.IsInt() && (f.hasBit(a, b) || f.hasBit(b, a)) {
		return true
	}
	if a.Bool {
		va, oka := f.Decide(a)
		vb, okb := f.Decide(b)
		return oka && okb && va == vb
	}
	return false
}

// hasBit reports whether a is b with a bit set that b is known to have.
func (f *Facts) hasBit(a, b *Term) bool {
	if a.Op != OOr || len(a.Args) != 2 {
		return false
	}
	for i, s := range a.Args {
		x := a.Args[1-i]
		if s.Op != OShl || len(s.Args) != 2 || s.Sort() != x.Sort() {
			continue
		}
		if one := f.Rng(s.Args[0]); !one.IsConst() || one.Lo != 1 {
			continue
		}
		if v, ok := f.Decide(Eq(And(x, s), Const(x.Sort(), 0))); ok && !v && f.Equal(x, b) {
			return true
		}
	}
	return false
}

// sameSigns reports whether an operation reads the operands of a and b the
// same way: Equal compares bits, and ordering, division, right shifts and
// widening depend on the signs of the types as well.
func sameSigns(a, b *Term) bool {
	switch a.Op {
	case OLt, ODiv, ORem, OShr, OConv:
		for i := range a.Args {
			if a.Args[i].Sort() != b.Args[i].Sort() {
				return false
			}
		}
	}
	return true
}

// cancels reports whether a linear form vanishes when equal atoms are merged.
func (f *Facts) cancels(l Lin, w uint8, a, b *Term) bool {
	if l.C != 0 || len(l.M) < 2 || len(l.M) > 6 || f.depth > 20 {
		return false
	}
	neg := func(v int64) int64 {
		if w < 64 {
			return (int64(1)<<w - v) % (int64(1) << w)
		}
		return -v
	}
	if len(l.M) == 2 {
		// the terms themselves: nothing to gain over comparing them
		if _, ok := l.M[a.ID]; ok {
			if _, ok := l.M[b.ID]; ok {
				return false
			}
		}
	}
	f.depth++
	defer func() { f.depth-- }()
	ks := l.keys()
	used := map[int]bool{}
	for i, k := range ks {
		if used[k] {
			continue
		}
		x := TermByID(k)
		if x.Op == OBit {
			return false
		}
		found := false
		for _, m := range ks[i+1:] {
			y := TermByID(m)
			if !used[m] && y.Op == x.Op && y.S == x.S && l.M[m] == neg(l.M[k]) && f.Equal(x, y) {
				used[m], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// Distinct reports whether a and b provably differ on this path.
func (f *Facts) Distinct(a, b *Term) bool {
	a, b = f.resolve(a), f.resolve(b)
	if a == b || a.W != b.W || a.Bool != b.Bool {
		return false
	}
	if a.IsConst() && b.IsConst() {
		return a.K != b.K || a.S != b.S
	}
	if !a.IsInt() {
		return false
	}
	ra, rb := f.Rng(a), f.Rng(b)
	signs := a.Sg == b.Sg || ra.Lo >= 0 && rb.Lo >= 0
	if signs && (ra.Hi < rb.Lo || rb.Hi < ra.Lo) {
		return true
	}
	if l := f.normMod(f.linm(a, a.W).addTo(f.linm(b, a.W), -1), a.W); l.isConst() {
		return l.C != 0
	}
	x, y := f.bits(a), f.bits(b)
	for i := range x {
		if d := bxor(x[i], y[i]); d.isConst() && d.C {
			return true
		}
	}
	if !signs {
		return false
	}
	l := f.norm(f.lin(a).addTo(f.lin(b), -1))
	for _, n := range f.ne {
		if linEq(l, f.norm(n)) || linEq(linC(0).addTo(l, -1), f.norm(n)) {
			return true
		}
	}
	if f.boundHi(l, 2) < 0 || f.boundHi(linC(0).addTo(l, -1), 2) < 0 {
		return true
	}
	return false
}

// Decide evaluates a boolean term if the path determines it.
func (f *Facts) Decide(t *Term) (bool, bool) {
	if t.IsConst() {
		return t.K == 1, true
	}
	if t.Op == OLNot {
		v, ok := f.Decide(t.Args[0])
		return !v, ok
	}
	if v, ok := f.bools[t.ID]; ok {
		return v, true
	}
	if s, ok := f.sub[t.ID]; ok {
		return f.Decide(s)
	}
	switch t.Op {
	case OEq:
		if f.Equal(t.Args[0], t.Args[1]) {
			return true, true
		}
		if t.Args[0].IsInt() && len(f.lf) > 1 {
			l := f.norm(f.lin(t.Args[0]).addTo(f.lin(t.Args[1]), -1))
			if len(l.M) <= 3 && f.boundHi(l, 1) <= 0 && f.boundHi(linC(0).addTo(l, -1), 1) <= 0 {
				return true, true
			}
		}
		if f.Distinct(t.Args[0], t.Args[1]) {
			return false, true
		}
	case OLt:
		a, b := t.Args[0], t.Args[1]
		if !a.IsInt() {
			break
		}
		ra, rb := f.Rng(a), f.Rng(b)
		if ra.Hi < rb.Lo {
			return true, true
		}
		// A remainder is less than the divisor.
		if a.Op == ORem && rb.Lo >= 0 && f.Equal(a.Args[1], b) {
			return true, true
		}
		if ra.Lo >= rb.Hi {
			return false, true
		}
		l := f.norm(f.lin(a).addTo(f.lin(b), -1)) // a-b
		if f.boundHi(l, 2) <= -1 {
			return true, true
		}
		if f.boundHi(linC(0).addTo(l, -1), 2) <= 0 {
			return false, true
		}
		// Halves of something: the doubled difference.
		if f.halved {
			if f.boundHi(l, 3) <= -1 {
				return true, true
			}
			if f.boundHi(linC(0).addTo(l, -1), 3) <= 0 {
				return false, true
			}
			l2 := l.addTo(l, 1)
			if h := f.boundHi(l2, 3); h <= -1 {
				return true, true
			}
			if h := f.boundHi(linC(0).addTo(l2, -1), 3); h <= 1 {
				return false, true
			}
		}
		// a <= b known and a != b known
		if f.boundHi(l, 2) <= 0 && f.Distinct(a, b) {
			return true, true
		}
	}
	// A structurally equal fact.
	if (t.Op == OApp || t.Op == OEq || t.Op == OLt) && len(t.Args) > 0 {
		ids := make([]int, 0, 8)
		for id := range f.bools {
			o := TermByID(id)
			if o.Op == t.Op && o.S == t.S && len(o.Args) == len(t.Args) {
				ids = append(ids, id)
			}
		}
		sort.Ints(ids)
		for _, id := range ids {
			if f.Equal(TermByID(id), t) && f.eqArgs(TermByID(id), t) {
				return f.bools[id], true
			}
		}
	}
	return false, false
}

func (f *Facts) eqArgs(a, b *Term) bool {
	if !sameSigns(a, b) {
		return false
	}
	for i := range a.Args {
		if !f.Equal(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

func (f *Facts) setIv(t *Term, v Ival) {
	t0 := t
	if t.Op == OBit {
		if v.Lo >= 1 {
			f.setKB(t.Args[0], 1<<t.K, 1<<t.K)
		} else if v.Hi <= 0 {
			f.setKB(t.Args[0], 1<<t.K, 0)
		}
		return
	}
	old, ok := f.iv[t0.ID]
	if !ok {
		old = typeRange(t.Sort())
	}
	n := old.meet(v)
	if ok && n == old {
		return
	}
	f.iv[t0.ID] = n
	f.flush()
	if n.Empty() {
		f.Bot = true
	}
}

func (f *Facts) setKB(t *Term, m, v uint64) {
	o := f.kb[t.ID]
	if o.Mask&m&(o.Val^v) != 0 {
		f.Bot = true
		return
	}
	if o.Mask&m == m {
		return
	}
	f.kb[t.ID] = KB{o.Mask | m, (o.Val &^ m) | (v & m)}
	f.flush()
}

func occurs(x, in *Term) bool {
	if x == in {
		return true
	}
	for _, a := range in.Args {
		if occurs(x, a) {
			return true
		}
	}
	return false
}

func (f *Facts) occursRes(x, in *Term) bool {
	in = f.resolve(in)
	if x == in {
		return true
	}
	for _, a := range in.Args {
		if f.occursRes(x, a) {
			return true
		}
	}
	return false
}

func isAtomic(t *Term) bool { return t.Op == OSym || t.Op == OApp }

// Assume adds a boolean fact; it returns false when the path is contradictory.
func (f *Facts) Assume(t *Term, v bool) bool {
	if f.Bot {
		return false
	}
	if t.Op == OLNot {
		return f.Assume(t.Args[0], !v)
	}
	if d, ok := f.Decide(t); ok {
		if d != v {
			f.Bot = true
			return false
		}
		// still record: lemmas such as orderings may be looked up
		if !t.IsConst() {
			f.bools[t.ID] = v
		}
		return true
	}
	f.bools[t.ID] = v
	f.flush()
	switch t.Op {
	case OEq:
		if v {
			f.assumeEq(t.Args[0], t.Args[1])
			f.recheck()
		} else {
			a, b := t.Args[0], t.Args[1]
			f.assumeNe(a, b)
			// Different and ordered.
			if a.IsInt() && !f.Bot && len(f.lf) > 0 {
				l := f.norm(f.lin(a).addTo(f.lin(b), -1))
				if l.isConst() {
					break
				}
				if f.boundHi(l, 1) == 0 {
					f.assumeLe(a, b, 1)
				} else if f.boundHi(linC(0).addTo(l, -1), 1) == 0 {
					f.assumeLe(b, a, 1)
				}
			}
		}
	case OLt:
		a, b := t.Args[0], t.Args[1]
		if a.IsInt() {
			if v {
				f.assumeLe(a, b, 1)
			} else {
				f.assumeLe(b, a, 0)
				// Neither is less: they are equal.
				if l := f.norm(f.lin(a).addTo(f.lin(b), -1)); !f.Bot && !l.isConst() && f.boundHi(l, 1) <= 0 {
					f.Assume(Eq(a, b), true)
				} else if !f.Bot && f.Distinct(a, b) {
					f.assumeLe(b, a, 1)
				}
			}
		}
	}
	return !f.Bot
}

// assumeLe: a + d <= b.
// recheck looks for values known to differ that a new equality makes equal.
func (f *Facts) recheck() {
	for id, v := range f.bools {
		if f.Bot {
			return
		}
		t := TermByID(id)
		if v || t.Op != OEq || !t.Args[0].IsInt() || t.Args[0].W != t.Args[1].W {
			continue
		}
		l := f.norm(f.lin(t.Args[0]).addTo(f.lin(t.Args[1]), -1))
		if l.isConst() {
			f.Bot = l.C == 0
		} else if len(f.lf) > 0 && f.boundHi(l, 1) == 0 && f.boundHi(linC(0).addTo(l, -1), 1) == 0 {
			f.Bot = true
		}
	}
}

func (f *Facts) assumeLe(a, b *Term, d int64) {
	ra, rb := f.Rng(a), f.Rng(b)
	f.setIv(a, Ival{NegInf, satAdd(rb.Hi, -d)})
	f.setIv(b, Ival{satAdd(ra.Lo, d), PosInf})
	l := f.norm(f.lin(a).addTo(f.lin(b), -1).addTo(linC(d), 1))
	f.addLe(l)
}

func (f *Facts) addLe(l Lin) {
	if l.isConst() {
		if l.C > 0 {
			f.Bot = true
		}
		return
	}
	f.lf = append(f.lf, l)
	f.flush()
	for _, k := range l.keys() {
		c := l.M[k]
		rest := l.clone()
		delete(rest.M, k)
		lo := satNeg(f.naiveHi(linC(0).addTo(rest, -1))) // min of rest
		if lo == NegInf {
			continue
		}
		// c*x <= -lo
		t := TermByID(k)
		if c > 0 {
			q := floorDiv(satNeg(lo), c)
			f.setIv(t, Ival{NegInf, q})
		} else {
			q := ceilDiv(lo, -c)
			f.setIv(t, Ival{q, PosInf})
		}
	}
}

// halves relates a length and its half: x = h<<k + r, 0 <= r < 1<<k.
func (f *Facts) halves(x, h *Term, k int) {
	if k < 1 || k > 2 || x.IsConst() || h.IsConst() || x.Sort() != SInt || f.Rng(x).Lo < 0 {
		return
	}
	c := int64(1) << k
	l := linC(0).addTo(f.lin(h), c).addTo(f.lin(x), -1)
	for _, e := range []Lin{l, linC(1-c).addTo(l, -1)} {
		if n := f.norm(e); !n.isConst() && f.boundHi(n, 1) > 0 {
			f.addLe(n)
			f.halved = true
		}
	}
}

func floorDiv(a, b int64) int64 {
	if a == PosInf || a == NegInf {
		return a
	}
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 {
	if a == PosInf || a == NegInf {
		return a
	}
	return -floorDiv(-a, b)
}

func (f *Facts) assumeEq(a, b *Term) {
	if a.IsInt() {
		if r := f.Rng(b); r.IsConst() {
			f.eqConst(a, r.Lo)
			return
		}
		if r := f.Rng(a); r.IsConst() {
			f.eqConst(b, r.Lo)
			return
		}
	}
	ra, rb := f.resolve(a), f.resolve(b)
	if a.IsInt() && (a.Sg != b.Sg || ra.Sg != rb.Sg) {
		return
	}
	if a.IsInt() {
		x, y := f.Rng(ra), f.Rng(rb)
		if isAtomic(ra) && !f.occursRes(ra, rb) {
			f.sub[ra.ID] = rb
			f.flush()
			f.setIv(rb, x)
			return
		}
		if isAtomic(rb) && !f.occursRes(rb, ra) {
			f.sub[rb.ID] = ra
			f.flush()
			f.setIv(ra, y)
			return
		}
		l := f.norm(f.lin(a).addTo(f.lin(b), -1))
		// solve for a single atom, e.g. x+1 == y
		for _, k := range l.keys() {
			t := TermByID(k)
			if c := l.M[k]; (c == 1 || c == -1) && isAtomic(t) {
				rest := l.clone()
				delete(rest.M, k)
				rest = linC(0).addTo(rest, -c)
				if s, ok := f.linTerm(rest, t.Sort()); ok && !f.occursRes(t, s) {
					f.sub[t.ID] = s
					f.flush()
					return
				}
			}
		}
		f.addLe(l)
		f.addLe(linC(0).addTo(l, -1))
		return
	}
	if a.W == 0 {
		if isAtomic(ra) && !f.occursRes(ra, rb) {
			f.sub[ra.ID] = rb
		} else if isAtomic(rb) && !f.occursRes(rb, ra) {
			f.sub[rb.ID] = ra
		}
		f.flush()
	}
}

func (f *Facts) linTerm(l Lin, so Sort) (*Term, bool) {
	r := ConstI(so, l.C)
	for _, k := range l.keys() {
		t := TermByID(k)
		if t.Op == OBit {
			return nil, false
		}
		x := Conv(t, so)
		c := l.M[k]
		if c == 1 {
			r = Add(r, x)
		} else {
			r = Add(r, Mul(x, ConstI(so, c)))
		}
	}
	return r, true
}

func (f *Facts) eqConst(a *Term, c int64) {
	bs := f.bits(a)
	f.setIv(a, Ival{c, c})
	for i, b := range bs {
		want := uint64(c)>>i&1 == 1
		if b.isConst() {
			if b.C != want {
				f.Bot = true
				return
			}
			continue
		}
		if len(b.At) == 1 {
			v := want != b.C
			var val uint64
			if v {
				val = 1 << b.At[0].i
			}
			f.setKB(TermByID(b.At[0].t), 1<<b.At[0].i, val)
		}
	}
	l := f.norm(f.lin0s(a))
	if len(l.M) == 1 {
		for k, co := range l.M {
			if (c-l.C)%co != 0 {
				f.Bot = true
				return
			}
			f.setIv(TermByID(k), Ival{(c - l.C) / co, (c - l.C) / co})
		}
	} else if len(l.M) > 1 {
		// e.g. x - y == 0
		l = l.addTo(linC(c), -1)
		for _, k := range l.keys() {
			t := TermByID(k)
			if co := l.M[k]; (co == 1 || co == -1) && isAtomic(t) && t.W == 64 {
				rest := l.clone()
				delete(rest.M, k)
				rest = linC(0).addTo(rest, -co)
				if s, ok := f.linTerm(rest, t.Sort()); ok && !f.occursRes(t, s) {
					f.sub[t.ID] = s
					f.flush()
					return
				}
			}
		}
	}
}

// lin0s is lin of a without using a's own interval.
func (f *Facts) lin0s(a *Term) Lin {
	v, ok := f.iv[a.ID]
	if ok {
		delete(f.iv, a.ID)
		f.flush()
	}
	l := f.lin(a)
	if ok {
		f.iv[a.ID] = v
		f.flush()
	}
	return l
}

func (f *Facts) assumeNe(a, b *Term) {
	if !a.IsInt() {
		return
	}
	f.ne = append(f.ne, f.norm(f.lin(a).addTo(f.lin(b), -1)))
	trim := func(x *Term, c int64) {
		bs := f.bits(x)
		r := f.Rng(x)
		if r.Lo == c {
			f.setIv(x, Ival{c + 1, PosInf})
		}
		if r.Hi == c {
			f.setIv(x, Ival{NegInf, c - 1})
		}
		n, at := 0, -1
		for i, bb := range bs {
			if !bb.isConst() {
				n++
				at = i
			} else if bb.C != (uint64(c)>>i&1 == 1) {
				return
			}
		}
		if n == 1 && len(bs[at].At) == 1 {
			want := uint64(c)>>at&1 == 0
			v := want != bs[at].C
			var val uint64
			if v {
				val = 1 << bs[at].At[0].i
			}
			f.setKB(TermByID(bs[at].At[0].t), 1<<bs[at].At[0].i, val)
		}
	}
	if r := f.Rng(b); r.IsConst() {
		trim(a, r.Lo)
	}
	if r := f.Rng(a); r.IsConst() {
		trim(b, r.Lo)
	}
	f.flush()
}
