package absint

import (
	"flag"
	"fmt"
	"math/rand"
	"testing"
)

// The analyser's own soundness, sampled: random expressions over random
// integer types are given to the domains together with conditions true of one
// assignment, and whatever the domains then claim must be true of it as well.
// (This tests the analyser, never the analysed code; no check runs it.)

var rounds = flag.Int("rounds", 20000, "random cases")
var seed = flag.Int64("rseed", 1, "seed")

type ex struct {
	t *Term
	v uint64 // the value, truncated to the width
	s string
}

func (e ex) sval() int64 {
	if e.t.Sg {
		return signExt(e.v, e.t.W)
	}
	return int64(e.v)
}

type gen struct {
	*rand.Rand
	syms map[Sort][]ex
	pool map[Sort][]ex // expressions made before, used again
}

var sorts = []Sort{{8, false, false}, {8, true, false}, {16, false, false}, {32, false, false}, {32, true, false}, {64, true, false}}

func fit(so Sort, v uint64) uint64 { return v & mask(so.W) }

func (g *gen) lit(so Sort) ex {
	var v uint64
	switch g.Intn(4) {
	case 0:
		v = uint64(g.Intn(3))
	case 1:
		v = 1 << uint(g.Intn(int(min(so.W, 32))))
	case 2:
		v = 1<<uint(g.Intn(int(min(so.W, 32)))) - 1
	case 3:
		v = uint64(g.Intn(256))
	}
	if so.W == 64 {
		v &= 0xffff
	}
	v = fit(so, v)
	return ex{Const(so, v), v, fmt.Sprint(v)}
}

func (g *gen) expr(so Sort, d int) ex {
	if p := g.pool[so]; len(p) > 0 && g.Intn(3) == 0 {
		return p[g.Intn(len(p))]
	}
	e := g.expr1(so, d)
	if d > 0 && g.Intn(2) == 0 {
		g.pool[so] = append(g.pool[so], e)
	}
	return e
}

func (g *gen) expr1(so Sort, d int) ex {
	if d == 0 || g.Intn(5) == 0 {
		if g.Intn(3) == 0 {
			return g.lit(so)
		}
		l := g.syms[so]
		return l[g.Intn(len(l))]
	}
	mk2 := func(op string, a, b ex, t *Term, v uint64) ex {
		return ex{t, fit(so, v), "(" + a.s + op + b.s + ")"}
	}
	switch g.Intn(12) {
	case 0, 1:
		a, b := g.expr(so, d-1), g.expr(so, d-1)
		return mk2("+", a, b, Add(a.t, b.t), a.v+b.v)
	case 2:
		a, b := g.expr(so, d-1), g.expr(so, d-1)
		return mk2("-", a, b, Sub(a.t, b.t), a.v-b.v)
	case 3:
		a, b := g.expr(so, d-1), g.lit(so)
		if so.W == 64 {
			b = ex{Const(so, b.v&7), b.v & 7, fmt.Sprint(b.v & 7)}
		}
		return mk2("*", a, b, Mul(a.t, b.t), a.v*b.v)
	case 4:
		a, b := g.expr(so, d-1), g.expr(so, d-1)
		return mk2("&", a, b, And(a.t, b.t), a.v&b.v)
	case 5:
		a, b := g.expr(so, d-1), g.expr(so, d-1)
		return mk2("|", a, b, Or(a.t, b.t), a.v|b.v)
	case 6:
		a, b := g.expr(so, d-1), g.expr(so, d-1)
		return mk2("^", a, b, Xor(a.t, b.t), a.v^b.v)
	case 7:
		a, b := g.expr(so, d-1), g.lit(so)
		if g.Intn(2) == 0 {
			return mk2("&^", a, b, AndNot(a.t, b.t), a.v&^b.v)
		}
		if b.sval() <= 0 || a.sval() < 0 && so.Sg && g.Intn(2) == 0 {
			return a
		}
		if g.Intn(2) == 0 {
			return mk2("/", a, b, Div(a.t, b.t), uint64(a.sval()/b.sval()))
		}
		return mk2("%", a, b, Rem(a.t, b.t), uint64(a.sval()%b.sval()))
	case 8:
		a := g.expr(so, d-1)
		k := uint64(g.Intn(int(so.W) + 2))
		if so.W == 64 {
			k = uint64(g.Intn(8))
		}
		kt := Const(Sort{64, false, false}, k)
		b := ex{kt, k, fmt.Sprint(k)}
		if g.Intn(2) == 0 {
			return mk2("<<", a, b, Shl(a.t, kt), a.v<<k)
		}
		if so.Sg {
			return mk2(">>", a, b, Shr(a.t, kt), uint64(a.sval()>>k))
		}
		return mk2(">>", a, b, Shr(a.t, kt), a.v>>k)
	default:
		s2 := sorts[g.Intn(len(sorts))]
		if g.Intn(2) == 0 && (so.W == 8 || so.W == 32) {
			s2 = Sort{so.W, !so.Sg, false}
		}
		a := g.expr(s2, d-1)
		if so.W == 64 && s2.W == 64 {
			return a
		}
		return ex{Conv(a.t, so), fit(so, uint64(a.sval())), fmt.Sprintf("c%d%v(%s)", so.W, so.Sg, a.s)}
	}
}

func (g *gen) cond(d int) (*Term, bool, string) {
	so := sorts[g.Intn(len(sorts))]
	a, b := g.expr(so, d), g.expr(so, d)
	if g.Intn(4) == 0 {
		b = g.lit(so)
	}
	if g.Intn(3) == 0 {
		return Eq(a.t, b.t), a.v == b.v, a.s + "==" + b.s
	}
	lt := a.sval() < b.sval()
	return Lt(a.t, b.t), lt, fmt.Sprintf("%s <%d%v %s", a.s, so.W, so.Sg, b.s)
}

func TestSound(t *testing.T) {
	bad := 0
	decided, all := 0, 0
	for n := 0; n < *rounds && bad < 10; n++ {
		g := &gen{rand.New(rand.NewSource(*seed*1000003 + int64(n))), map[Sort][]ex{}, map[Sort][]ex{}}
		asg := ""
		for _, so := range sorts {
			for i := 0; i < 2; i++ {
				var v uint64
				switch g.Intn(3) {
				case 0:
					v = uint64(g.Intn(4))
				case 1:
					v = fit(so, g.Uint64())
				case 2:
					v = fit(so, uint64(-g.Intn(4)))
				}
				if so.W == 64 {
					v = uint64(int64(g.Intn(2000) - 1000))
				}
				name := fmt.Sprintf("s%d%v%d", so.W, so.Sg, i)
				g.syms[so] = append(g.syms[so], ex{Sym(so, name), v, name})
				asg += fmt.Sprintf("%s=%d ", name, v)
			}
		}
		f := NewFacts()
		hist := ""
		fail := func(what string) {
			t.Errorf("case %d: %s\n  %s\n  %s", n, what, asg, hist)
			bad++
		}
		for k := g.Intn(5); k > 0; k-- {
			c, v, s := g.cond(1 + g.Intn(2))
			hist += fmt.Sprintf("assume %s %v; ", s, v)
			f.Assume(c, v)
			if f.Bot {
				fail("contradiction")
				break
			}
		}
		if f.Bot {
			continue
		}
		for k := 0; k < 6; k++ {
			c, v, s := g.cond(1 + g.Intn(3))
			all++
			if d, ok := f.Decide(c); ok {
				decided++
				if d != v {
					fail(fmt.Sprintf("decides %s %v", s, d))
				}
			}
			so := sorts[g.Intn(len(sorts))]
			a, b := g.expr(so, 2), g.expr(so, 2)
			if r := f.Rng(a.t); a.sval() < r.Lo || a.sval() > r.Hi {
				fail(fmt.Sprintf("range of %s: %v, value %d", a.s, r, a.sval()))
			}
			if f.Equal(a.t, b.t) && a.v != b.v {
				fail(fmt.Sprintf("equal %s %s", a.s, b.s))
			}
			if f.Distinct(a.t, b.t) && a.v == b.v {
				fail(fmt.Sprintf("distinct %s %s", a.s, b.s))
			}
			// the same value by another type
			so2 := Sort{so.W, !so.Sg, false}
			if so.W == 8 || so.W == 32 {
				c := g.expr(so2, 2)
				if f.Equal(a.t, c.t) && a.v != c.v {
					fail(fmt.Sprintf("equal %s %s", a.s, c.s))
				}
				if f.Distinct(a.t, c.t) && a.v == c.v {
					fail(fmt.Sprintf("distinct %s %s", a.s, c.s))
				}
			}
		}
	}
	t.Logf("decided %d of %d", decided, all)
}
