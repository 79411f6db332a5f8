package main

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/absint"
)

// nonzero decides that the coder offers no zero byte to its receiver: on every
// path of the coder's step, with every state and character, the argument of
// every call of the receiver is shown to differ from zero. Where that cannot be
// shown the step has to be that of the model, for which it can.
func (c *Checker) nonzero() {
	const name = "UtfcState.Follow"
	c.rules = append(c.rules, "on every path of the coder's step, for every state and character, every byte offered to the receiver differs from zero")
	u := c.V.Units[name]
	if u == nil {
		c.fail("anchor", "-", "%s: no such function with the expected signature: the obligation cannot be resolved%s", name, c.P.dropNote(name))
		return
	}
	c.counts["obligations"]++
	if bad := c.offers(u.Impl); len(bad) == 0 {
		c.counts["discharged"]++
		return
	} else if r := c.again().Verify(name); r.OK && len(c.offers(u.Spec)) == 0 {
		c.counts["discharged"]++
		c.sample("%s: behaves as the model, for which no byte is zero", name)
	} else {
		for i, b := range bad {
			if i < 3 {
				c.Finds = append(c.Finds, b)
			}
		}
	}
}

// offers lists the bytes a coder step may offer that may be zero.
func (c *Checker) offers(fn *ssa.Function) (bad []Finding) {
	e := c.V.engine()
	e.ForkMaps = true
	e.Deadline = time.Now().Add(c.V.Budget)
	var args []absint.Value
	for _, pa := range fn.Params {
		args = append(args, absint.SymValue(pa.Name(), pa.Type()))
	}
	defer func() {
		if r := recover(); r != nil {
			bad = append(bad, Finding{"zero byte", "-", fmt.Sprintf("%s could not be analysed: %.300v", fn, r)})
		}
	}()
	seen := map[string]string{}
	sites := map[string]bool{}
	n := 0
	paths, why := absint.CallArgs(e, fn, args, c.V.Mem[fn.Pkg], func(ev absint.Event, f *absint.Facts) {
		at := c.P.Fset.Position(ev.Pos).String()
		t, ok := ev.Args[len(ev.Args)-1].(*absint.Term)
		if !ok || t.W != 8 {
			return
		}
		n++
		sites[at] = true
		if v, ok := f.Decide(absint.Eq(t, absint.Const(t.Sort(), 0))); !ok || v {
			seen[at] = t.String()
		}
	})
	var ats []string
	for at := range seen {
		ats = append(ats, at)
	}
	sort.Strings(ats)
	for _, at := range ats {
		bad = append(bad, Finding{"zero byte", at, fmt.Sprintf("%s may offer a zero byte here: %.200s", fn, seen[at])})
	}
	if why != "" || n == 0 {
		bad = append(bad, Finding{"zero byte", c.P.Fset.Position(fn.Pos()).String(), fmt.Sprintf("%s: %s", fn, why)})
	}
	c.counts["coder paths followed"] += paths
	c.counts["bytes shown to differ from zero"] += n - len(seen)
	c.counts["offering call sites"] += len(sites)
	for f := range e.Funcs {
		if !isSpec(f) {
			c.funcs[f.String()] = true
		}
	}
	c.sample("%s: %d paths, %d call sites offering a byte, %d offers", fn, paths, len(sites), n)
	return
}

// again is a verifier that assumes nothing.
func (c *Checker) again() *Verifier {
	v := newVerifier(c.P)
	v.Budget, v.Deadline = c.V.Budget, c.V.Deadline
	return v
}
