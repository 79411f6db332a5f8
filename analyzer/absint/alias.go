package absint

import (
	"fmt"
	"sort"
	"strings"
)

// lineage is the array a slice's backing array may share memory with: growing
// a slice may leave it where it was.
func lineage(t *Term) *Term {
	for n := 0; n < 1000; n++ {
		o, ok := objTab[t.ID]
		if !ok || o.parent == nil {
			return t
		}
		t = o.parent
	}
	return t
}

// holders maps each backing array to the places that hold a slice of it.
func holders(m *Mem, f *Facts, res []Value, place func(Key) string) map[*Term]map[string]bool {
	out := map[*Term]map[string]bool{}
	add := func(v Value, at string) {
		s, ok := v.(SliceV)
		if !ok || at == "" || s.Arr == NilObj || len(s.Pre) > 0 {
			return
		}
		if r := f.Rng(s.Cap); r.IsConst() && r.Lo == 0 {
			return
		}
		a := lineage(s.Arr)
		if out[a] == nil {
			out[a] = map[string]bool{}
		}
		out[a][at] = true
	}
	for i, v := range res {
		add(v, fmt.Sprintf("result %d", i))
	}
	for _, k := range m.keys() {
		l := m.logs[k]
		if strings.Contains(k.Shape, "[]") || len(l.Ent) == 0 || l.Ent[len(l.Ent)-1].Src != nil {
			continue
		}
		add(l.Ent[len(l.Ent)-1].Val, place(k))
	}
	// Arguments, and places still holding the array they held on entry.
	for a := range out {
		if a.Op != OApp && strings.HasPrefix(a.S, "new") && isFresh(a) {
			continue
		}
		i := strings.IndexByte(a.S, '@')
		if i < 0 {
			if len(a.Args) == 0 && a.Op == OSym && !strings.ContainsAny(a.S, ".:#") {
				out[a]["argument "+a.S] = true
			}
			continue
		}
		if len(a.Args) == 1 && a.S[i:] == "@0" {
			k := Key{a.Args[0].ID, a.S[:i]}
			if l := m.logs[k]; l == nil || len(l.Ent) == 0 {
				out[a][place(k)] = true
			}
		}
	}
	return out
}

// shares reports backing arrays (or objects) the implementation's results and
// objects share with each other where the model's do not.
func (c *cmp) shares(ri, rs []Value) string {
	toSpec := map[int][]int{}
	for p := range c.pairs {
		toSpec[p[0]] = append(toSpec[p[0]], p[1])
	}
	for x, ys := range toSpec {
		n := 0
		for _, y := range ys {
			if isFresh(TermByID(y)) && y != NilObj.ID {
				n++
			}
		}
		if n > 1 && isFresh(TermByID(x)) {
			return fmt.Sprintf("one object (%s) where the model has %d separate ones", TermByID(x), n)
		}
	}
	hi := holders(c.a, c.f, ri, func(k Key) string {
		o := TermByID(k.Obj)
		if !isFresh(o) {
			return o.String() + k.Shape
		}
		if ys := toSpec[k.Obj]; len(ys) == 1 {
			return TermByID(ys[0]).String() + k.Shape
		}
		return ""
	})
	hs := holders(c.b, c.f, rs, func(k Key) string { return TermByID(k.Obj).String() + k.Shape })
	together := map[[2]string]bool{}
	for _, set := range hs {
		for a := range set {
			for b := range set {
				together[[2]string{a, b}] = true
			}
		}
	}
	var out []string
	for _, set := range hi {
		for a := range set {
			for b := range set {
				if a < b && a != "" && !together[[2]string{a, b}] {
					out = append(out, fmt.Sprintf("%s and %s share one backing array", a, b))
				}
			}
		}
	}
	sort.Strings(out)
	if len(out) > 0 {
		return out[0]
	}
	return ""
}
