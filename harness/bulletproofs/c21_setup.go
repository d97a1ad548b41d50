package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Set-up with any int64 range end.
func verif_C21_range() {
	rt.Bound("P-256, all 2^64 values of the range end")
	g := vgroup(0)
	b := rt.Int64("b")
	var p BulletProofSetupParams
	var err error
	panics := rt.Panics(func() { p, err = Setup(b, g) })
	rt.Assert("set-up does not panic", !panics)
	if panics {
		return
	}
	valid := b == 2 || b == 4 || b == 16 || b == 256 || b == 65536 || b == 4294967296
	rt.Assert("set-up succeeds exactly for range ends 2^n with n in {1,2,4,8,16,32}", (err == nil) == valid)
	if err != nil {
		rt.Reach("refused")
		return
	}
	rt.Assert("the bit length is n", p.N >= 1 && p.N <= 32 && int64(1)<<uint(p.N) == b)
	rt.Reach("accepted")
}

// The generators of each accepted parameter set.
func verif_C21_generators() {
	rt.Bound("every curve, n in {1,2,4,8,16,32}")
	g := vcurve()
	n := int64(1) << uint(rt.Choice("n", 6))
	p, err := Setup(int64(1)<<uint(n), g)
	rt.Assert("set-up succeeds", err == nil)
	if err != nil {
		return
	}
	rt.Assert("the bit length is n", p.N == n)
	rt.Assert("G is the generator of the group", p.G.IsEqual(g.Element().BaseScale(big.NewInt(1))) && p.G.IsEqual(g.Generator()))
	rt.Assert("the group is the given one", p.GP.N().Cmp(g.N()) == 0 && p.GP.Name() == g.Name())
	rt.Assert("n generators each", int64(len(p.Gg)) == n && int64(len(p.Hh)) == n)
	all := append([]interface{ String() string }{}, p.G, p.H)
	for i := range p.Gg {
		all = append(all, p.Gg[i], p.Hh[i])
	}
	distinct := true
	seen := map[string]bool{}
	for _, e := range all {
		if seen[e.String()] {
			distinct = false
		}
		seen[e.String()] = true
	}
	rt.Assert("the generators are pairwise distinct", distinct)
	id := g.Identity()
	for i := range p.Gg {
		rt.Assert("no generator is the identity", !p.Gg[i].IsEqual(id) && !p.Hh[i].IsEqual(id) && !p.H.IsEqual(id))
		ok := !p.Gg[i].IsEqual(p.H) && !p.Hh[i].IsEqual(p.H) && !p.Gg[i].IsEqual(p.G) && !p.Hh[i].IsEqual(p.G)
		for j := range p.Gg {
			ok = ok && !p.Gg[i].IsEqual(p.Hh[j]) && (i == j || (!p.Gg[i].IsEqual(p.Gg[j]) && !p.Hh[i].IsEqual(p.Hh[j])))
		}
		rt.Assert("the generators are pairwise different elements", ok)
	}
	q, err := Setup(int64(1)<<uint(n), g)
	same := err == nil && q.H.IsEqual(p.H)
	for i := range p.Gg {
		same = same && q.Gg[i].IsEqual(p.Gg[i]) && q.Hh[i].IsEqual(p.Hh[i])
	}
	rt.Assert("set-up is reproducible", same)
	rt.Reach("done")
}

// Set-ups do not influence each other.
func verif_C21_independent() {
	rt.Bound("two different curves, bit lengths 1..4, in alternation")
	i, j := rt.Choice("first", 4), rt.Choice("second", 4)
	if i == j {
		return
	}
	g, h := vgroup(i), vgroup(j)
	n, m := int64(1)<<uint(rt.Choice("n", 3)), int64(1)<<uint(rt.Choice("m", 3))
	p, e1 := Setup(int64(1)<<uint(n), g)
	q, e2 := Setup(int64(1)<<uint(m), h)
	r, e3 := Setup(int64(1)<<uint(n), g)
	rt.Assert("set-up succeeds", e1 == nil && e2 == nil && e3 == nil)
	rt.Assert("each set-up is in its own group", p.GP.Name() == g.Name() && q.GP.Name() == h.Name() && r.GP.Name() == g.Name())
	rt.Assert("each set-up has its own length", p.N == n && q.N == m && r.N == n && int64(len(q.Gg)) == m && int64(len(q.Hh)) == m && int64(len(r.Gg)) == n && int64(len(r.Hh)) == n)
	mixed := rt.Panics(func() {
		ok := q.H.IsEqual(vmapped(h, SEEDH)) && q.G.IsEqual(h.Generator()) && r.G.IsEqual(p.G) && r.H.IsEqual(p.H)
		for k := range q.Gg {
			ok = ok && !q.Gg[k].IsEqual(q.H) && !q.Hh[k].IsEqual(q.H)
		}
		for k := range r.Gg {
			ok = ok && r.Gg[k].IsEqual(p.Gg[k]) && r.Hh[k].IsEqual(p.Hh[k])
		}
		rt.Assert("set-ups do not influence each other", ok)
	})
	rt.Assert("all generators belong to the group of the set-up", !mixed)
	rt.Reach("done")
}

func vmapped(g group.Group, s string) group.Element {
	e, _ := g.Element().MapToGroup(s)
	return e
}
