package bulletproofs

import (
	"fmt"
	"math"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Vectors of elements.
func verif_C22_elements() {
	rt.Bound("every curve, vectors of 0..3 elements of any value (secp256k1: 0..1), exponents in [-2^300,2^300]")
	i := rt.Choice("curve", 4)
	g := vgroup(i)
	max := 4
	if i == 2 {
		max = 2
	}
	n, m := rt.Choice("n", max), rt.Choice("m", max)
	es := func(name string, n int) ([]group.Element, []*big.Int) {
		v := make([]group.Element, n)
		x := make([]*big.Int, n)
		for i := range v {
			x[i] = rt.Big(fmt.Sprintf("%s%d", name, i), new(big.Int), new(big.Int).Sub(g.N(), big.NewInt(1)))
			v[i] = g.Element().BaseScale(x[i])
		}
		return v, x
	}
	a, ax := es("a", n)
	b, bx := es("b", m)
	e := c22vec("e", m)
	before := rt.Snap(a, b, e)
	sum, e1 := VectorECAdd(a, b, g)
	exp, e2 := VectorExp(a, e, g)
	rt.Assert("inputs unchanged", rt.Same(before, rt.Snap(a, b, e)))
	if n != m {
		rt.Assert("length mismatch is an error", e1 != nil && e2 != nil)
		return
	}
	rt.Assert("no error", e1 == nil && e2 == nil && len(sum) == n)
	w := new(big.Int)
	for i := range a {
		rt.Assert("VectorECAdd", sum[i].IsEqual(g.Element().BaseScale(new(big.Int).Add(ax[i], bx[i]))))
		w.Add(w, new(big.Int).Mul(ax[i], e[i]))
	}
	rt.Assert("VectorExp", exp.IsEqual(g.Element().BaseScale(w.Mod(w, g.N()))))
	rt.Assert("the identity is unchanged", g.Identity().IsEqual(g.Element().BaseScale(new(big.Int))))
	rt.Reach("done")
}

// Helpers with one vector.
func verif_C22_unary() {
	rt.Bound("vector lengths 0..3, entries in [-2^300,2^300], moduli 7, the P-256 order, 2^64; all int64 for conversion")
	n := rt.Choice("n", 4)
	mod := c22mod()
	a, c := c22vec("a", n), c22big("c")
	before := rt.Snap(a, c, mod)
	ac := VectorAddConst(a, c, mod)
	am, e1 := VectorScalarMul(a, c, mod)
	cp, e2 := VectorCopy(c, int64(n))
	rt.Assert("inputs unchanged", rt.Same(before, rt.Snap(a, c, mod)))
	rt.Assert("no error", e1 == nil && e2 == nil && len(ac) == n && len(am) == n && len(cp) == n)
	for i := range a {
		w := new(big.Int).Mod(new(big.Int).Add(a[i], c), mod)
		rt.Assert("VectorAddConst", ac[i].Cmp(w) == 0)
		w = new(big.Int).Mod(new(big.Int).Mul(a[i], c), mod)
		rt.Assert("VectorScalarMul", am[i].Cmp(w) == 0)
		rt.Assert("VectorCopy", cp[i].Cmp(c) == 0)
	}
	rt.Reach("done")
}

func verif_C22_convert() {
	rt.Bound("vectors of 0..3 entries of any int64 value")
	n := rt.Choice("n", 4)
	a := make([]int64, n)
	for i := range a {
		a[i] = int64(rt.Int(fmt.Sprintf("a%d", i), math.MinInt64, math.MaxInt64))
	}
	v, err := VectorConvertToBig(a, int64(n))
	rt.Assert("no error", err == nil && len(v) == n)
	for i := range a {
		rt.Assert("VectorConvertToBig", v[i].IsInt64() && v[i].Int64() == a[i])
	}
	rt.Reach("done")
}
