package bulletproofs

import (
	"fmt"
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

var c22lim = new(big.Int).Lsh(big.NewInt(1), 300)

func c22big(name string) *big.Int {
	return rt.Big(name, new(big.Int).Neg(c22lim), c22lim)
}

func c22vec(name string, n int) []*big.Int {
	v := make([]*big.Int, n)
	for i := range v {
		v[i] = c22big(fmt.Sprintf("%s%d", name, i))
	}
	return v
}

func c22mod() *big.Int {
	m := rt.Choice("modulus", 3)
	if m == 0 {
		return big.NewInt(7)
	}
	if m == 1 {
		// the order of P-256
		v, _ := new(big.Int).SetString("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16)
		return v
	}
	return new(big.Int).Lsh(big.NewInt(1), 64)
}

func verif_C22_binary() {
	rt.Bound("vector lengths 0..4, entries in [-2^300,2^300], moduli 7, the P-256 order, 2^64")
	n := rt.Choice("n", 4)
	m := rt.Choice("m", 4)
	mod := c22mod()
	a, b := c22vec("a", n), c22vec("b", m)
	before := rt.Snap(a, b, mod)
	add, e1 := VectorAdd(a, b, mod)
	sub, e2 := VectorSub(a, b, mod)
	mul, e3 := VectorMul(a, b, mod)
	rt.Assert("inputs changed", rt.Same(before, rt.Snap(a, b, mod)))
	if n != m {
		rt.Assert("length mismatch is an error", e1 != nil && e2 != nil && e3 != nil)
		return
	}
	rt.Assert("no error", e1 == nil && e2 == nil && e3 == nil)
	rt.Assert("lengths", len(add) == n && len(sub) == n && len(mul) == n)
	for i := range a {
		w := new(big.Int).Mod(new(big.Int).Add(a[i], b[i]), mod)
		rt.Assert("VectorAdd", add[i].Cmp(w) == 0)
		w = new(big.Int).Mod(new(big.Int).Sub(a[i], b[i]), mod)
		rt.Assert("VectorSub", sub[i].Cmp(w) == 0)
		w = new(big.Int).Mod(new(big.Int).Mul(a[i], b[i]), mod)
		rt.Assert("VectorMul", mul[i].Cmp(w) == 0)
	}
	ip := VectorInnerProduct(a, b, mod)
	w := new(big.Int)
	for i := range a {
		w.Add(w, new(big.Int).Mul(a[i], b[i]))
	}
	w.Mod(w, mod)
	rt.Assert("VectorInnerProduct", ip.Cmp(w) == 0)
	rt.Assert("inputs changed", rt.Same(before, rt.Snap(a, b, mod)))
}

// Vectors as long as those of the proofs.
func verif_C22_long() {
	rt.Bound("vector lengths 5, 8, 16, 32, entries in [-2^300,2^300], moduli 7, the P-256 order, 2^64")
	n := []int{5, 8, 16, 32}[rt.Choice("n", 4)]
	mod := c22mod()
	a, b, c := c22vec("a", n), c22vec("b", n), c22big("c")
	before := rt.Snap(a, b, c, mod)
	add, e1 := VectorAdd(a, b, mod)
	sub, e2 := VectorSub(a, b, mod)
	mul, e3 := VectorMul(a, b, mod)
	ac := VectorAddConst(a, c, mod)
	am, e4 := VectorScalarMul(a, c, mod)
	cp, e5 := VectorCopy(c, int64(n))
	ip := VectorInnerProduct(a, b, mod)
	rt.Assert("inputs unchanged", rt.Same(before, rt.Snap(a, b, c, mod)))
	rt.Assert("no error", e1 == nil && e2 == nil && e3 == nil && e4 == nil && e5 == nil)
	rt.Assert("lengths", len(add) == n && len(sub) == n && len(mul) == n && len(ac) == n && len(am) == n && len(cp) == n)
	s := new(big.Int)
	for i := range a {
		rt.Assert("VectorAdd", add[i].Cmp(new(big.Int).Mod(new(big.Int).Add(a[i], b[i]), mod)) == 0)
		rt.Assert("VectorSub", sub[i].Cmp(new(big.Int).Mod(new(big.Int).Sub(a[i], b[i]), mod)) == 0)
		rt.Assert("VectorMul", mul[i].Cmp(new(big.Int).Mod(new(big.Int).Mul(a[i], b[i]), mod)) == 0)
		rt.Assert("VectorAddConst", ac[i].Cmp(new(big.Int).Mod(new(big.Int).Add(a[i], c), mod)) == 0)
		rt.Assert("VectorScalarMul", am[i].Cmp(new(big.Int).Mod(new(big.Int).Mul(a[i], c), mod)) == 0)
		rt.Assert("VectorCopy", cp[i].Cmp(c) == 0)
		s.Add(s, new(big.Int).Mul(a[i], b[i]))
	}
	rt.Assert("VectorInnerProduct", ip.Cmp(s.Mod(s, mod)) == 0)
	rt.Reach("done")
}
