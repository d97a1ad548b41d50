package bulletproofs

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func c22eqmod(a, b, n *big.Int) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, n).Sign() == 0
}

// ScalarProduct over every curve order.
func verif_C22_scalarproduct() {
	rt.Bound("every curve, vector lengths 0..3, entries in [-2^300,2^300]")
	g := vcurve()
	n, m := rt.Choice("n", 4), rt.Choice("m", 4)
	a, b := c22vec("a", n), c22vec("b", m)
	before := rt.Snap(a, b, g.N())
	s, err := ScalarProduct(a, b, g)
	rt.Assert("inputs unchanged", rt.Same(before, rt.Snap(a, b, g.N())))
	if n != m {
		rt.Assert("length mismatch is an error", err != nil)
		return
	}
	rt.Assert("no error", err == nil)
	w := new(big.Int)
	for i := range a {
		w.Add(w, new(big.Int).Mul(a[i], b[i]))
	}
	w.Mod(w, g.N())
	rt.Assert("ScalarProduct", s.Cmp(w) == 0)
	rt.Reach("done")
}

// Powers.
func verif_C22_powers() {
	rt.Bound("every curve, 0..8, 16 or 32 (thorough 0..32) powers of any x in [-2^300,2^300]")
	g := vcurve()
	max := 11
	if rt.Thorough() {
		max = 33
	}
	n := rt.Choice("n", max)
	if max == 11 && n > 8 {
		n = 16 * (n - 8)
	}
	x := c22big("x")
	before := rt.Snap(x, g.N())
	p := powerOf(x, int64(n), g)
	rt.Assert("inputs unchanged", rt.Same(before, rt.Snap(x, g.N())))
	rt.Assert("length", len(p) == n)
	w := big.NewInt(1)
	for i := range p {
		rt.Assert("powerOf", c22eqmod(p[i], w, g.N()))
		w = new(big.Int).Mul(w, x)
		w.Mod(w, g.N())
	}
	rt.Reach("done")
}

// IsPowerOfTwo for every int64.
func verif_C22_powertwo() {
	rt.Bound("all 2^64 arguments")
	b := rt.Int64("b")
	if b <= 0 {
		rt.Assert("no number below 1 is a power of two", !IsPowerOfTwo(b))
		return
	}
	top := uint(0)
	for s := uint(32); s > 0; s /= 2 {
		if b>>(top+s) != 0 {
			top += s
		}
	}
	want := b == int64(1)<<top
	rt.Assert("IsPowerOfTwo", IsPowerOfTwo(b) == want)
	rt.Reach("done")
}

// Powers of particular numbers.
func verif_C22_smallpowers() {
	rt.Bound("every curve, 0..33 powers of 0, 1, 2, 3, 2^31, 2^32, 2^63, 2^64, -1, -2, N-1, N, N+2")
	g := vcurve()
	N := g.N()
	two := big.NewInt(2)
	xs := []*big.Int{new(big.Int), big.NewInt(1), two, big.NewInt(3), big.NewInt(1 << 31), big.NewInt(1 << 32), new(big.Int).Lsh(two, 62), new(big.Int).Lsh(two, 63),
		big.NewInt(-1), big.NewInt(-2), new(big.Int).Sub(N, big.NewInt(1)), new(big.Int).Set(N), new(big.Int).Add(N, two)}
	x := xs[rt.Choice("x", len(xs))]
	n := rt.Choice("n", 34)
	p := powerOf(x, int64(n), g)
	rt.Assert("length", len(p) == n)
	w := big.NewInt(1)
	for i := range p {
		rt.Assert("powerOf", c22eqmod(p[i], w, N))
		w = new(big.Int).Mul(w, x)
		w.Mod(w, N)
	}
	rt.Reach("done")
}

// ScalarProduct of vectors as long as those of the proofs.
func verif_C22_longscalar() {
	rt.Bound("every curve, vector lengths 5, 8, 16, 32, entries in [-2^300,2^300]")
	g := vcurve()
	n := []int{5, 8, 16, 32}[rt.Choice("n", 4)]
	a, b := c22vec("a", n), c22vec("b", n)
	s, err := ScalarProduct(a, b, g)
	rt.Assert("no error", err == nil)
	w := new(big.Int)
	for i := range a {
		w.Add(w, new(big.Int).Mul(a[i], b[i]))
	}
	rt.Assert("ScalarProduct", s.Cmp(w.Mod(w, g.N())) == 0)
	rt.Reach("done")
}
