package util

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Digits of any number in several bases.
func verif_C22_decompose() {
	rt.Bound("bases 2 (up to 32 digits), 3 and 10 (up to 5 digits), 2^16 and 2^31 (up to 4 digits), every x below u^l; digit count 0 too")
	bases := []int64{2, 3, 10, 65536, 1 << 31}
	lens := [][]int64{{0, 1, 2, 3, 8, 16, 32}, {1, 2, 5}, {1, 2, 5}, {1, 2, 4}, {1, 2, 4}}
	k := rt.Choice("base", len(bases))
	u := bases[k]
	l := lens[k][rt.Choice("l", len(lens[k]))]
	top := new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil)
	x := rt.Big("x", new(big.Int), new(big.Int).Sub(top, big.NewInt(1)))
	before := rt.Snap(x)
	d := Decompose(x, u, l)
	rt.Assert("the input is unchanged", rt.Same(before, rt.Snap(x)))
	rt.Assert("l digits", int64(len(d)) == l)
	sum := new(big.Int)
	for i := len(d) - 1; i >= 0; i-- {
		rt.Assert("digits are below the base", d[i] >= 0 && d[i] < u)
		sum.Mul(sum, big.NewInt(u))
		sum.Add(sum, big.NewInt(d[i]))
	}
	rt.Assert("the digits are those of x", sum.Cmp(x) == 0)
	rt.Reach("done")
}

func c22group(i int) group.Group {
	switch i {
	case 0:
		return group.P256()
	case 1:
		return group.P384()
	case 2:
		return group.SecP256k1()
	}
	return group.Ristretto255()
}

// Commitments for all values, negative and large ones too.
func verif_C22_pedersen() {
	rt.Bound("every curve, values and randomness in [-2^400, 2^400], any second generator")
	g := c22group(rt.Choice("curve", 4))
	lim := new(big.Int).Lsh(big.NewInt(1), 400)
	x, r := rt.Big("x", new(big.Int).Neg(lim), lim), rt.Big("r", new(big.Int).Neg(lim), lim)
	e := rt.Big("h", new(big.Int), new(big.Int).Sub(g.N(), big.NewInt(1)))
	h := g.Element().BaseScale(e)
	before := rt.Snap(x, r, h, e)
	c := PedersenCommit(x, r, h, g)
	rt.Assert("the inputs are unchanged", rt.Same(before, rt.Snap(x, r, h, e)))
	w := new(big.Int).Mul(e, r)
	w.Add(w, x).Mod(w, g.N())
	rt.Assert("the commitment is xG + rH", c.IsEqual(g.Element().BaseScale(w)))
	rt.Reach("done")
}
