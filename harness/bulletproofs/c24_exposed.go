package bulletproofs

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func c24differ(a, b []*big.Int, d *big.Int) bool {
	if len(a) != len(b) {
		return true
	}
	minus := new(big.Int).Neg(d)
	for i := range a {
		x := new(big.Int).Sub(b[i], a[i])
		if x.Cmp(d) == 0 || x.Cmp(minus) == 0 {
			return false
		}
	}
	return true
}

// No number of the proof is a secret, a blinding value or such a value plus a
// constant: none moves by exactly as much as one of them does.
func verif_C24_exposed() {
	rt.Bound("P-256 and ristretto255, n = 2, one value and two values of 1 bit: every number anywhere in the proof against every draw and the secret")
	g := vgroup([]int{0, 3}[rt.Choice("curve", 2)])
	params := vsetup(2, g)
	multi := rt.Choice("values", 2) == 1
	hi := int64(3)
	if multi {
		hi = 1
	}
	s1 := rt.Big("s1", new(big.Int), big.NewInt(hi))
	s2 := rt.Big("s2", new(big.Int), big.NewInt(hi))
	rt.Assume(s1.Cmp(s2) != 0)
	run := func(s *big.Int) []*big.Int {
		if multi {
			p, _, err := MultiProve([]*big.Int{s, big.NewInt(1)}, params)
			rt.Assert("proving succeeds", err == nil)
			return rt.Numbers(p)
		}
		p, _, err := Prove(s, params)
		rt.Assert("proving succeeds", err == nil)
		return rt.Numbers(p)
	}
	from := len(rt.Draws())
	a := run(s1)
	to := len(rt.Draws())
	rt.Assert("responses are released", len(a) >= 6)
	for j := from; j < to; j++ {
		at := len(rt.Draws())
		rt.Redraw(from, to, j)
		b := run(s1)
		d := new(big.Int).Sub(rt.Draws()[at+j-from], rt.Draws()[j])
		rt.Assume(len(rt.Draws())-at == to-from && d.Sign() != 0)
		rt.Assert("no blinding value is released", c24differ(a, b, d))
	}
	rt.Redraw(from, to, to)
	b := run(s2)
	rt.Assert("the secret is not released", c24differ(a, b, new(big.Int).Sub(s2, s1)))
	rt.Reach("done")
}
