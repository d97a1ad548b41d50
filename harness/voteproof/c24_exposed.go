package voteproof

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func c24differ(a, b []*big.Int, d *big.Int) bool {
	if len(a) != len(b) {
		return true
	}
	minus := new(big.Int).Neg(d)
	for i := range a {
		x := new(big.Int).Sub(b[i], a[i])
		if x.Cmp(d) == 0 || x.Cmp(minus) == 0 {
			return false
		}
	}
	return true
}

// No number of the proof is a secret, a mask or such a value plus a constant:
// none moves by exactly as much as one of them does.
func verif_C24_exposed() {
	rt.Bound("P-256 and ristretto255, Bx=16, Bc=224, any nonzero secret and randomness, one round of the abort loop: every number anywhere in the proof against every draw, the secret and its randomness")
	rt.LoopBound(1)
	p := vparams(vcurve([]int{0, 3}[rt.Choice("curve", 2)]), 16, 224)
	s := rt.Big("s", vone, big.NewInt(65535))
	x := []*big.Int{s, vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)}
	// with 0, a response is the mask itself
	rt.Assume(x[1].Sign() > 0 && x[2].Sign() > 0 && x[3].Sign() > 0)
	from := len(rt.Draws())
	a := rt.Numbers(Prove(x[0], x[1], x[2], x[3], p))
	to := len(rt.Draws())
	rt.Assert("responses are released", len(a) >= 4)
	for j := from; j < to; j++ {
		at := len(rt.Draws())
		rt.Redraw(from, to, j)
		b := rt.Numbers(Prove(x[0], x[1], x[2], x[3], p))
		d := new(big.Int).Sub(rt.Draws()[at+j-from], rt.Draws()[j])
		// a rerun that discards a response draws more, a draw may repeat
		rt.Assume(len(rt.Draws())-at == to-from && d.Sign() != 0)
		rt.Assert("no mask is released", c24differ(a, b, d))
	}
	i := rt.Choice("input", 4)
	other := []*big.Int{rt.Big("s2", new(big.Int), big.NewInt(65535)), vscalar("rp2", p.GFF.N), vscalar("rq12", p.GEC.N), vscalar("rq22", p.GEC.N)}
	y := append([]*big.Int(nil), x...)
	y[i] = other[i]
	rt.Assume(y[i].Cmp(x[i]) != 0)
	at := len(rt.Draws())
	rt.Redraw(from, to, to)
	b := rt.Numbers(Prove(y[0], y[1], y[2], y[3], p))
	rt.Assume(len(rt.Draws())-at == to-from)
	rt.Assert("neither the secret nor its randomness is released", c24differ(a, b, new(big.Int).Sub(y[i], x[i])))
	rt.Reach("done")
}
