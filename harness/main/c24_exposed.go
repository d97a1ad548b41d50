package main

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// No number of a ballot is the choice, a random value or such a value plus a
// constant: none moves by exactly as much as one of them does.
func verif_C24_exposed() {
	rt.Bound("P-256, n=2, candidates 101..104, every choice of the voter, one round of the abort loop: every number anywhere in the ballot against every draw")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 104)
	run := func() []*big.Int {
		b, _ := castVote(pp)
		return rt.Numbers(b)
	}
	from := len(rt.Draws())
	a := run()
	to := len(rt.Draws())
	rt.Assert("responses are released", len(a) >= 10)
	for j := from; j < to; j++ {
		at := len(rt.Draws())
		rt.Redraw(from, to, j)
		b := run()
		d := new(big.Int).Sub(rt.Draws()[at+j-from], rt.Draws()[j])
		// a rerun that discards a response draws more, a draw may repeat
		rt.Assume(len(rt.Draws())-at == to-from && len(a) == len(b) && d.Sign() != 0)
		minus := new(big.Int).Neg(d)
		ok := true
		for i := range a {
			x := new(big.Int).Sub(b[i], a[i])
			ok = ok && x.Cmp(d) != 0 && x.Cmp(minus) != 0
		}
		rt.Assert("neither the choice nor a random value is released", ok)
	}
	rt.Reach("done")
}
