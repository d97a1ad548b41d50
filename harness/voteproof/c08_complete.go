package voteproof

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func c08(curve int, bx uint8, bc uint16, bound int) {
	rt.LoopBound(bound)
	rt.ScriptHashes()
	p := vparams(vcurve(curve), bx, bc)
	secret := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(int(bx)), vone))
	rp := vscalar("rp", p.GFF.N)
	rq1 := vscalar("rq1", p.GEC.N)
	rq2 := vscalar("rq2", p.GEC.N)
	before := rt.Snap(secret, rp, rq1, rq2, p.GFF.N, p.GFF.F, p.GEC.N, p.GEC.F)
	proof := Prove(secret, rp, rq1, rq2, p)
	rt.Assert("the prover leaves its inputs as they were", rt.Same(before, rt.Snap(secret, rp, rq1, rq2, p.GFF.N, p.GFF.F, p.GEC.N, p.GEC.F)))
	rt.Assert("proof of a consistent statement is accepted", proof.Verify(vcommit(secret, rp, rq1, rq2, p)))
	rt.Reach("accepted")
}

func verif_C08_complete() {
	rt.Bound("every curve, |secret| 16 bits, challenge 224 bits, 1 iteration of the abort loop")
	c08(rt.Choice("curve", 4), 16, 224, 1)
}

func verif_C08_abort() {
	rt.Bound("P-256, 2 iterations of the abort loop (3 thorough)")
	n := 2
	if rt.Thorough() {
		n = 3
	}
	c08(0, 16, 224, n)
}

func verif_C08_lengths() {
	rt.Bound("P-256 and P-384 with other secret and challenge lengths")
	i := rt.Choice("lengths", 5)
	switch i {
	case 0:
		c08(0, 1, 8, 1)
	case 1:
		c08(0, 8, 128, 1)
	case 2:
		c08(1, 32, 256, 1)
	case 3:
		c08(1, 64, 250, 1)
	case 4:
		c08(1, 8, 16, 1)
	}
}
