package voteproof

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

var c25lengths = []uint16{1, 7, 8, 12, 100, 128, 130, 200, 224, 231, 233}

// The challenge of a proof can be every number of its stated length.
func verif_C25_vote() {
	rt.Bound("P-256, challenge lengths 1, 7, 8, 12, 100, 128, 130, 200, 224, 231, 233, every hash output; 1 round of the abort loop")
	rt.LoopBound(1)
	bc := c25lengths[rt.Choice("length", len(c25lengths))]
	c25vote(group.P256(), 8, bc)
}

func verif_C25_vote_long() {
	rt.Bound("P-384, challenge lengths 241, 248, 255, 256, every hash output; 1 round of the abort loop")
	rt.LoopBound(1)
	c25vote(group.P384(), 16, []uint16{241, 248, 255, 256}[rt.Choice("length", 4)])
}

func c25vote(g group.Group, bx uint8, bc uint16) {
	p := vparams(g, bx, bc)
	secret := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(int(bx)), vone))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	proof := Prove(secret, rp, rq1, rq2, p)
	rt.Assert("challenge is below 2^Bc", proof.Challenge.Sign() >= 0 && proof.Challenge.Cmp(vpow2(int(bc))) < 0)
	rt.FullRange(fmt.Sprintf("every challenge of %d bits is possible", bc), proof.Challenge, int(bc))
	rt.Reach("done")
}
