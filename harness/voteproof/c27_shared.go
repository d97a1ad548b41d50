package voteproof

import (
	"encoding/json"
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// Vote proofs made and verified at the same time with the same parameters.
func verif_C27_vote() {
	rt.Bound("every curve, Bx = 16, Bc = 224, one round of the abort loop: shared parameters, secret, statement and proof")
	rt.LoopBound(1)
	p := vparams(vcurve(rt.Choice("curve", 4)), 16, 224)
	secret := rt.Big("secret", new(big.Int), big.NewInt(65535))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	comm := vcommit(secret, rp, rq1, rq2, p)
	proof := Prove(secret, rp, rq1, rq2, p)
	switch rt.Choice("what", 3) {
	case 0:
		rt.Shared("concurrent vote proofs share no state", func() {
			_ = Prove(secret, rp, rq1, rq2, p)
		}, &p, secret, rp, rq1, rq2)
	case 1:
		rt.Shared("concurrent vote-proof verifications share no state", func() {
			_ = proof.Verify(comm)
		}, &p, &proof, &comm)
	case 2:
		msg, err := json.Marshal(proof)
		rt.Assert("encoding succeeds", err == nil)
		rt.Shared("concurrent encoding and decoding of vote proofs share no state", func() {
			_, _ = json.Marshal(proof)
			var q SigmaProof
			_ = json.Unmarshal(msg, &q)
		}, &p, &proof, msg)
	}
	rt.Reach("done")
}
