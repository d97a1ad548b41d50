package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Inner-product proofs without rounds, for vectors with a single nonzero entry.
func verif_C05_fewer() {
	rt.Bound("P-256, n = 2, 4, 8: vectors that are zero after the first entry, no folding rounds")
	n := int64(1) << uint(1+rt.Choice("n", 3))
	g := group.P256()
	p := vsetup(n, g)
	a, b := rt.Big("a", vpow2(0), vpow2(200)), rt.Big("b", vpow2(0), vpow2(200))
	q, err := setupInnerProduct(p.Gg, p.Hh, n, g)
	rt.Assert("set-up succeeds", err == nil)
	proof := InnerProductProof{A: a, B: b, Cc: new(big.Int).Mul(a, b), Params: q}
	proof.P = g.Element().Add(g.Element().Scale(p.Gg[0], a), g.Element().Scale(p.Hh[0], b))
	ok := true
	var verr error
	rt.Assert("verification does not panic", !rt.Panics(func() { ok, verr = proof.Verify() }))
	rt.Assert("wrong number of rounds is rejected", !ok || verr != nil)
	rt.Reach("rejected")
}
