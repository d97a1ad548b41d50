package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Inner-product proofs that leave out the last round.
func verif_C05_truncated() {
	rt.Bound("P-256, n = 4: vectors of which two entries are zero, one folding round")
	g := group.P256()
	p := vsetup(4, g)
	var s [4]*big.Int
	for i := range s {
		s[i] = rt.Big([]string{"a0", "a2", "b0", "b2"}[i], vpow2(0), vpow2(200))
	}
	a0, a2, b0, b2 := s[0], s[1], s[2], s[3]
	mul := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	sum := func(e group.Element, x *big.Int, f group.Element, y *big.Int) group.Element {
		return g.Element().Add(g.Element().Scale(e, x), g.Element().Scale(f, y))
	}
	q, err := setupInnerProduct(p.Gg, p.Hh, 4, g)
	rt.Assert("set-up succeeds", err == nil)
	proof := InnerProductProof{Params: q}
	proof.Cc = new(big.Int).Add(mul(a0, b0), mul(a2, b2))
	proof.Cc.Mod(proof.Cc, g.N())
	proof.P = g.Element().Add(sum(p.Gg[0], a0, p.Gg[2], a2), sum(p.Hh[0], b0, p.Hh[2], b2))
	x, err := hashIP(p.Gg, p.Hh, proof.P, proof.Cc)
	rt.Assert("the challenge can be computed", err == nil)
	u := g.Element().Scale(q.Uu, x)
	L := g.Element().Add(sum(p.Gg[2], a0, p.Hh[0], b2), g.Element().Scale(u, mul(a0, b2)))
	R := g.Element().Add(sum(p.Gg[0], a2, p.Hh[2], b0), g.Element().Scale(u, mul(a2, b0)))
	x = hashRound(x, L, R)
	xi := new(big.Int).ModInverse(x, g.N())
	proof.A = new(big.Int).Add(mul(a0, x), mul(a2, xi))
	proof.B = new(big.Int).Add(mul(b0, xi), mul(b2, x))
	proof.L, proof.R = []group.Element{L}, []group.Element{R}
	ok := true
	var verr error
	rt.Assert("verification does not panic", !rt.Panics(func() { ok, verr = proof.Verify() }))
	rt.Assert("wrong number of rounds is rejected", !ok || verr != nil)
	rt.Reach("rejected")
}
