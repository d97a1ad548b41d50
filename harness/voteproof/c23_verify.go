package voteproof

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Three verifications of one proof.
func verif_C23_vote() {
	rt.Bound("every curve, Bx=16, Bc=224, any secret and randomness, honest proof or one component of proof or statement changed by any amount; three verifications")
	rt.LoopBound(1)
	ec := vcurve(rt.Choice("curve", 4))
	p := vparams(ec, 16, 224)
	ff := p.GFF.I
	secret := rt.Big("secret", new(big.Int), big.NewInt(65535))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	in := rt.Snap(p, secret, rp, rq1, rq2)
	proof := Prove(secret, rp, rq1, rq2, p)
	rt.Assert("proving leaves the parameters and the secrets as they were", rt.Same(in, rt.Snap(p, secret, rp, rq1, rq2)))
	c := vcommit(secret, rp, rq1, rq2, p)
	add := func(g group.Group, e group.Element) group.Element {
		return g.Element().Add(e, g.Element().BaseScale(vdelta("d", g.N())))
	}
	what := rt.Choice("place", 14)
	switch what {
	case 0:
		proof.W = add(ff, proof.W)
	case 1:
		proof.Kp = add(ff, proof.Kp)
	case 2:
		proof.Kq1 = add(ec, proof.Kq1)
	case 3:
		proof.Kq2 = add(ec, proof.Kq2)
	case 4:
		proof.Challenge = new(big.Int).Add(proof.Challenge, vdelta("d", ec.N()))
	case 5:
		proof.Z = new(big.Int).Sub(proof.Z, vdelta("d", ec.N()))
	case 6:
		proof.Sp = new(big.Int).Sub(proof.Sp, vdelta("d", ff.N()))
	case 7:
		proof.Sq1 = new(big.Int).Sub(proof.Sq1, vdelta("d", ec.N()))
	case 8:
		proof.Sq2 = new(big.Int).Add(proof.Sq2, vdelta("d", ec.N()))
	case 9:
		c.Y = add(ff, c.Y)
	case 10:
		c.Xp = add(ff, c.Xp)
	case 11:
		c.Xq1 = add(ec, c.Xq1)
	case 12:
		c.Xq2 = add(ec, c.Xq2)
	}
	before := rt.Snap(proof, c, p)
	ok1 := proof.Verify(c)
	rt.Assert("verification leaves proof, statement and parameters as they were", rt.Same(before, rt.Snap(proof, c, p)))
	ok2 := proof.Verify(c)
	ok3 := proof.Verify(c)
	rt.Assert("every verification gives the same verdict", ok1 == ok2 && ok2 == ok3)
	rt.Assert("exactly the honest proof is accepted", ok3 == (what == 13))
	rt.Reach("done")
}
