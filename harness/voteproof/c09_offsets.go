package voteproof

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c09offsets is a proof by a prover that is off, in several places at once, by
// any amounts, which may be chosen to cancel each other.
func c09offsets(p ProofParams, kind int) {
	ff, ec := p.GFF.I, p.GEC.I
	off := make([]*big.Int, 4)
	for i := range off {
		n := ff.N()
		if i >= 2 {
			n = ec.N()
		}
		off[i] = vscalar(fmt.Sprintf("off%d", i), n)
	}
	none := off[0].Sign() == 0 && off[1].Sign() == 0 && off[2].Sign() == 0 && off[3].Sign() == 0
	x := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(16), vone))
	rp, rq1, rq2 := vscalar("rp", ff.N()), vscalar("rq1", ec.N()), vscalar("rq2", ec.N())
	k := rt.Big("k", vpow2(16+224), new(big.Int).Sub(vpow2(16+224+p.Bb), vone))
	tp, tq1, tq2 := vscalar("tp", ff.N()), vscalar("tq1", ec.N()), vscalar("tq2", ec.N())
	shift := func(c VerCommitments) VerCommitments {
		return VerCommitments{Y: c09shift(c.Y, ff, off[0]), Xp: c09shift(c.Xp, ff, off[1]), Xq1: c09shift(c.Xq1, ec, off[2]), Xq2: c09shift(c.Xq2, ec, off[3])}
	}
	comm, m := vcommit(x, rp, rq1, rq2, p), vcommit(k, tp, tq1, tq2, p)
	switch kind {
	case 0:
		comm = shift(comm)
	case 1:
		m = shift(m)
	}
	c := getFSChallenge(comm, m.Y, m.Xp, m.Xq1, m.Xq2, p.Bc)
	resp := func(t, r, n *big.Int) *big.Int {
		v := new(big.Int).Mul(c, r)
		v.Add(v, t)
		return v.Mod(v, n)
	}
	var proof SigmaProof
	proof.W, proof.Kp, proof.Kq1, proof.Kq2 = m.Y, m.Xp, m.Xq1, m.Xq2
	proof.Challenge = c
	proof.Z = new(big.Int).Add(k, new(big.Int).Mul(c, x))
	proof.Sp, proof.Sq1, proof.Sq2 = resp(tp, rp, ff.N()), resp(tq1, rq1, ec.N()), resp(tq2, rq2, ec.N())
	proof.Params = p
	if kind == 2 {
		proof.Z.Add(proof.Z, new(big.Int).Sub(off[0], off[1]))
		none = proof.Z.Cmp(new(big.Int).Add(k, new(big.Int).Mul(c, x))) == 0 && off[2].Sign() == 0 && off[3].Sign() == 0
		proof.Sq1.Add(proof.Sq1, off[2])
		proof.Sq2.Add(proof.Sq2, off[3])
	}
	if kind == 3 {
		none = off[1].Sign() == 0 && off[2].Sign() == 0 && off[3].Sign() == 0
		proof.Sp.Add(proof.Sp, off[1])
		proof.Sq1.Add(proof.Sq1, off[2])
		proof.Sq2.Add(proof.Sq2, off[3])
	}
	ok := proof.Verify(comm)
	rt.Assert("a proof that is off anywhere is rejected, even if the deviations cancel", none || !ok)
	rt.Reach("done")
}

func verif_C09_offsets() {
	rt.Bound("P-256: all four parts of the statement, all four commitments or all responses off at once by any amounts")
	c09offsets(vparams(group.P256(), 16, 224), rt.Choice("kind", 4))
}

func verif_C09_offsets_curves() {
	rt.Bound("P-384 and ristretto255: the same")
	c09offsets(vparams(vcurve([]int{1, 3}[rt.Choice("curve", 2)]), 16, 224), rt.Choice("kind", 4))
}

// Two parts of an honest proof or its statement altered at once.
func verif_C09_pairs() {
	rt.Bound("P-256: each pair of the 13 parts of statement and proof altered, by any nonzero differences")
	rt.LoopBound(1)
	c := c09honest(vparams(group.P256(), 16, 224))
	i := rt.Choice("first", 13)
	j := i + 1 + rt.Choice("second", 12)
	if j > 12 {
		return
	}
	c.tag = ""
	c.alter(i)
	c.tag = "2"
	c.alter(j)
	rt.Assert("a proof or statement altered in two parts is rejected", !c.proof.Verify(c.comm))
	rt.Reach("rejected")
}

// A consistent proof for a challenge that is not the hash of its commitments.
func verif_C09_challenge() {
	rt.Bound("P-256: responses that fit any integer challenge in (-2^257, 2^257) but the right one")
	p := vparams(group.P256(), 16, 224)
	ff, ec := p.GFF.I, p.GEC.I
	x := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(16), vone))
	rp, rq1, rq2 := vscalar("rp", ff.N()), vscalar("rq1", ec.N()), vscalar("rq2", ec.N())
	tp, tq1, tq2 := vscalar("tp", ff.N()), vscalar("tq1", ec.N()), vscalar("tq2", ec.N())
	k := rt.Big("k", vpow2(16+224), new(big.Int).Sub(vpow2(16+224+p.Bb), vone))
	comm, m := vcommit(x, rp, rq1, rq2, p), vcommit(k, tp, tq1, tq2, p)
	h := getFSChallenge(comm, m.Y, m.Xp, m.Xq1, m.Xq2, p.Bc)
	c := rt.Big("challenge", new(big.Int).Neg(vpow2(257)), vpow2(257))
	switch rt.Choice("form", 3) {
	case 1:
		c = new(big.Int).Neg(h)
	case 2:
		c = new(big.Int).Add(h, c)
	}
	rt.Assume(c.Cmp(h) != 0)
	resp := func(t, r, n *big.Int) *big.Int {
		v := new(big.Int).Mul(c, r)
		v.Add(v, t)
		return v.Mod(v, n)
	}
	var proof SigmaProof
	proof.W, proof.Kp, proof.Kq1, proof.Kq2 = m.Y, m.Xp, m.Xq1, m.Xq2
	proof.Challenge = c
	proof.Z = new(big.Int).Add(k, new(big.Int).Mul(c, x))
	proof.Sp, proof.Sq1, proof.Sq2 = resp(tp, rp, ff.N()), resp(tq1, rq1, ec.N()), resp(tq2, rq2, ec.N())
	proof.Params = p
	rt.Assert("a challenge that is not the hash of the commitments is rejected", !proof.Verify(comm))
	rt.Reach("done")
}
