package voteproof

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// A prover that follows the protocol with a different value in one place.
func verif_C09_mismatch() {
	rt.Bound("P-256: one of the ciphertext and the two commitments is for another 16-bit value")
	p := vparams(group.P256(), 16, 224)
	ff, ec := p.GFF.I, p.GEC.I
	s := []*big.Int{}
	for _, n := range []string{"s0", "s1"} {
		s = append(s, rt.Big(n, new(big.Int), new(big.Int).Sub(vpow2(16), vone)))
	}
	rt.Assume(s[0].Cmp(s[1]) != 0)
	bad := rt.Choice("bad", 3)
	pick := func(i int) *big.Int {
		if i == bad {
			return s[1]
		}
		return s[0]
	}
	rp, rq1, rq2 := vscalar("rp", ff.N()), vscalar("rq1", ec.N()), vscalar("rq2", ec.N())
	a := vcommit(pick(0), rp, rq1, rq2, p)
	b := vcommit(pick(1), rp, rq1, rq2, p)
	d := vcommit(pick(2), rp, rq1, rq2, p)
	comm := VerCommitments{Y: a.Y, Xp: a.Xp, Xq1: b.Xq1, Xq2: d.Xq2}
	k := rt.Big("k", vpow2(16+224), new(big.Int).Sub(vpow2(16+224+p.Bb), vone))
	tp, tq1, tq2 := vscalar("tp", ff.N()), vscalar("tq1", ec.N()), vscalar("tq2", ec.N())
	m := vcommit(k, tp, tq1, tq2, p)
	c := getFSChallenge(comm, m.Y, m.Xp, m.Xq1, m.Xq2, p.Bc)
	resp := func(t, r, n *big.Int) *big.Int {
		x := new(big.Int).Mul(c, r)
		x.Add(x, t)
		return x.Mod(x, n)
	}
	var proof SigmaProof
	proof.W, proof.Kp, proof.Kq1, proof.Kq2 = m.Y, m.Xp, m.Xq1, m.Xq2
	proof.Challenge = c
	proof.Z = new(big.Int).Add(k, new(big.Int).Mul(c, s[0]))
	proof.Sp, proof.Sq1, proof.Sq2 = resp(tp, rp, ff.N()), resp(tq1, rq1, ec.N()), resp(tq2, rq2, ec.N())
	proof.Params = p
	rt.Assert("statement about two different values is rejected", !proof.Verify(comm))
	rt.Reach("rejected")
}
