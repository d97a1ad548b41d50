package voteproof

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

type c09case struct {
	p                    ProofParams
	secret, rp, rq1, rq2 *big.Int
	comm                 VerCommitments
	proof                SigmaProof
	tag                  string
}

func c09honest(p ProofParams) *c09case {
	c := &c09case{p: p}
	c.secret = rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(16), vone))
	c.rp = vscalar("rp", p.GFF.N)
	c.rq1 = vscalar("rq1", p.GEC.N)
	c.rq2 = vscalar("rq2", p.GEC.N)
	c.comm = vcommit(c.secret, c.rp, c.rq1, c.rq2, p)
	c.proof = Prove(c.secret, c.rp, c.rq1, c.rq2, p)
	return c
}

func c09shift(e group.Element, g group.Group, d *big.Int) group.Element {
	return g.Element().Add(e, g.Element().BaseScale(d))
}

// c09alter changes one part of statement or proof.
func (c *c09case) alter(part int) {
	ff, ec := c.p.GFF.I, c.p.GEC.I
	switch part {
	case 0:
		c.comm.Y = c09shift(c.comm.Y, ff, vdelta("d"+c.tag, ff.N()))
	case 1:
		c.comm.Xp = c09shift(c.comm.Xp, ff, vdelta("d"+c.tag, ff.N()))
	case 2:
		c.comm.Xq1 = c09shift(c.comm.Xq1, ec, vdelta("d"+c.tag, ec.N()))
	case 3:
		c.comm.Xq2 = c09shift(c.comm.Xq2, ec, vdelta("d"+c.tag, ec.N()))
	case 4:
		c.proof.W = c09shift(c.proof.W, ff, vdelta("d"+c.tag, ff.N()))
	case 5:
		c.proof.Kp = c09shift(c.proof.Kp, ff, vdelta("d"+c.tag, ff.N()))
	case 6:
		c.proof.Kq1 = c09shift(c.proof.Kq1, ec, vdelta("d"+c.tag, ec.N()))
	case 7:
		c.proof.Kq2 = c09shift(c.proof.Kq2, ec, vdelta("d"+c.tag, ec.N()))
	case 8:
		d := rt.Big("d"+c.tag, new(big.Int).Neg(vpow2(300)), vpow2(300))
		rt.Assume(d.Sign() != 0)
		c.proof.Challenge = new(big.Int).Add(c.proof.Challenge, d)
	case 9:
		d := rt.Big("d"+c.tag, new(big.Int).Neg(vpow2(300)), vpow2(300))
		rt.Assume(d.Sign() != 0)
		c.proof.Z = new(big.Int).Add(c.proof.Z, d)
	case 10:
		c.proof.Sp = new(big.Int).Add(c.proof.Sp, vdelta("d"+c.tag, ff.N()))
	case 11:
		c.proof.Sq1 = new(big.Int).Add(c.proof.Sq1, vdelta("d"+c.tag, ec.N()))
	case 12:
		c.proof.Sq2 = new(big.Int).Add(c.proof.Sq2, vdelta("d"+c.tag, ec.N()))
	}
}

func verif_C09_altered() {
	rt.Bound("P-256: each of the 13 parts of statement and proof altered, by any nonzero difference; 1 loop iteration")
	rt.LoopBound(1)
	c := c09honest(vparams(group.P256(), 16, 224))
	c.alter(rt.Choice("part", 13))
	rt.Assert("altered proof or statement is rejected", !c.proof.Verify(c.comm))
	rt.Reach("rejected")
}

func verif_C09_altered_curves() {
	rt.Bound("the other curves: the parts over the curve altered, by any nonzero difference")
	rt.LoopBound(1)
	c := c09honest(vparams(vcurve(rt.Choice("curve", 3)+1), 16, 224))
	c.alter([]int{2, 3, 6, 7, 9, 11, 12}[rt.Choice("part", 7)])
	rt.Assert("altered proof or statement is rejected", !c.proof.Verify(c.comm))
	rt.Reach("rejected")
}

// With the identity as ElGamal key only the relation of the first ciphertext
// part depends on sp.
func verif_C09_first_part() {
	rt.LoopBound(1)
	p := vparams(group.P256(), 16, 224)
	p.GFF.H = p.GFF.I.Identity()
	c := c09honest(p)
	c.alter(10)
	rt.Assert("the relation of the first ciphertext part is checked", !c.proof.Verify(c.comm))
	rt.Reach("rejected")
}

// The prover uses another ElGamal key: only the relation of the second
// ciphertext part is broken.
func verif_C09_second_part() {
	rt.LoopBound(1)
	p := vparams(group.P256(), 16, 224)
	q := p
	q.GFF.H = c09shift(p.GFF.H, p.GFF.I, vdelta("d", p.GFF.N))
	c := c09honest(q)
	rt.Assume(c.rp.Sign() != 0)
	c.proof.Params = p
	rt.Assert("the relation of the second ciphertext part is checked", !c.proof.Verify(c.comm))
	rt.Reach("rejected")
}

// Statement and response are changed together so that the relations keep
// holding: the challenge must bind the statement.
func verif_C09_adaptive() {
	rt.Bound("P-256: statement chosen after the challenge, for each of the ciphertext and the commitments")
	rt.LoopBound(1)
	p := vparams(group.P256(), 16, 224)
	c := c09honest(p)
	ff, ec := p.GFF.I, p.GEC.I
	rt.Assume(c.proof.Challenge.Sign() != 0)
	switch rt.Choice("part", 3) {
	case 0:
		d := vdelta("d", ff.N())
		inv := new(big.Int).ModInverse(c.proof.Challenge, ff.N())
		rt.Assume(inv != nil)
		e := inv.Mul(inv, d)
		c.comm.Y = c09shift(c.comm.Y, ff, e)
		c.comm.Xp = ff.Element().Add(c.comm.Xp, ff.Element().Scale(p.GFF.H, e))
		c.proof.Sp = new(big.Int).Add(c.proof.Sp, d)
	case 1:
		d := vdelta("d", ec.N())
		inv := new(big.Int).ModInverse(c.proof.Challenge, ec.N())
		rt.Assume(inv != nil)
		e := inv.Mul(inv, d)
		c.comm.Xq1 = ec.Element().Add(c.comm.Xq1, ec.Element().Scale(p.GEC.H, e))
		c.proof.Sq1 = new(big.Int).Add(c.proof.Sq1, d)
	case 2:
		d := vdelta("d", ec.N())
		inv := new(big.Int).ModInverse(c.proof.Challenge, ec.N())
		rt.Assume(inv != nil)
		e := inv.Mul(inv, d)
		c.comm.Xq2 = ec.Element().Add(c.comm.Xq2, ec.Element().Scale(p.GEC.H, e))
		c.proof.Sq2 = new(big.Int).Add(c.proof.Sq2, d)
	}
	rt.Assert("statement adapted to the challenge is rejected", !c.proof.Verify(c.comm))
	rt.Reach("rejected")
}

// The prover works with other interval bounds than the verifier.
func c09interval(curve int, bx uint8, bc uint16) {
	rt.LoopBound(1)
	p := vparams(vcurve(curve), bx, bc)
	q := p
	if rt.Choice("side", 2) == 0 {
		q.Bb += 24
	} else {
		q.Bx = 0
		q.Bb += int(bx)
	}
	c := c09honest(q)
	c.proof.Params = p
	ok := c.proof.Verify(c.comm)
	lo, hi := vpow2(int(bx)+int(bc)), vpow2(int(bx)+int(bc)+p.Bb)
	in := c.proof.Z.Cmp(lo) >= 0 && c.proof.Z.Cmp(hi) < 0
	rt.Assert("accepted exactly when the response is in the interval", ok == in)
	rt.Reach("done")
}

func verif_C09_interval() {
	rt.Bound("P-256: prover with a response interval wider than the verifier's by up to 24 bits on each side")
	c09interval(0, 16, 224)
}

func verif_C09_lengths() {
	rt.Bound("the same with secret and challenge lengths (32,224), (255,120) on P-384 and (128,120), (8,100) on P-256")
	switch rt.Choice("lengths", 4) {
	case 0:
		c09interval(1, 32, 224)
	case 1:
		c09interval(1, 255, 120)
	case 2:
		c09interval(0, 128, 120)
	case 3:
		c09interval(0, 8, 100)
	}
}
