package voteproof

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

type c20case struct {
	p     ProofParams
	comm  VerCommitments
	proof SigmaProof
}

func c20honest(ec group.Group) *c20case {
	rt.LoopBound(1)
	p := vparams(ec, 16, 224)
	secret := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(16), vone))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	return &c20case{p, vcommit(secret, rp, rq1, rq2, p), Prove(secret, rp, rq1, rq2, p)}
}

func c20hashes(f func()) []*big.Int {
	rt.RecordHashes()
	f()
	return rt.Hashes()
}

// Every part of the statement and of the first move enters the challenge, at its place.
func c20vote(ec group.Group) {
	c := c20honest(ec)
	before := c20hashes(func() { c.proof.Verify(c.comm) })
	ff, eg := c.p.GFF.I, c.p.GEC.I
	at := func(e group.Element, g group.Group) group.Element {
		return g.Element().Add(e, g.Element().BaseScale(vdelta("d", g.N())))
	}
	switch rt.Choice("what", 14) {
	case 0:
		c.comm.Y = at(c.comm.Y, ff)
	case 1:
		c.comm.Xp = at(c.comm.Xp, ff)
	case 2:
		c.comm.Xq1 = at(c.comm.Xq1, eg)
	case 3:
		c.comm.Xq2 = at(c.comm.Xq2, eg)
	case 4:
		c.proof.W = at(c.proof.W, ff)
	case 5:
		c.proof.Kp = at(c.proof.Kp, ff)
	case 6:
		c.proof.Kq1 = at(c.proof.Kq1, eg)
	case 7:
		c.proof.Kq2 = at(c.proof.Kq2, eg)
	case 8:
		rt.Assume(!c.comm.Y.IsEqual(c.comm.Xp))
		c.comm.Y, c.comm.Xp = c.comm.Xp, c.comm.Y
	case 9:
		rt.Assume(!c.comm.Xq1.IsEqual(c.comm.Xq2))
		c.comm.Xq1, c.comm.Xq2 = c.comm.Xq2, c.comm.Xq1
	case 10:
		rt.Assume(!c.proof.W.IsEqual(c.proof.Kp))
		c.proof.W, c.proof.Kp = c.proof.Kp, c.proof.W
	case 11:
		rt.Assume(!c.proof.Kq1.IsEqual(c.proof.Kq2))
		c.proof.Kq1, c.proof.Kq2 = c.proof.Kq2, c.proof.Kq1
	case 12:
		rt.Assume(!c.comm.Xp.IsEqual(c.proof.W))
		c.comm.Xp, c.proof.W = c.proof.W, c.comm.Xp
	case 13:
		rt.Assume(!c.comm.Xq2.IsEqual(c.proof.Kq1))
		c.comm.Xq2, c.proof.Kq1 = c.proof.Kq1, c.comm.Xq2
	}
	after := c20hashes(func() { c.proof.Verify(c.comm) })
	if len(before) == 0 || len(after) != len(before) {
		return
	}
	k := 0
	for i := range before {
		if before[i].Cmp(after[i]) != 0 {
			k++
		}
	}
	rt.Assert("the challenge changes with every part and their order", k > 0)
	rt.Reach("compared")
}

func verif_C20_vote() {
	rt.Bound("every curve: each of the 8 parts of statement and first move changed by any nonzero multiple of the generator, or two swapped")
	c20vote(vcurve(rt.Choice("curve", 4)))
}

// Elements whose encodings have no fixed length: moving digits between
// neighbours must not keep the hash input the same (16|4 and 1|64).
func verif_C20_vote_split() {
	rt.Bound("P-256: two neighbouring mod p elements with the same concatenated digits")
	c := c20honest(group.P256())
	ff := c.p.GFF.I
	pow := func(k int64) group.Element { return ff.Element().BaseScale(big.NewInt(k)) }
	set := func(a, b group.Element, which int) {
		if which == 0 {
			c.comm.Y, c.comm.Xp = a, b
		} else {
			c.proof.W, c.proof.Kp = a, b
		}
	}
	which := rt.Choice("which", 2)
	set(pow(4), pow(2), which)
	before := c20hashes(func() { c.proof.Verify(c.comm) })
	set(pow(0), pow(6), which)
	after := c20hashes(func() { c.proof.Verify(c.comm) })
	if len(before) == 0 || len(after) != len(before) {
		return
	}
	k := 0
	for i := range before {
		if before[i].Cmp(after[i]) != 0 {
			k++
		}
	}
	rt.Assert("different elements give different challenges", k > 0)
	rt.Reach("compared")
}

// A first-move element adapted to the challenge.
func verif_C20_vote_adaptive() {
	rt.Bound("P-256: one first-move or statement element adapted to the challenge, with the response or statement part that compensates it")
	c := c20honest(group.P256())
	ff, ec := c.p.GFF.I, c.p.GEC.I
	ch := c.proof.Challenge
	rt.Assume(ch.Sign() != 0)
	sh := func(e group.Element, g group.Group, h group.Element, s *big.Int) group.Element {
		return g.Element().Add(e, g.Element().Scale(h, s))
	}
	switch rt.Choice("what", 7) {
	case 0:
		// W and Kp together with sp
		d := vdelta("d", ff.N())
		c.proof.W = sh(c.proof.W, ff, ff.Generator(), d)
		c.proof.Kp = sh(c.proof.Kp, ff, c.p.GFF.H, d)
		c.proof.Sp = new(big.Int).Add(c.proof.Sp, d)
	case 1:
		d := vdelta("d", ec.N())
		c.proof.Kq1 = sh(c.proof.Kq1, ec, c.p.GEC.H, d)
		c.proof.Sq1 = new(big.Int).Add(c.proof.Sq1, d)
	case 2:
		d := vdelta("d", ec.N())
		c.proof.Kq2 = sh(c.proof.Kq2, ec, c.p.GEC.H, d)
		c.proof.Sq2 = new(big.Int).Add(c.proof.Sq2, d)
	case 3:
		// a first-move element against its statement element
		d := vdelta("d", ff.N())
		c.comm.Y = sh(c.comm.Y, ff, ff.Generator(), d)
		c.proof.W = sh(c.proof.W, ff, ff.Generator(), new(big.Int).Neg(new(big.Int).Mul(d, ch)))
	case 4:
		d := vdelta("d", ff.N())
		c.comm.Xp = sh(c.comm.Xp, ff, ff.Generator(), d)
		c.proof.Kp = sh(c.proof.Kp, ff, ff.Generator(), new(big.Int).Neg(new(big.Int).Mul(d, ch)))
	case 5:
		d := vdelta("d", ec.N())
		c.comm.Xq1 = sh(c.comm.Xq1, ec, ec.Generator(), d)
		c.proof.Kq1 = sh(c.proof.Kq1, ec, ec.Generator(), new(big.Int).Neg(new(big.Int).Mul(d, ch)))
	case 6:
		d := vdelta("d", ec.N())
		c.comm.Xq2 = sh(c.comm.Xq2, ec, ec.Generator(), d)
		c.proof.Kq2 = sh(c.proof.Kq2, ec, ec.Generator(), new(big.Int).Neg(new(big.Int).Mul(d, ch)))
	}
	rt.Assert("message chosen after the challenge is rejected", !c.proof.Verify(c.comm))
	rt.Reach("rejected")
}
