package voteproof

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

func c10among(v *big.Int, draws []*big.Int) bool {
	found := false
	for _, d := range draws {
		if d.Cmp(v) == 0 || new(big.Int).Add(d, vone).Cmp(v) == 0 {
			found = true
		}
	}
	return found
}

func c10mask(resp, c, w, n *big.Int) *big.Int {
	m := new(big.Int).Mul(c, w)
	m.Sub(resp, m)
	return m.Mod(m, n)
}

// The released response is the nonce plus challenge times secret, with nonce
// and masks from the draws of the last round.
func c10fresh(p ProofParams, bound int) {
	rt.LoopBound(bound)
	secret := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(int(p.Bx)), vone))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	first := len(rt.Draws())
	proof := Prove(secret, rp, rq1, rq2, p)
	draws := rt.Draws()[first:]
	lo := vpow2(int(p.Bx) + int(p.Bc))
	hi := vpow2(int(p.Bx) + int(p.Bc) + p.Bb)
	rt.Assert("released response is in the interval", proof.Z.Cmp(lo) >= 0 && proof.Z.Cmp(hi) < 0)
	rt.Assert("challenge has at most Bc bits", proof.Challenge.Sign() >= 0 && proof.Challenge.Cmp(vpow2(int(p.Bc))) < 0)
	if len(draws) >= 8 {
		draws = draws[len(draws)/2:]
		rt.Reach("after an abort")
	}
	k := new(big.Int).Sub(proof.Z, new(big.Int).Mul(proof.Challenge, secret))
	rt.Assert("nonce is a fresh draw", c10among(k, draws))
	rt.Assert("mask of sp is a fresh draw", c10among(c10mask(proof.Sp, proof.Challenge, rp, p.GFF.N), draws))
	rt.Assert("mask of sq1 is a fresh draw", c10among(c10mask(proof.Sq1, proof.Challenge, rq1, p.GEC.N), draws))
	rt.Assert("mask of sq2 is a fresh draw", c10among(c10mask(proof.Sq2, proof.Challenge, rq2, p.GEC.N), draws))
	rt.Reach("done")
}

func verif_C10_fresh() {
	rt.Bound("every curve, 1 round")
	c10fresh(vparams(vcurve(rt.Choice("curve", 4)), 16, 224), 1)
}

var c10lengths = []struct {
	curve int
	bx    uint8
	bc    uint16
}{{1, 8, 16}, {1, 32, 224}, {1, 100, 256}, {1, 255, 120}, {0, 1, 8}, {0, 128, 126}, {0, 8, 100}}

func verif_C10_lengths() {
	rt.Bound("secret and challenge lengths (8,16), (32,224), (100,256), (255,120) on P-384 and (1,8), (128,126), (8,100) on P-256; 1 round")
	l := c10lengths[rt.Choice("lengths", len(c10lengths))]
	c10fresh(vparams(vcurve(l.curve), l.bx, l.bc), 1)
}

func verif_C10_fresh_abort() {
	rt.Bound("P-256, 2 rounds (3 thorough)")
	n := 2
	if rt.Thorough() {
		n = 3
	}
	c10fresh(vparams(group.P256(), 16, 224), n)
}

func c10params() ProofParams {
	if rt.Choice("lengths", 2) == 1 {
		return vparams(group.P384(), 8, 16)
	}
	return vparams(group.P256(), 16, 224)
}

// Whatever nonce of the interval is sampled, it is the one that is used, and
// a response in the interval is released.
func verif_C10_nonce() {
	rt.Bound("(Bx, Bc) = (16,224) on P-256, (8,16) on P-384, every nonce in [0, 2^(Bx+Bc+Bb)), secret and challenge; 1 round")
	rt.LoopBound(1)
	p := c10params()
	secret := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(int(p.Bx)), vone))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	hi := vpow2(int(p.Bx) + int(p.Bc) + p.Bb)
	k := rt.Big("k", new(big.Int), new(big.Int).Sub(hi, vone))
	rt.ForceDraws(k)
	rt.DrawLimit("-", 7)
	proof := Prove(secret, rp, rq1, rq2, p)
	rt.ForceDraws(nil)
	z := new(big.Int).Add(k, new(big.Int).Mul(proof.Challenge, secret))
	rt.Assert("the sampled nonce is used", proof.Z.Cmp(z) == 0)
	rt.Reach("done")
}

// Every response in the interval is released, not aborted.
func verif_C10_noskip() {
	rt.Bound("(Bx, Bc) = (16,224) on P-256, (8,16) on P-384: every nonce that leads into the interval for every secret and challenge")
	rt.LoopBound(2)
	p := c10params()
	secret := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(int(p.Bx)), vone))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	lo, hi := vpow2(int(p.Bx)+int(p.Bc)), vpow2(int(p.Bx)+int(p.Bc)+p.Bb)
	k := rt.Big("k", lo, new(big.Int).Sub(hi, lo))
	rt.ForceDraws(k)
	rt.DrawLimit("a nonce inside the interval is not discarded", 7)
	Prove(secret, rp, rq1, rq2, p)
	rt.Reach("done")
}

// The prover does not lose patience: after any number of aborts what it
// releases is in the interval and no mask of an aborted round is used again.
func verif_C10_patience() {
	n := 65
	if rt.Thorough() {
		n = 130
	}
	rt.Bound("P-256, Bx = 16, Bc = 224, secret 0, up to 64 aborts (129 thorough)")
	rt.LoopBound(n)
	p := vparams(group.P256(), 16, 224)
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	proof := Prove(new(big.Int), rp, rq1, rq2, p)
	rt.Assert("released response is in the interval", proof.Z.Cmp(vpow2(240)) >= 0 && proof.Z.Cmp(vpow2(240+p.Bb)) < 0)
	rt.Reach("done")
}

// With the secret 0 the response is the nonce: each one can be sampled.
func verif_C10_reachable() {
	rt.Bound("(Bx, Bc) = (16,224) on P-256, (8,16) on P-384: secret 0, every response in the interval")
	rt.LoopBound(2)
	p := c10params()
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	lo, hi := vpow2(int(p.Bx)+int(p.Bc)), vpow2(int(p.Bx)+int(p.Bc)+p.Bb)
	k := rt.Big("k", lo, new(big.Int).Sub(hi, vone))
	rt.ForceDraws(k)
	rt.DrawLimit("every response in the interval comes from a nonce that can be sampled", 7)
	proof := Prove(new(big.Int), rp, rq1, rq2, p)
	rt.ForceDraws(nil)
	rt.Assert("every response in the interval comes from a nonce that can be sampled", proof.Z.Cmp(k) == 0)
	rt.Reach("done")
}
