package voteproof

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// A prover of its own, with any secret and nonce.
func verif_C09_response() {
	rt.Bound("P-256 and P-384, (Bx, Bc) = (16,224), (8,100): any secret and nonce in +-2^420, so that all relations hold and only the interval of the response decides")
	l := rt.Choice("lengths", 2)
	p := vparams(vcurve(rt.Choice("curve", 2)), []uint8{16, 8}[l], []uint16{224, 100}[l])
	ff, ec := p.GFF.I, p.GEC.I
	any := func(s string) *big.Int { return rt.Big(s, new(big.Int).Neg(vpow2(420)), vpow2(420)) }
	x, k := any("x"), any("k")
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	tp, tq1, tq2 := vscalar("tp", p.GFF.N), vscalar("tq1", p.GEC.N), vscalar("tq2", p.GEC.N)
	comm := vcommit(x, rp, rq1, rq2, p)
	w := ff.Element().BaseScale(tp)
	kp := ff.Element().Add(ff.Element().BaseScale(k), ff.Element().Scale(p.GFF.H, tp))
	kq1 := ec.Element().Add(ec.Element().BaseScale(k), ec.Element().Scale(p.GEC.H, tq1))
	kq2 := ec.Element().Add(ec.Element().BaseScale(k), ec.Element().Scale(p.GEC.H, tq2))
	c := getFSChallenge(comm, w, kp, kq1, kq2, p.Bc)
	respond := func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, new(big.Int).Mul(c, b)) }
	var proof SigmaProof
	proof.W, proof.Kp, proof.Kq1, proof.Kq2 = w, kp, kq1, kq2
	proof.Challenge, proof.Params = c, p
	proof.Z, proof.Sp, proof.Sq1, proof.Sq2 = respond(k, x), respond(tp, rp), respond(tq1, rq1), respond(tq2, rq2)
	ok := proof.Verify(comm)
	lo := vpow2(int(p.Bx) + int(p.Bc))
	hi := vpow2(int(p.Bx) + int(p.Bc) + p.Bb)
	in := proof.Z.Cmp(lo) >= 0 && proof.Z.Cmp(hi) < 0
	rt.Assert("accepted exactly when the response is in the interval", ok == in)
	rt.Reach("done")
}
