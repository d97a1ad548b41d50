package voteproof

import (
	"encoding/json"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

func c18equal(p, q SigmaProof) {
	rt.Assert("decoded elements are equal", p.W.IsEqual(q.W) && p.Kp.IsEqual(q.Kp) && p.Kq1.IsEqual(q.Kq1) && p.Kq2.IsEqual(q.Kq2))
	rt.Assert("decoded scalars are equal", p.Challenge.Cmp(q.Challenge) == 0 && p.Z.Cmp(q.Z) == 0 && p.Sp.Cmp(q.Sp) == 0 && p.Sq1.Cmp(q.Sq1) == 0 && p.Sq2.Cmp(q.Sq2) == 0)
	a, b := p.Params, q.Params
	rt.Assert("decoded lengths and range are equal", a.Bx == b.Bx && a.Bc == b.Bc && a.Bg == b.Bg && a.Bb == b.Bb && a.RangeLo == b.RangeLo && a.RangeHi == b.RangeHi)
	for _, x := range [][2]GroupParameters{{a.GFF, b.GFF}, {a.GEC, b.GEC}} {
		rt.Assert("decoded group parameters are equal", x[0].G.IsEqual(x[1].G) && x[0].H.IsEqual(x[1].H) && x[0].N.Cmp(x[1].N) == 0 && x[0].F.Cmp(x[1].F) == 0 && x[1].I.Name() == x[0].I.Name())
	}
}

func verif_C18_vote() {
	rt.Bound("every curve, Bx=16, Bc=32, every secret, one round of the abort loop")
	rt.LoopBound(1)
	ec := vcurve(rt.Choice("curve", 4))
	p := vparams(ec, 16, 32)
	secret := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(16), vone))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	proof := Prove(secret, rp, rq1, rq2, p)
	doc, err := json.Marshal(proof)
	rt.Assert("encoding succeeds", err == nil)
	q, err := ProofUnmarshalJSON(doc, p.GFF.I, p.GEC.I)
	rt.Assert("decoding succeeds", err == nil)
	c18equal(proof, q)
	rt.Assert("decoded proof is accepted", q.Verify(vcommit(secret, rp, rq1, rq2, p)))
	rt.Reach("done")
}

// Any proof-shaped object.
func verif_C18_object() {
	rt.Bound("every curve, any elements, scalars in [-2^3300, 2^3300]")
	ec := vcurve(rt.Choice("curve", 4))
	p := vparams(ec, 16, 32)
	lim := vpow2(3300)
	sc := func(name string) *big.Int { return rt.Big(name, new(big.Int).Neg(lim), lim) }
	var s SigmaProof
	s.Params = p
	s.W, s.Kp = p.GFF.I.Generator(), p.GFF.I.Generator()
	s.Kq1, s.Kq2 = ec.Generator(), ec.Generator()
	switch rt.Choice("place", 4) {
	case 0:
		s.W = p.GFF.I.Element().BaseScale(vscalar("e", p.GFF.N))
	case 1:
		s.Kp = p.GFF.I.Element().BaseScale(vscalar("e", p.GFF.N))
	case 2:
		s.Kq1 = ec.Element().BaseScale(vscalar("e", ec.N()))
	case 3:
		s.Kq2 = ec.Element().BaseScale(vscalar("e", ec.N()))
	}
	s.Challenge, s.Z, s.Sp, s.Sq1, s.Sq2 = sc("c"), sc("z"), sc("sp"), sc("sq1"), sc("sq2")
	doc, err := json.Marshal(s)
	rt.Assert("encoding succeeds", err == nil)
	q, err := ProofUnmarshalJSON(doc, p.GFF.I, p.GEC.I)
	rt.Assert("decoding succeeds", err == nil)
	c18equal(s, q)
	rt.Reach("done")
}

// A rejected proof stays rejected.
func verif_C18_rejected() {
	rt.Bound("P-256, Bx=16, Bc=32, one component changed by any amount")
	rt.LoopBound(1)
	ec := vcurve(0)
	p := vparams(ec, 16, 32)
	secret := big.NewInt(300)
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	proof := Prove(secret, rp, rq1, rq2, p)
	ff := p.GFF.I
	add := func(g group.Group, e group.Element) group.Element {
		return g.Element().Add(e, g.Element().BaseScale(vdelta("d", g.N())))
	}
	inc := func(s, n *big.Int) *big.Int { return new(big.Int).Add(s, vdelta("d", n)) }
	switch rt.Choice("place", 9) {
	case 0:
		proof.W = add(ff, proof.W)
	case 1:
		proof.Kp = add(ff, proof.Kp)
	case 2:
		proof.Kq1 = add(ec, proof.Kq1)
	case 3:
		proof.Kq2 = add(ec, proof.Kq2)
	case 4:
		proof.Challenge = inc(proof.Challenge, ec.N())
	case 5:
		proof.Z = inc(proof.Z, ec.N())
	case 6:
		proof.Sp = inc(proof.Sp, ff.N())
	case 7:
		proof.Sq1 = inc(proof.Sq1, ec.N())
	case 8:
		proof.Sq2 = inc(proof.Sq2, ec.N())
	}
	c := vcommit(secret, rp, rq1, rq2, p)
	ok := proof.Verify(c)
	doc, err := json.Marshal(proof)
	rt.Assert("encoding succeeds", err == nil)
	q, err := ProofUnmarshalJSON(doc, p.GFF.I, p.GEC.I)
	rt.Assert("decoding succeeds", err == nil)
	rt.Assert("the verdict on the decoded proof is the verdict on the original", ok == q.Verify(c))
	rt.Assert("the changed proof is rejected", !ok)
	rt.Reach("done")
}
