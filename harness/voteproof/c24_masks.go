package voteproof

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

func c24by(g group.Group, a, b, e group.Element, d *big.Int) bool {
	m := g.Element().Scale(e, d)
	x := g.Element().Subtract(b, a)
	if x.IsEqual(m) {
		return true
	}
	y := g.Element().Subtract(a, b)
	return y.IsEqual(m)
}

// Masks of the vote proof.
func verif_C24_vote() {
	rt.Bound("P-256, P-384 and ristretto255, Bx=16, Bc=224, any secret and randomness, first or second proof made, one round of the abort loop")
	rt.LoopBound(1)
	ec := vcurve([]int{0, 1, 3}[rt.Choice("curve", 3)])
	p := vparams(ec, 16, 224)
	ff := p.GFF.I
	secret := rt.Big("secret", new(big.Int), big.NewInt(65535))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	if rt.Bool("later") {
		_ = Prove(secret, rp, rq1, rq2, p)
	}
	from := len(rt.Draws())
	a := Prove(secret, rp, rq1, rq2, p)
	to := len(rt.Draws())
	var mp, m1, m2, mk bool
	for j := from; j < to; j++ {
		at := len(rt.Draws())
		rt.Redraw(from, to, j)
		b := Prove(secret, rp, rq1, rq2, p)
		d := new(big.Int).Sub(rt.Draws()[at+j-from], rt.Draws()[j])
		// a rerun that discards a response draws more, a draw may repeat
		rt.Assume(len(rt.Draws())-at == to-from && d.Sign() != 0)
		w, kp, k1, k2 := a.W.IsEqual(b.W), a.Kp.IsEqual(b.Kp), a.Kq1.IsEqual(b.Kq1), a.Kq2.IsEqual(b.Kq2)
		switch {
		case !w && !kp && k1 && k2:
			mp = mp || c24by(ff, a.W, b.W, p.GFF.G, d) && c24by(ff, a.Kp, b.Kp, p.GFF.H, d)
		case w && kp && !k1 && k2:
			m1 = m1 || c24by(ec, a.Kq1, b.Kq1, p.GEC.H, d)
		case w && kp && k1 && !k2:
			m2 = m2 || c24by(ec, a.Kq2, b.Kq2, p.GEC.H, d)
		case w && !kp && !k1 && !k2:
			mk = mk || c24by(ff, a.Kp, b.Kp, p.GFF.G, d) && c24by(ec, a.Kq1, b.Kq1, p.GEC.G, d) && c24by(ec, a.Kq2, b.Kq2, p.GEC.G, d)
		}
	}
	rt.Assert("the ciphertext part has a mask of its own", mp)
	rt.Assert("each commitment part has a mask of its own", m1 && m2)
	rt.Assert("the three value commitments share one nonce of their own", mk)
	rt.Reach("done")
}

// The masks can take every scalar value and no other.
func verif_C24_uniform() {
	rt.Bound("every curve, Bx=16, Bc=224, every value of the draws, one round of the abort loop")
	rt.LoopBound(1)
	ec := vcurve(rt.Choice("curve", 4))
	p := vparams(ec, 16, 224)
	maxF, maxE := new(big.Int).Sub(p.GFF.N, vone), new(big.Int).Sub(p.GEC.N, vone)
	// from 2^(Bx+Bc) on, no response with a secret of 0 is discarded
	v := rt.Big("v", vpow2(240), maxF)
	small := rt.Bool("small")
	if small {
		rt.Assume(v.Cmp(maxE) <= 0)
	} else {
		rt.Assume(v.Cmp(maxE) > 0)
	}
	from := len(rt.Draws())
	rt.ForceDraws(v)
	_ = Prove(new(big.Int), big.NewInt(5), big.NewInt(6), big.NewInt(7), p)
	rt.ForceDraws(nil)
	n := 0
	for _, d := range rt.Draws()[from:] {
		if d.Cmp(v) == 0 {
			n++
		}
	}
	if small {
		rt.Assert("all three masks can be every scalar of the curve", n >= 3)
	} else {
		rt.Assert("the ciphertext mask can be every scalar of the ElGamal group", n >= 1)
	}
	rt.Reach("done")
}

// An unreduced response would show the size of the secret it masks.
func verif_C24_reduced() {
	rt.Bound("every curve, Bx=16, Bc=224, any secret and randomness, one round of the abort loop")
	rt.LoopBound(1)
	ec := vcurve(rt.Choice("curve", 4))
	p := vparams(ec, 16, 224)
	secret := rt.Big("secret", new(big.Int), big.NewInt(65535))
	rp, rq1, rq2 := vscalar("rp", p.GFF.N), vscalar("rq1", p.GEC.N), vscalar("rq2", p.GEC.N)
	a := Prove(secret, rp, rq1, rq2, p)
	in := func(v, n *big.Int) bool { return v.Sign() >= 0 && v.Cmp(n) < 0 }
	rt.Assert("the ciphertext response is reduced", in(a.Sp, p.GFF.N))
	rt.Assert("the commitment responses are reduced", in(a.Sq1, p.GEC.N) && in(a.Sq2, p.GEC.N))
	rt.Reach("done")
}
